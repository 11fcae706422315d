"00DBEDCDB7B98DF62CD3F9D310FDD86F454A69E5F6AF52952FC1E88B785C26FA637CB3C018AF1CC4ED8BF59EEFF4277B992F497B8F6485419E02C8558F262BCD89",
"00E22005EBC57F46375B640819D808AE3C4003060BC6A97C0EE8B752DBE8168E7AEE77DDE3CF88972F1529D933D24F2DC8E4E44AD28964F4F6988CC5DED77DEE0D"
