"00DD4BF58E2B43388F8B8F3F136E2C6EEAF1110F839BFBC967482CC55D475F26A48BCEF86D1DD011665EBC0F2A81D60244550A772615907CA8201060250F11E80D",
"00FD62C669B73DA374DEE3A3602D40014F0BC8AD7F012E6BFFE51A7FEC23EBFBC1C95DA0CA9700B0274E88E7EF75381CF637B4E128D4ABD4EB51646635D12E35C9"
