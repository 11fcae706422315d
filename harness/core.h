// Core of the explorer: controlled scheduler (fibers), virtual network, owned
// nondeterminism (randomness, RSA keys, heap contents), case bookkeeping.
#ifndef VERIF_CORE_H_
#define VERIF_CORE_H_
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

using std::string;
using std::vector;

// ------------------------------------------------------------------ network
static const int kFdA = 900001;  // Alice's end
static const int kFdB = 900002;  // Bob's end

struct IoPoint {
  int party;       // 0 = Alice, 1 = Bob
  bool is_write;
  size_t len;      // bytes asked for
  size_t possible; // bytes that could be transferred now (>=1)
  long pidx;       // index of this I/O operation within the party
  long gidx;       // global index of I/O operations
};
struct IoAnswer {
  // n > 0: transfer n bytes; n == 0: answer 0 (EOF); n < 0: answer -1/err.
  long n;
  int err;
  bool cut;  // additionally cut the connection in both directions from now on
};
struct Msg {  // one send call as the code issued it to the transport
  int party;
  size_t len;
};
struct Net {
  size_t cap = (size_t) -1;        // channel capacity in bytes, per direction
  long max_ops = 4000000;          // livelock horizon
  std::function<IoAnswer(const IoPoint&)> answer;  // environment answers
  std::function<int(int runnable_mask, int current)> pick;  // scheduler
  bool keep_transcript = true;
  // state
  string q[2];      // q[0]: A->B bytes in flight, q[1]: B->A
  size_t head[2] = {0, 0};
  bool cut = false;
  bool fin[2] = {false, false};
  long pops[2] = {0, 0};
  long gops = 0;
  // observations
  string sent[2];            // full byte stream per direction
  vector<std::pair<int, string>> runs;  // maximal runs of bytes by direction, in order
  bool deadlock = false, livelock = false, threw[2] = {false, false};
  string what[2];
  long switches = 0;
  long bad_io = 0;           // I/O with a nonsensical length (negative / on a wrong fd)
  size_t max_inflight[2] = {0, 0};
  size_t leftover(int d) const { return q[d].size() - head[d]; }
};

// Runs both bodies to completion (or deadlock / horizon) under the scheduler.
void RunTwo(Net* net, const std::function<void()>& alice,
            const std::function<void()>& bob);
// Runs one body with virtual fd kFdA backed by `net` (peer is inert).
void RunOne(Net* net, int party, const std::function<void()>& body);
extern Net* g_net;

// -------------------------------------------------------- nondeterminism knobs
extern int g_heap_fill;            // -1: leave alone, else byte
// Seeds the label randomness with `seed` and the big-number randomness (and the RSA
// key choice) with `bnseed` (default: seed modulo 8, so that modular
// exponentiations repeat across cases and can be remembered).
void SeedEnv(uint64_t seed, long bnseed = -1);
extern int g_bnrand_mode;          // 0 prng, 1 all zero, 2 all one, 3 one
extern bool g_memo_modexp;
struct RandStats { long bn_rand, rand_bytes, rsa_gen, modexp, modexp_hit; };
extern RandStats g_rand_stats;
struct BnDraw { int party, bits; string v; };   // one BN_rand call; v big-endian
extern vector<BnDraw> g_bndraws;                // if g_log_bnrand
extern std::map<std::pair<int, int>, string> g_bn_override;  // (party, index of its draw) -> value
extern int g_bn_count[2];
typedef struct bignum_st BIGNUM;
void RsaPool(int idx, BIGNUM* n, BIGNUM* d, unsigned long e);  // the key pair behind a key choice
extern bool g_log_bnrand;

// ------------------------------------------------------------------- choices
// Depth-first enumeration of choice sequences with a deviation bound.
struct Chooser {
  vector<int> prefix;
  struct P { int alt, n, cost; };
  vector<P> pts;
  int dev = 0;
  bool diverged = false;
  int choose(int n, int cost = 1) {
    size_t i = pts.size();
    int c = 0;
    if (i < prefix.size()) {
      c = prefix[i];
      if (c >= n) { diverged = true; c = 0; }
    }
    pts.push_back({c, n, cost});
    if (c) dev += cost;
    return c;
  }
};
// Calls run(chooser) for every choice sequence with at most `bound` deviations.
// Stops early if run returns false. Returns number of executions.
long ExploreChoices(int bound, long max_exec, const std::function<bool(Chooser&)>& run,
                    bool* capped = nullptr);

// --------------------------------------------------------------- case context
struct Ctx {
  string prop, tier;
  int shard = 0, nshards = 1;
  uint64_t seed = 1;
  bool replay = false;
  bool mem = false;                // leave out the largest cases (slow builds)
  bool memonly = false;            // only memory errors matter (run under a detector)
  string replay_case;
  bool thorough() const { return tier == "thorough"; }
  // counters
  std::map<string, uint64_t> cnt;
  std::unordered_set<uint64_t> states;      // distinct (case/state) hashes
  std::unordered_set<uint64_t> outcomes;    // distinct observed outcomes
  uint64_t evals = 0, transitions = 0, nontrivial = 0;
  vector<string> samples;
  vector<string> caps;                      // caps that were hit
  uint64_t gidx = 0;
  int nviol = 0;
  // Returns true when this shard should run case `desc`. Registers it as current.
  bool mine();
  bool stopped() const;
  void begin(const string& desc);
  void sample(const string& s) { if (samples.size() < 6) samples.push_back(s); }
  // Reports a violation of the current case.
  void violation(const string& desc, const string& msg);
  // A violation that matches an entry of the known-findings file.
  void state(const string& s);
  void outcome(const string& s);
};
extern Ctx* g_ctx;
uint64_t Hash64(const void* p, size_t n, uint64_t h = 1469598103934665603ull);
inline uint64_t HashStr(const string& s) { return Hash64(s.data(), s.size()); }
string ScratchDir();
string HexOf(const string& bytes);
string HexOf(const void* p, size_t n);
// What the current case makes the code under test do (bytes sent, results), for comparison between builds.
extern bool g_trace;
extern uint64_t g_digest;
void Observe(const void* p, size_t n);
void Observe(const string& s);
void ProgressTick();
void DisableHangTimer();

// case strings: "k=v;k=v"
struct KV {
  std::map<string, string> m;
  vector<string> order;
  KV() {}
  explicit KV(const string& s);
  void set(const string& k, const string& v);
  void set(const string& k, long long v) { set(k, std::to_string(v)); }
  string get(const string& k, const string& d = "") const;
  long long geti(const string& k, long long d = 0) const;
  string str() const;
};
vector<string> Split(const string& s, char c);

typedef void (*ExploreFn)(Ctx&);
typedef void (*ReplayFn)(Ctx&, const string& case_str);
struct PropEntry { ExploreFn explore; ReplayFn replay; };
std::map<string, PropEntry>& PropTable();
struct PropReg {
  PropReg(const char* id, ExploreFn e, ReplayFn r) { PropTable()[id] = {e, r}; }
};
#endif
