// Reference circuit semantics (the model) and two-party sessions on the real code.
#ifndef VERIF_GC_H_
#define VERIF_GC_H_
#include "core.h"

typedef vector<uint8_t> Bits;  // LSB first

struct RGate { int64_t a, b; int type; };
struct Circuit {
  int pi = 0, gi = 0, ei = 0, pin = 0, gin = 0, ein = 0;
  vector<RGate> g;
  vector<int64_t> out, D, I;
  int64_t term = 0;
  int dff() const { return (int) D.size(); }
  int64_t dff_lo() const { return pi + gi + ei + pin + gin + ein; }
  int64_t gate_lo() const { return dff_lo() + dff(); }
  int64_t wires() const { return gate_lo() + (int64_t) g.size(); }
  // wire indices
  int64_t P_INIT(int i) const { return i; }
  int64_t G_INIT(int i) const { return pi + i; }
  int64_t E_INIT(int i) const { return pi + gi + i; }
  int64_t P(int i) const { return pi + gi + ei + i; }
  int64_t G(int i) const { return P(pin) + i; }
  int64_t E(int i) const { return G(gin) + i; }
  int64_t Q(int i) const { return dff_lo() + i; }
  int64_t W(int i) const { return gate_lo() + i; }
  string scd() const;            // text of the SCD file
  string enc() const;            // compact one-line encoding
  static bool dec(const string& s, Circuit* c);
};
static const int kC0 = -2, kC1 = -3;
extern const int kTypes[11];
bool RefOp(int type, bool a, bool b);

struct Inputs {
  Bits p_init, g_init, e_init, p_in, g_in, e_in;  // inputs: cycle-major
};
struct RefTrace {
  int cycles = 0;                 // cycles actually executed
  vector<Bits> outs;              // per cycle
  vector<Bits> wires;             // per cycle, all wire values (if asked)
  vector<string> regs;            // register state before each cycle
};
RefTrace RefRun(const Circuit& c, const Inputs& in, int cc, int period, bool keep_wires = false);

string BitsHex(const Bits& b);    // hex number, most significant digit first
Bits HexBits(const string& h, size_t n);
// Numeric normal form of a hex string ("" if not hex).
string NormHex(const string& h);

struct Session {
  Circuit c;
  Inputs in;
  int cc = 1;
  string mask = "0";              // hex; bit i set -> output bit i goes to Alice
  int period = 0;
  int mode = 0;                   // 0 consecutive 1 per clock 2 last
  bool no_ot = true, lowmem = false;
  uint64_t seed = 1;
  int fill = -1;
  string enc() const;
  static bool dec(const string& s, Session* out);
};
struct SessResult {
  int ra = 99, rb = 99;
  string oa = "5A", ob = "C";     // what a caller left there must not show in the result
  bool scd_ok = true;
};
struct NetPlan {
  size_t cap = (size_t) -1;
  std::function<IoAnswer(const IoPoint&)> answer;
  std::function<int(int, int)> pick;
  bool keep = false;
};
SessResult RunSession(const Session& s, Net* net);
// Expected result strings in numeric normal form.
string ExpectOut(const Session& s, const RefTrace& t, bool alice);
string NormOut(const string& o, int mode);
// Full check of a completed session against the model. Empty string: fine.
string CheckSession(const Session& s, const SessResult& r, const Net& net, bool check_alice = true, bool check_bob = true);
string WriteScdFile(const Circuit& c, bool with_map = false);
bool ParseScd(const string& text, Circuit* c);
void SilenceLogs();
Inputs MakeInputs(const Circuit& c, int cc, uint64_t code);   // code bits fill p,g,e init then inputs
#endif
