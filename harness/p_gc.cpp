// C01 C02 C03 C04 C05 C28 C30 C31: what a two-party session computes.
#include "fam.h"
#include "garbled_circuit/garbled_circuit.h"
#include "util/common.h"

static string AllOnes(const Circuit& c) { return BitsHex(Bits(c.out.size(), 1)); }

// ---------------------------------------------------------------- C01
// Wide operands: every width around the word, block and OT sizes.
// Long dependent chain over few inputs: gate counts beyond 16 bits.
static void RunWide(Ctx& x, int w, bool pub, int cc, bool no_ot, bool low) {
  Session s;
  s.c = WideCircuit(w, pub);
  s.cc = cc;
  s.no_ot = no_ot; s.lowmem = low;
  for (int kind = 0; kind < 7; kind++) {
    vector<size_t> ks = {0};
    if (kind == 2) { ks.clear(); for (size_t k = 0; k < (size_t) w * cc; k++) if (w * cc <= 70 || k < 4 || k + 4 > (size_t) w * cc || k % 32 < 2 || k % 32 == 31) ks.push_back(k); }
    for (size_t k : ks) {
      if (!x.mine()) continue;
      s.in.g_in = Pattern((size_t) w * cc, kind, k);
      s.in.e_in = Pattern((size_t) w * cc, (kind + 3) % 7, k);
      s.in.p_in = Pattern((size_t) s.c.pin * cc, (kind + 5) % 7, k);
      s.seed = x.gidx;
      s.mask = (kind + k) & 1 ? AllOnes(s.c) : (kind == 5 ? BitsHex(Pattern(w, 4)) : "0");
      RunAndCheck(x, s);
      if (kind == 2) { std::swap(s.in.g_in, s.in.e_in); RunAndCheck(x, s); }
    }
  }
}
// A chain of n gates that a public bit makes needless in the even cycles and
// needed in the odd ones: skipping it has to be as deep as the chain.
static void DeadChain(Ctx& x, int n, int side, bool low) {
  string d = "dead:n=" + std::to_string(n) + ";side=" + std::to_string(side) + ";low=" + std::to_string(low);
  x.begin(d);
  Session s;
  s.c.pin = 1; s.c.gin = 1; s.c.ein = 1;
  s.c.g.push_back({s.c.G(0), s.c.E(0), 8});
  static const int ts[4] = {8, 14, 6, 2};
  for (int k = 1; k < n; k++) {
    int64_t a = s.c.W(k - 1), b = k % 2 ? s.c.E(0) : s.c.G(0);
    if (side == 1 || (side == 2 && k % 3 == 0)) std::swap(a, b);
    s.c.g.push_back({a, b, ts[k % 4]});
  }
  s.c.g.push_back({s.c.W(n - 1), s.c.P(0), 8});
  s.c.g.push_back({s.c.W(n), s.c.E(0), 6});
  s.c.out = {s.c.W(n), s.c.W(n + 1), s.c.W(n / 32)};
  s.cc = 4; s.lowmem = low; s.mask = "5"; s.seed = n + side;
  s.in.p_in = {0, 1, 0, 1}; s.in.g_in = {1, 1, 0, 1}; s.in.e_in = {1, 0, 1, 1};
  RefTrace t = RefRun(s.c, s.in, s.cc, 0);
  Net net;
  SessResult r = RunSession(s, &net);
  string e = CheckSession(s, r, net);
  x.state(d);
  x.transitions += s.cc;
  x.outcome(ExpectOut(s, t, true));
  if (!e.empty()) x.violation(d, e.substr(0, 400));
}
static void C01(Ctx& x) {
  for (int n : {3, 4, 5, 17, 1000, 400000}) for (int side = 0; side < 3; side++) for (int low = 0; low < 2; low++) if (x.mine()) DeadChain(x, n, side, low);
  auto comb = [&](const Circuit& c, int which) {
    if (!x.mine()) return;
    Session s;
    s.c = c;
    s.in = AllAssignments(c, &s.cc);
    s.seed = x.gidx;
    // owner alternates with the enumeration; one-gate circuits run both ways
    for (int o = 0; o < 2; o++) {
      if (which > 1 && (int) (x.gidx / x.nshards % 2) != o) continue;
      s.mask = o ? BitsHex(Bits(c.out.size(), 1)) : "0";
      RunAndCheck(x, s);
    }
  };
  FamOne([&](const Circuit& c) { comb(c, 1); });
  FamTwo(false, [&](const Circuit& c) { comb(c, 2); });
  FamThree(x.thorough() ? 2 : 0, [&](const Circuit& c) { comb(c, 3); });
  FamDangling([&](const Circuit& c) { comb(c, 3); });
  for (int w : {1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300})
    for (int pub = 0; pub < 2; pub++) for (int cc = 1; cc <= 2; cc++) RunWide(x, w, pub, cc, true, false);
  for (int ph = 0; ph < (x.thorough() ? 8 : 2); ph++)
    for (int n : {1000, 40000, 70000}) {
      if (!x.mine()) continue;
      Session s;
      s.c = ChainCircuit(n, ph);
      s.cc = n > 30000 ? 2 : 16;
      s.in.p_in = Pattern(2 * s.cc, 6); s.in.g_in = Pattern(3 * s.cc, 7 + ph); s.in.e_in = Pattern(3 * s.cc, 8 + ph);
      s.mask = "5"; s.seed = ph + 1;
      RunAndCheck(x, s);
    }
  for (int v = 0; v < (x.thorough() ? 8 : 2); v++) {  // every type on every pair of ten wires, all outputs
    if (!x.mine()) continue;
    Session s;
    s.c = PackedGrid(2, 3, 3, true);
    s.in = AllAssignments(s.c, &s.cc);
    s.mask = BitsHex(Pattern(s.c.out.size(), 6 + v));
    s.seed = v + 1;
    RunAndCheck(x, s);
  }
  for (int n : {2, 127, 128, 129, 254, 255, 256, 257, 32768, 65534, 65535, 65536, 65537}) for (int v = 0; v < 8; v++) for (int low = 0; low < 2; low++) if (x.mine()) { Session s = FanSession(n, v); s.lowmem = low; if (n > 1000) { s.cc = 2; for (auto* b : {&s.in.p_in, &s.in.g_in, &s.in.e_in}) b->erase(b->begin() + (v & 1 ? 4 : 0), b->begin() + (v & 1 ? 8 : 4)); } RunAndCheck(x, s); }
  for (int n : {260, 1100, 22000}) for (int salt = 0; salt < (n > 2000 ? 1 : 3); salt++) for (int low = 0; low < 2; low++) if (x.mine()) { Session s = BigSession(n, 3, salt); s.lowmem = low; RunAndCheck(x, s); }
  for (int n : {130, 300, 33000, 70000}) for (int salt = 0; salt < 2; salt++) for (int low = 0; low < 2; low++) if (x.mine()) { Session s = SparseSession(n, n < 1000 ? 300 : 3, salt); s.lowmem = low; RunAndCheck(x, s); }
  for (int cc : {300, 70000}) for (int salt = 0; salt < 4; salt++) if (cc < 1000 || x.thorough() || salt == 1) for (int low = 0; low < 2; low++) if (x.mine()) { Session s = LongSession(cc, salt); s.lowmem = low; RunAndCheck(x, s); }
}
static void C01R(Ctx& x, const string& c) {
  if (c.compare(0, 5, "dead:")) { ReplaySession(x, c); return; }
  KV k(c.substr(5));
  DeadChain(x, (int) k.geti("n"), (int) k.geti("side"), k.geti("low"));
}
static PropReg r01("C01", C01, C01R);

// ---------------------------------------------------------------- C02
static void FourWays(Ctx& x, Session s, bool skip_default = true) {
  for (int m = 0; m < 4; m++) {
    if (m == 0 && skip_default) continue;
    s.lowmem = m & 1;
    s.no_ot = !(m & 2);
    RunAndCheck(x, s);
  }
}
static void C02(Ctx& x) {
  auto comb = [&](const Circuit& c) {
    if (!x.mine()) return;
    Session s;
    s.c = c;
    s.in = AllAssignments(c, &s.cc);
    s.seed = x.gidx;
    s.mask = x.gidx / x.nshards % 2 ? AllOnes(c) : "0";
    FourWays(x, s);
  };
  FamOne(comb);
  FamTwo(!x.thorough(), comb);
  FamSeq(x.thorough() ? 1 : 0, [&](const Circuit& c) {
    if (!x.mine()) return;
    int n = c.pin + c.gin + c.ein, ni = c.pi + c.gi + c.ei;
    Session s;
    s.c = c;
    s.cc = 4;
    s.seed = x.gidx;
    s.mask = x.gidx / x.nshards % 2 ? "2" : "1";
    // inputs: two complementary pseudo-exhaustive histories, every initial value
    for (uint64_t iv = 0; iv < (1ull << ni); iv++) {
      uint64_t code = iv;
      for (int k = 0; k < n * 4 && ni + k < 64; k++) code |= (uint64_t) ((0x9D2C5680A7B3C1E5ull >> ((k * 5 + iv + x.gidx) % 64)) & 1) << (ni + k);
      s.in = MakeInputs(c, s.cc, code);
      s.lowmem = true; s.no_ot = true;
      RunAndCheck(x, s);
      if (iv == x.gidx % (1ull << ni)) { s.no_ot = false; RunAndCheck(x, s); s.lowmem = false; RunAndCheck(x, s); }
    }
  });
  // widths on both sides of the OT-extension threshold
  for (int low = 0; low < 2; low++) for (int ot = 0; ot < 2; ot++) {
    if (!low && !ot) continue;
    for (int w : {1, 2, 3, 7, 8, 9, 31, 32, 33, 63, 64, 65}) RunWide(x, w, false, 2, !ot, low);
    for (int w : {127, 128, 129, 130, 256, 257}) {
      if (!ot) { RunWide(x, w, true, 2, true, low); continue; }
      for (int kind : {1, 4, 5, 6, 2, 3}) for (size_t k : {(size_t) 0, (size_t) w - 1, (size_t) w}) {
        if (kind != 2 && kind != 3 && k) continue;
        if (!x.mine()) continue;
        Session s;
        s.c = WideCircuit(w, true);
        s.cc = 2; s.no_ot = false; s.lowmem = low; s.seed = 4 + kind;
        s.in.g_in = Pattern(2 * w, 6); s.in.p_in = Pattern(2 * w, 4); s.in.e_in = Pattern(2 * w, kind, k);
        s.mask = BitsHex(Pattern(w, 5));
        RunAndCheck(x, s);
      }
    }
  }
  for (int m = 1; m < 4; m++) {
    auto way = [&](Session s) {
      if (!x.mine()) return;
      s.lowmem = m & 1; s.no_ot = !(m & 2);
      RunAndCheck(x, s);
    };
    for (int n : {260, 1100, 22000}) for (int salt = 3; salt < (n > 2000 ? 4 : 6); salt++) way(BigSession(n, 3, salt));
    for (int cc : {300, 70000}) for (int salt = 0; salt < 2; salt++) {
      if (cc > 1000 && (salt || m == 3)) continue;   // one oblivious transfer per cycle
      way(LongSession(cc, salt));
    }
    way(SparseSession(300, m == 3 ? 30 : 300, m)); way(SparseSession(33000, 3, m)); way(SparseSession(70000, 2, m));
    if (m & 2) {
      Session s;
      s.c = WideCircuit(66000, false);
      s.in.g_in = Pattern(66000, 4); s.in.e_in = Pattern(66000, 7); s.mask = BitsHex(Pattern(66000, 8)); s.seed = 5;
      way(s);
    }
  }
}
static PropReg r02("C02", C02, ReplaySession);

// ---------------------------------------------------------------- C03
static void C03(Ctx& x) {
  // every ordered tuple of output kinds, every mask
  int deep = x.thorough() ? 4 : 3;
  for (int n = 1; n <= deep; n++) {
    int total = 1;
    for (int i = 0; i < n; i++) total *= kKinds;
    for (int t = 0; t < total; t++) for (int m = 0; m < 1 << n; m++) {
      if (!x.mine()) continue;
      vector<int> ks;
      for (int i = 0, v = t; i < n; i++, v /= kKinds) ks.push_back(v % kKinds);
      Session s = KindSession(KindCircuit(ks), (int) (x.gidx / 8));
      s.mask = BitsHex(HexBits(string(1, "0123456789ABCDEF"[m]), n));
      s.seed = x.gidx;
      s.mode = (int) (x.gidx / 3 % 3);
      for (int low = 0; low < 2; low++) {
        s.lowmem = low;
        RunAndCheck(x, s);
      }
      if (n <= 2) { s.no_ot = false; RunAndCheck(x, s); }
    }
  }
  // longer outputs: walking owner, mask digits beyond the outputs, missing digits, letter case
  for (int n : {4, 5, 8, 9, 16, 17, 64, 65, 130}) for (int inv = 0; inv < 2; inv++) for (int k = 0; k < n; k++) {
    if (!x.mine()) continue;
    vector<int> ks;
    for (int i = 0; i < n; i++) ks.push_back((i * 7 + k) % kKinds);
    Session s = KindSession(KindCircuit(ks), k);
    s.mask = BitsHex(Pattern(n, inv ? 3 : 2, k));
    s.seed = x.gidx;
    s.mode = k % 3;
    RunAndCheck(x, s);
    s.lowmem = true;
    s.mask = "000" + s.mask;
    RunAndCheck(x, s);
    s.mask = NormHex(s.mask);
    for (auto& ch : s.mask) ch = (char) tolower(ch);
    RunAndCheck(x, s);
    s.mask = "F" + BitsHex(Pattern((n + 3) / 4 * 4, inv ? 3 : 2, k));
    s.lowmem = false;
    RunAndCheck(x, s);
  }
  for (int n : {257, 1025, 2100, 66000}) for (int low = 0; low < 2; low++) for (int p = 0; p < 6; p++) {
    vector<size_t> ks = {0};
    if (p == 2 || p == 3) ks = n > 5000 ? vector<size_t>{(size_t) n - 1} : vector<size_t>{0, 255, 256, (size_t) n - 2, (size_t) n - 1};
    if (n > 5000 && (p < 2 || p == 5)) continue;
    for (size_t k : ks) {
      if (!x.mine()) continue;
      vector<int> kinds;
      for (int i = 0; i < n; i++) kinds.push_back((i * 7 + i / 256) % kKinds);
      Session s = KindSession(KindCircuit(kinds), (int) k);
      if (n > 5000) { s.cc = 2; s.in.p_in.resize((size_t) 2 * s.c.pin); s.in.g_in.resize((size_t) 2 * s.c.gin); s.in.e_in.resize((size_t) 2 * s.c.ein); }
      s.mask = BitsHex(Pattern(n, p, k));
      s.seed = x.gidx; s.lowmem = low; s.mode = (p + low) % 3;
      RunAndCheck(x, s);
    }
  }
}
static PropReg r03("C03", C03, ReplaySession);

// ---------------------------------------------------------------- C04
static Circuit OutCircuit(int n) {
  Circuit c;
  c.gin = n; c.ein = 1; c.pin = 1;
  for (int i = 0; i < n; i++) c.g.push_back({c.G(i), i % 2 ? c.E(0) : c.P(0), i % 3 == 2 ? 9 : 6});
  for (int i = 0; i < n; i++) c.out.push_back(c.W(i));
  return c;
}
static void C04(Ctx& x) {
  vector<int> ns = {1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 130};
  int maxcc = x.thorough() ? 12 : 9;
  for (int n : ns) for (int cc = 1; cc <= maxcc; cc++) for (int mode = 0; mode < 3; mode++)
    for (int low = 0; low < 2; low++) for (int mk = 0; mk < 4; mk++) for (int kind = 0; kind < 8; kind++) {
      if (!x.mine()) continue;
      Session s;
      s.c = OutCircuit(n);
      s.cc = cc; s.mode = mode; s.lowmem = low; s.seed = x.gidx;
      s.mask = mk == 0 ? "0" : mk == 1 ? AllOnes(s.c) : BitsHex(Pattern(n, mk == 2 ? 4 : 6));
      s.in.g_in = kind < 6 ? Pattern((size_t) n * cc, kind, (size_t) n * (cc - 1)) : Pattern((size_t) n * cc, 2, kind == 6 ? n - 1 : (size_t) n * cc - 1);
      s.in.e_in = Pattern(cc, kind < 4 ? 0 : 4); s.in.p_in = Pattern(cc, kind < 3 ? 0 : 5);
      RunAndCheck(x, s);
    }
  // all values of small outputs over short histories
  for (int n = 1; n <= 3; n++) for (int cc = 1; cc <= (n == 1 ? 6 : n == 2 ? 4 : 3); cc++)
    for (uint64_t v = 0; v < (1ull << (n * cc)); v++) for (int mode = 0; mode < 3; mode++) for (int low = 0; low < 2; low++) {
      if (!x.mine()) continue;
      Session s;
      s.c = OutCircuit(n);
      s.cc = cc; s.mode = mode; s.lowmem = low; s.seed = x.gidx;
      for (int i = 0; i < n * cc; i++) s.in.g_in.push_back(v >> i & 1);
      s.in.e_in = Bits(cc, 0); s.in.p_in = Bits(cc, 0);
      s.mask = v % 3 == 0 ? "0" : v % 3 == 1 ? "7" : "5";
      RunAndCheck(x, s);
    }
  // outputs of every kind (public, private, constant, registers), every cycle count, so that every bit changes both ways before the last
  for (int k1 = 0; k1 < kKinds; k1++) for (int k2 = 0; k2 < kKinds; k2++) for (int mode = 0; mode < 3; mode++) for (int low = 0; low < 2; low++)
    for (int m = 0; m < 4; m++) {
      Session s0 = KindSession(KindCircuit({k1, k2}), k1 + k2);
      for (int cc = 1; cc <= s0.cc; cc++) {
        if (!x.mine()) continue;
        Session s = s0;
        s.cc = cc; s.in.p_in.resize((size_t) cc * s.c.pin); s.in.g_in.resize((size_t) cc * s.c.gin); s.in.e_in.resize((size_t) cc * s.c.ein);
        s.mode = mode; s.lowmem = low; s.mask = std::to_string(m); s.seed = x.gidx;
        RunAndCheck(x, s);
      }
    }
  // cycle counts beyond one byte, listings beyond two bytes of bits, very wide outputs
  for (int n : {1, 3, 4, 5, 260, 1100, 33000}) for (int mode = 0; mode < 3; mode++) for (int low = 0; low < 2; low++) for (int mk = 0; mk < 3; mk++) {
    for (int cc : {255, 256, 257, 300}) {
      if (n > 1000 || (n > 200 && (cc != 300))) continue;
      if (!x.mine()) continue;
      Session s;
      s.c = OutCircuit(n);
      s.cc = cc; s.mode = mode; s.lowmem = low; s.seed = x.gidx;
      s.mask = mk == 0 ? "0" : mk == 1 ? AllOnes(s.c) : BitsHex(Pattern(n, 6));
      s.in.g_in = Pattern((size_t) n * cc, 7); s.in.e_in = Pattern(cc, 8); s.in.p_in = Pattern(cc, 9);
      RunAndCheck(x, s);
    }
    if (n < 1000 || (n > 2000 && mk < 2)) continue;
    if (!x.mine()) continue;
    Session s;
    s.c = OutCircuit(n);
    s.cc = 3; s.mode = mode; s.lowmem = low; s.seed = x.gidx;
    s.mask = mk == 0 ? "0" : mk == 1 ? AllOnes(s.c) : BitsHex(Pattern(n, 6));
    s.in.g_in = Pattern((size_t) n * 3, 7); s.in.e_in = Pattern(3, 8); s.in.p_in = Pattern(3, 9);
    RunAndCheck(x, s);
  }
  for (int mode = 0; mode < 3; mode++) for (int low = 0; low < 2; low++) if (x.mine()) { Session s = LongSession(mode == 1 ? 3000 : 66000, mode); s.mode = mode; s.lowmem = low; RunAndCheck(x, s); }
}
static PropReg r04("C04", C04, ReplaySession);

// ---------------------------------------------------------------- C05
// terminate signal kinds; the driving history is enumerated completely
static void C05(Ctx& x) {
  Circuit c;
  for (int kind = 0; TermCircuit(kind, &c); kind++) {
    int maxcc = x.thorough() ? 7 : 5;
    for (int cc = 1; cc <= maxcc; cc++) for (int per = 0; per <= 4; per++) {
      // which inputs drive the signal: enumerate those completely, the rest follow a fixed pattern
      bool dp = kind == 0 || kind == 1 || kind == 7 || kind == 13, dg = kind == 2 || kind == 4 || kind == 5 || kind == 6 || kind == 8 || kind == 12,
           de = kind == 3 || kind == 4 || kind == 5 || kind == 7 || kind == 8 || kind == 12 || kind == 6;
      int nd = (dp + dg + de) * cc + (kind == 6 || kind == 8);
      if (nd > (x.thorough() ? 11 : 9)) {
        if (dg && de) { dg = kind == 4 || kind == 5 ? false : dg; if (dg) de = false; }
        nd = (dp + dg + de) * cc + (kind == 6 || kind == 8);
      }
      for (uint64_t v = 0; v < (1ull << nd); v++) {
        if (!x.mine()) continue;
        Session s;
        s.c = c;
        s.cc = cc; s.period = per; s.seed = x.gidx;
        uint64_t u = v;
        auto bit = [&](bool drive, int k) -> uint8_t { if (!drive) return (uint8_t) ((0xB4D1 >> ((k * 3 + v) % 16)) & 1); uint8_t b = u & 1; u >>= 1; return b; };
        s.in.g_init = {bit(kind == 6 || kind == 8, 1)};
        for (int k = 0; k < cc; k++) s.in.p_in.push_back(bit(dp, k));
        for (int k = 0; k < cc; k++) s.in.g_in.push_back(kind == 4 && !dg ? 1 : bit(dg, k));
        for (int k = 0; k < cc; k++) s.in.e_in.push_back(bit(de, k));
        s.mask = BitsHex({(uint8_t) (v & 1), (uint8_t) (v >> 1 & 1), (uint8_t) (v >> 2 & 1)});
        for (int low = 0; low < 2; low++) {
          s.lowmem = low;
          s.mode = (int) ((v + low) % 3);
          RunAndCheck(x, s);
          if (cc <= 3 && v % 3 == 0) { s.no_ot = false; RunAndCheck(x, s); s.no_ot = true; }
        }
      }
    }
  }
  // longer runs: signal of the form "counter reaches v" for every v
  for (int bits = 2; bits <= 4; bits++) for (int v = 0; v < 1 << bits; v++) for (int per = 0; per <= 5; per++) for (int priv = 0; priv < 2; priv++) {
    if (!x.mine()) continue;
    Session s = CountSession(bits, v, per, priv, (1 << bits) + 3);
    s.seed = x.gidx;
    for (int low = 0; low < 2; low++) for (s.mode = 0; s.mode < 3; s.mode++) { s.lowmem = low; RunAndCheck(x, s); }
  }
  // cycle counts and periods beyond one byte; once beyond two
  for (int v : {5, 254, 255, 256, 257, 299, 300, 509}) for (int per : {0, 1, 3, 7, 100, 255, 256, 257, 290, 400}) for (int priv = 0; priv < 2; priv++) for (int low = 0; low < 2; low++) {
    if (!x.mine()) continue;
    Session s = CountSession(9, v, per, priv, 305);
    s.seed = x.gidx; s.lowmem = low; s.mode = (v + per) % 3;
    RunAndCheck(x, s);
  }
  for (int per : {0, 1, 65535, 65536, 65537}) for (int low = 0; low < 2; low++) for (int v : {65535, 65536, 65537}) {
    if (!x.thorough() && v == 65536 && per > 1 && per != 65536) continue;
    if (!x.mine()) continue;
    Session s = CountSession(17, v, per, 0, 65545);
    s.seed = x.gidx; s.lowmem = low; s.mode = 2;
    RunAndCheck(x, s);
  }
}
static PropReg r05("C05", C05, ReplaySession);

// ---------------------------------------------------------------- C28
static void C28(Ctx& x) {
  FamSeq(x.thorough() ? 1 : 0, [&](const Circuit& c) {
    if (!x.mine()) return;
    // only wires the circuit uses are enumerated
    std::set<int64_t> used;
    for (auto& g : c.g) { used.insert(g.a); used.insert(g.b); }
    for (auto w : c.D) used.insert(w);
    std::set<int64_t> iu;
    for (auto w : c.I) if (w >= 0) iu.insert(w);
    vector<int> in;
    for (int i = 0; i < c.pin + c.gin + c.ein; i++) if (used.count(c.P(0) + i)) in.push_back(i);
    int n = (int) in.size(), ni = (int) iu.size();
    // one history that contains every input vector after every input vector (de Bruijn), from every initial value
    int K = 1 << n;
    vector<int> seq;
    if (n == 0) seq = {0, 0, 0, 0, 0};
    else {
      vector<vector<bool>> seen(K, vector<bool>(K, false));
      int cur = 0;
      seq.push_back(0);
      while (true) {
        int nx = -1;
        for (int v = K - 1; v >= 0; v--) if (!seen[cur][v]) { nx = v; break; }
        if (nx < 0) break;
        seen[cur][nx] = true;
        seq.push_back(nx);
        cur = nx;
      }
    }
    for (int iv = 0; iv < 1 << ni; iv++) {
      Session s;
      s.c = c;
      s.cc = (int) seq.size();
      s.seed = x.gidx * 8 + iv;
      s.in = MakeInputs(c, s.cc, 0);
      int b = 0;
      for (auto w : iu) {
        uint8_t v = iv >> b++ & 1;
        if (w < c.pi) s.in.p_init[w] = v; else if (w < c.pi + c.gi) s.in.g_init[w - c.pi] = v; else s.in.e_init[w - c.pi - c.gi] = v;
      }
      for (size_t k = 0; k < seq.size(); k++) for (int j = 0; j < n; j++) {
        int i = in[j];
        uint8_t v = seq[k] >> j & 1;
        if (i < c.pin) s.in.p_in[k * c.pin + i] = v;
        else if (i < c.pin + c.gin) s.in.g_in[k * c.gin + i - c.pin] = v;
        else s.in.e_in[k * c.ein + i - c.pin - c.gin] = v;
      }
      s.mask = (x.gidx + iv) & 1 ? "1" : "2";
      s.lowmem = (x.gidx / x.nshards + iv) & 1;
      RunAndCheck(x, s);
      if (x.thorough() || iv == 0) { s.lowmem = !s.lowmem; RunAndCheck(x, s); }
    }
  });
  // long shift registers and counters
  for (int n : {1, 2, 3, 8, 9, 33, 64, 65, 129}) for (int kind = 0; kind < 6; kind++) for (int low = 0; low < 2; low++) for (int ot = 0; ot < 2; ot++) {
    if (!x.mine()) continue;
    Circuit c;
    int third = n / 3;
    c.pi = third; c.gi = third; c.ei = n - 2 * third;
    c.gin = 1; c.ein = 1;
    c.D.assign(n, 0); c.I.assign(n, 0);
    for (int i = 0; i < n; i++) { c.I[i] = kind == 5 ? (i % 2 ? kC1 : kC0) : i; c.D[i] = kind == 3 ? c.Q((i * 2 + 1) % n) : i ? c.Q(i - 1) : kind == 1 ? c.Q(n - 1) : c.G(0); }
    c.g = {{c.Q(n - 1), c.G(0), 6}, {c.Q(n / 2), c.E(0), 8}};
    if (kind == 2) c.D[0] = c.W(0);
    if (kind == 4) c.D[n / 2] = c.W(1);
    c.out = {c.W(0), c.W(1), c.Q(0), c.Q(n - 1)};
    Session s;
    s.c = c; s.cc = n < 40 ? n + 3 : 12; s.seed = 4 + n % 4; s.lowmem = low; s.no_ot = !ot;
    if (ot && n > 40 && kind > 2) continue;
    s.in.p_init = Pattern(c.pi, 6); s.in.g_init = Pattern(c.gi, 7); s.in.e_init = Pattern(c.ei, 8);
    s.in.g_in = Pattern(s.cc, 9 + kind); s.in.e_in = Pattern(s.cc, 4);
    s.mask = "6";
    RunAndCheck(x, s);
  }
  for (int n : {86, 258, 1100, 22000, 66000}) for (int m = 0; m < 4; m++) for (int salt = 0; salt < (n < 2000 ? 2 : 1); salt++) {
    if (n > 50000 && m == 2) continue;
    if (!x.mine()) continue;
    Session s = BigSession(n, n > 50000 ? 2 : 3, 10 + salt);
    s.lowmem = m & 1; s.no_ot = !(m & 2); s.mode = m % 3;
    RunAndCheck(x, s);
  }
}
static PropReg r28("C28", C28, ReplaySession);

// ---------------------------------------------------------------- C30
static void RunPoolSeq(Ctx& x, const vector<Session>& pool, const vector<int>& ids) {
  string d = "seq:";
  for (int i : ids) d += (d.size() > 4 ? "," : "") + std::to_string(i);
  x.begin(d);
  vector<SessResult> res(ids.size());
  vector<string> paths;
  for (size_t k = 0; k < ids.size(); k++) {
    string p = ScratchDir() + "/seq" + std::to_string(ids[k]) + ".scd";
    static std::set<int> written;
    if (written.insert(ids[k]).second) { FILE* f = fopen(p.c_str(), "w"); string t = pool[ids[k]].c.scd(); fwrite(t.data(), 1, t.size(), f); fclose(f); }
    paths.push_back(p);
  }
  SeedEnv(4 + ids[0]);
  Net net;
  net.keep_transcript = false;
  auto body = [&](bool alice) {
    for (size_t k = 0; k < ids.size(); k++) {
      const Session& s = pool[ids[k]];
      if (alice) res[k].ra = GarbleStr(paths[k], BitsHex(s.in.p_init), BitsHex(s.in.p_in), BitsHex(s.in.g_init), BitsHex(s.in.g_in), s.cc, s.mask, s.period, (OutputMode) s.mode, s.no_ot, s.lowmem, &res[k].oa, kFdA);
      else res[k].rb = EvaluateStr(paths[k], BitsHex(s.in.p_init), BitsHex(s.in.p_in), BitsHex(s.in.e_init), BitsHex(s.in.e_in), s.cc, s.mask, s.period, (OutputMode) s.mode, s.no_ot, s.lowmem, &res[k].ob, kFdB);
    }
  };
  RunTwo(&net, [&] { body(true); }, [&] { body(false); });
  for (size_t k = 0; k < ids.size(); k++) {
    string e = CheckSession(pool[ids[k]], res[k], net);
    if (!e.empty()) { x.violation(d, "session " + std::to_string(k) + " of the sequence: " + e); return; }
    RefTrace t = RefRun(pool[ids[k]].c, pool[ids[k]].in, pool[ids[k]].cc, pool[ids[k]].period);
    CountModel(x, pool[ids[k]], t);
    x.outcome(res[k].oa + "/" + res[k].ob);
    x.state(d.substr(0, 4 + 3 * k));
  }
  if (x.evals % 50 == 3) x.sample(d + " last output " + res.back().oa + " / " + res.back().ob);
}
static void C30(Ctx& x) {
  vector<Session> p = SessionPool();
  int n = (int) p.size();
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
    if (x.mine()) RunPoolSeq(x, p, {i, j});
    for (int k = 0; k < n; k++) if (x.mine()) RunPoolSeq(x, p, {i, j, k});
  }
  if (x.thorough())
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int k = 0; k < n; k++) for (int l = 0; l < n; l += 3) if (x.mine()) RunPoolSeq(x, p, {i, j, k, l});
}
static void C30R(Ctx& x, const string& c) {
  vector<Session> p = SessionPool();
  vector<int> ids;
  for (auto& f : Split(c.substr(4), ',')) ids.push_back(atoi(f.c_str()));
  RunPoolSeq(x, p, ids);
}
static PropReg r30("C30", C30, C30R);
