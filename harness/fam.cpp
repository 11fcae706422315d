#include "fam.h"

void FamOne(const CircFn& f) {
  for (int t : kTypes) {
    Circuit c;
    c.pin = 2; c.gin = 2; c.ein = 2;
    int64_t w[8] = {kC0, kC1, c.P(0), c.P(1), c.G(0), c.G(1), c.E(0), c.E(1)};
    for (int64_t a : w)
      for (int64_t b : w) {
        if (t == 12 && b != a) continue;
        Circuit d = c;
        d.g = {{a, b, t}};
        d.out = {d.W(0)};
        f(d);
      }
  }
}

void FamTwo(bool small, const CircFn& f) {
  static const int ts[6] = {8, 11, 13, 6, 12, 1};
  vector<int> types(kTypes, kTypes + 11);
  if (small) types.assign(ts, ts + 6);
  Circuit c;
  c.pin = 1; c.gin = 1; c.ein = 1;
  int64_t w[5] = {kC1, c.P(0), c.G(0), c.E(0), kC0};
  for (int t1 : types) for (int64_t a : w) for (int64_t b : w) {
    if (t1 == 12 && a != b) continue;
    for (int t2 : types) for (int k = 0; k < 11; k++) {
      if (t2 == 12 && k) continue;
      Circuit d = c;
      int64_t x = d.W(0);
      int64_t p = k == 0 ? x : k <= 5 ? x : w[k - 6], q = k == 0 ? x : k <= 5 ? w[k - 1] : x;
      d.g = {{a, b, t1}, {p, q, t2}};
      d.out = {d.W(1)};
      f(d);
      d.out = {d.W(0), d.W(1), d.W(1)};
      f(d);
    }
  }
}

void FamDangling(const CircFn& f) {
  FamThree(0, [&](const Circuit& c) {
    if (c.out.size() == 1) return;
    Circuit d = c;
    d.out = {c.W(0)};
    f(d);
    d.out = {c.W(1)};
    f(d);
  });
}
void FamThree(int basis, const CircFn& f) {
  vector<int> types = {8, 6, 13};
  if (basis >= 1) types = {8, 6, 13, 11, 12};
  if (basis >= 2) types = {8, 6, 13, 11, 12, 9, 1};
  Circuit c;
  c.pin = 1; c.gin = 1; c.ein = 1;
  int64_t w[4] = {kC1, c.P(0), c.G(0), c.E(0)};
  int64_t w0 = c.W(0), w1 = c.W(1), w2 = c.W(2);
  for (int t1 : types) for (int64_t a : w) for (int64_t b : w) {
    if (t1 == 12 && a != b) continue;
    for (int t2 : types) {
      vector<std::pair<int64_t, int64_t>> g2;
      g2.push_back({w0, w0});
      for (int64_t x : w) { if (t2 != 12) { g2.push_back({w0, x}); g2.push_back({x, w0}); } for (int64_t y : w) if (t2 != 12 || x == y) g2.push_back({x, y}); }
      for (auto& p2 : g2) for (int t3 : types) {
        vector<std::pair<int64_t, int64_t>> g3;
        if (t3 == 12) g3 = {{w1, w1}};
        else {
          g3 = {{w0, w1}, {w1, w0}};
          for (int64_t x : w) { g3.push_back({w1, x}); g3.push_back({x, w1}); }
        }
        for (auto& p3 : g3) {
          Circuit d = c;
          d.g = {{a, b, t1}, {p2.first, p2.second, t2}, {p3.first, p3.second, t3}};
          d.out = {w2};
          f(d);
          d.out = {w2, w0, w1};
          f(d);
        }
      }
    }
  }
}

// Registers and gates: register D wires range over every wire, I over constants
// and all init wires; gate wires range over registers, inputs and constants.
void FamSeq(int level, const CircFn& f) {
  // one register, one gate
  {
    Circuit c;
    c.pi = 1; c.gi = 1; c.ei = 1; c.pin = 1; c.gin = 1; c.ein = 1;
    c.D = {0}; c.I = {0};
    int64_t I[5] = {kC0, kC1, c.P_INIT(0), c.G_INIT(0), c.E_INIT(0)};
    int64_t q = c.Q(0);
    vector<int64_t> gw = {kC1, c.P(0), c.G(0), c.E(0)};
    vector<int> types = level >= 1 ? vector<int>(kTypes, kTypes + 11) : vector<int>{8, 6, 13, 12};
    for (int64_t i : I) for (int t : types) for (int k = 0; k < 9; k++) {
      if (t == 12 && k) continue;
      Circuit d = c;
      int64_t a = k == 0 ? q : k <= 4 ? q : gw[k - 5], b = k == 0 ? q : k <= 4 ? gw[k - 1] : q;
      d.g = {{a, b, t}};
      d.I = {i};
      for (int64_t D : {d.W(0), q, d.P(0), d.G(0), d.E(0), (int64_t) kC0, (int64_t) kC1}) {
        d.D = {D};
        d.out = {d.W(0), q};
        f(d);
      }
    }
  }
  // two registers, two gates: swaps, shifts, feedback
  {
    Circuit c;
    c.gi = 1; c.ei = 1; c.pin = 1; c.gin = 1; c.ein = 1;
    c.D = {0, 0}; c.I = {0, 0};
    int64_t q0 = c.Q(0), q1 = c.Q(1);
    int64_t I[4] = {kC0, kC1, c.G_INIT(0), c.E_INIT(0)};
    vector<int> types = level >= 1 ? vector<int>{8, 6, 13, 11} : vector<int>{8, 6};
    for (int64_t i0 : I) for (int64_t i1 : I) for (int t1 : types) for (int t2 : types) {
      Circuit d = c;
      d.I = {i0, i1};
      int64_t in2[4] = {d.E(0), d.G(0), d.P(0), d.W(0)};
      for (int u = 0; u < 4; u++) for (int v = 0; v < 4; v++) {
        if (u == 3) continue;
        d.g = {{q0, in2[u], t1}, {q1, in2[v], t2}};
        int64_t w0 = d.W(0), w1 = d.W(1);
        int64_t Ds[6] = {q0, q1, w0, w1, d.G(0), kC1};
        for (int64_t D0 : Ds) for (int64_t D1 : Ds) {
          d.D = {D0, D1};
          d.out = {w1, q0};
          f(d);
        }
      }
    }
  }
  if (level >= 1) {  // three registers: shift chains and rotations
    Circuit c;
    c.gi = 1; c.ei = 1; c.gin = 1; c.ein = 1;
    c.D = {0, 0, 0}; c.I = {0, 0, 0};
    int64_t q[3] = {c.Q(0), c.Q(1), c.Q(2)};
    int64_t I[3] = {kC1, c.G_INIT(0), c.E_INIT(0)};
    for (int64_t i0 : I) for (int64_t i1 : I) for (int64_t i2 : I) for (int t : {8, 6, 11}) {
      Circuit d = c;
      d.I = {i0, i1, i2};
      for (int u = 0; u < 3; u++) for (int v = 0; v < 5; v++) {
        int64_t vv[5] = {q[0], q[1], q[2], d.G(0), d.E(0)};
        d.g = {{q[u], vv[v], t}};
        int64_t Ds[5] = {q[0], q[1], q[2], d.W(0), d.E(0)};
        for (int64_t a : Ds) for (int64_t b : Ds) for (int64_t e : Ds) {
          d.D = {a, b, e};
          d.out = {q[2], d.W(0)};
          f(d);
        }
      }
    }
  }
}

Circuit PackedGrid(int pin, int gin, int ein, bool with_const) {
  Circuit c;
  c.pin = pin; c.gin = gin; c.ein = ein;
  vector<int64_t> w;
  if (with_const) { w.push_back(kC0); w.push_back(kC1); }
  for (int i = 0; i < pin; i++) w.push_back(c.P(i));
  for (int i = 0; i < gin; i++) w.push_back(c.G(i));
  for (int i = 0; i < ein; i++) w.push_back(c.E(i));
  for (int t : kTypes) for (int64_t a : w) for (int64_t b : w) { if (t == 12 && a != b) continue; c.g.push_back({a, b, t}); }
  for (size_t i = 0; i < c.g.size(); i++) c.out.push_back(c.W((int) i));
  return c;
}

Inputs AllAssignments(const Circuit& c, int* cc) {
  int n = c.pin + c.gin + c.ein;
  *cc = 1 << n;
  Inputs in;
  for (int k = 0; k < *cc; k++) {
    int v = k;
    for (int i = 0; i < c.pin; i++, v >>= 1) in.p_in.push_back(v & 1);
    for (int i = 0; i < c.gin; i++, v >>= 1) in.g_in.push_back(v & 1);
    for (int i = 0; i < c.ein; i++, v >>= 1) in.e_in.push_back(v & 1);
  }
  return in;
}

void CountModel(Ctx& x, const Session& s, const RefTrace& t) {
  x.transitions += t.cycles;
  uint64_t h0 = HashStr(s.c.enc());
  for (int k = 0; k < t.cycles; k++) {
    uint64_t h = Hash64(t.regs[k].data(), t.regs[k].size(), h0);
    h = Hash64(s.in.p_in.data() + (size_t) k * s.c.pin, s.c.pin, h);
    h = Hash64(s.in.g_in.data() + (size_t) k * s.c.gin, s.c.gin, h);
    h = Hash64(s.in.e_in.data() + (size_t) k * s.c.ein, s.c.ein, h);
    x.states.insert(h);
  }
}

// Runs with memory checking take one in six of the very large sessions.
bool SkipLarge(Ctx& x, const Session& s) {
  return x.mem && !x.replay && (s.c.wires() + 8) * s.cc > 60000 && x.gidx / x.nshards % 6 != 1;
}
bool RunAndCheck(Ctx& x, const Session& s) {
  if (SkipLarge(x, s)) return true;
  string d = "gc:" + s.enc();
  x.begin(d);
  Net net;
  net.keep_transcript = false;
  SessResult r = RunSession(s, &net);
  string e = CheckSession(s, r, net);
  RefTrace t = RefRun(s.c, s.in, s.cc, s.period);
  CountModel(x, s, t);
  x.outcome(r.oa + "/" + r.ob);
  if ((x.evals & 4095) == 7) x.sample(d.substr(0, 300) + " -> " + r.oa.substr(0, 60) + " / " + r.ob.substr(0, 60));
  if (!e.empty()) { x.violation(d, e); return false; }
  return true;
}

void ReplaySession(Ctx& x, const string& c) {
  Session s;
  if (c.compare(0, 3, "gc:") != 0 || !Session::dec(c.substr(3), &s)) { fprintf(stderr, "bad case\n"); exit(2); }
  RunAndCheck(x, s);
}

// ------------------------------------------------ shared circuits and sessions
Bits Pattern(size_t n, int kind, size_t k) {
  Bits b(n, 0);
  for (size_t i = 0; i < n; i++)
    b[i] = kind == 0 ? 0 : kind == 1 ? 1 : kind == 2 ? i == k : kind == 3 ? i != k : kind == 4 ? i & 1 : kind == 5 ? (i / 2 + i / 8) & 1
         : (Hash64(&i, sizeof i, 99 + kind) >> 7) & 1;
  return b;
}
Circuit WideCircuit(int w, bool pub) {
  Circuit c;
  c.gin = w; c.ein = w; c.pin = pub ? w : 0;
  for (int i = 0; i < w; i++) {
    c.g.push_back({c.G(i), c.E(w - 1 - i), i % 3 == 0 ? 8 : i % 3 == 1 ? 6 : 13});
    if (pub) c.g.push_back({0, c.P(i), i % 2 ? 11 : 9});
  }
  for (int i = 0; i < w; i++) {
    if (pub) { c.g[2 * i + 1].a = c.W(2 * i); c.out.push_back(c.W(2 * i + 1)); }
    else c.out.push_back(c.W(i));
  }
  return c;
}
Circuit BigCircuit(int n) {
  Circuit c;
  c.pi = c.gi = c.ei = c.pin = c.gin = c.ein = n;
  int d = 3 * n;
  c.D.resize(d); c.I.resize(d);
  for (int j = 0; j < d; j++) {   // every initial bit feeds one register, mixed over the owners
    int o = j % 3, i = n - 1 - j / 3;
    c.I[j] = o == 0 ? c.E_INIT(i) : o == 1 ? c.P_INIT(i) : c.G_INIT(i);
  }
  static const int ts[6] = {8, 14, 6, 13, 9, 11};
  for (int i = 0; i < n; i++) {
    int k = (int) c.g.size();
    c.g.push_back({c.G(i), c.E(n - 1 - i), ts[i % 6]});
    c.g.push_back({c.W(k), c.P(i), i % 4 == 3 ? 8 : 6});
    c.g.push_back({c.Q(i), c.Q(n + i), i % 5 == 2 ? 14 : 6});
    c.g.push_back({c.W(k + 2), c.Q(2 * n + i), 6});
    c.g.push_back({c.W(k + 1), c.W(k + 3), i % 7 == 1 ? 9 : 6});
  }
  for (int i = 0; i < n; i++) { c.D[i] = c.W(5 * (n - 1 - i) + 4); c.D[n + i] = c.Q((n + i + 1) % d); c.D[2 * n + i] = i % 3 == 0 ? c.P(i) : i % 3 == 1 ? c.G(i) : c.E(i); }
  for (int i = 0; i < n; i++) c.out.push_back(c.W(5 * i + 4));
  return c;
}
Session BigSession(int n, int cc, int salt) {
  Session s;
  s.c = BigCircuit(n);
  s.cc = cc;
  s.in.p_init = Pattern(n, 6 + salt); s.in.g_init = Pattern(n, 16 + salt); s.in.e_init = Pattern(n, 26 + salt);
  s.in.p_in = Pattern((size_t) n * cc, 36 + salt); s.in.g_in = Pattern((size_t) n * cc, 46 + salt); s.in.e_in = Pattern((size_t) n * cc, 56 + salt);
  s.mask = BitsHex(Pattern(n, 66 + salt));
  s.seed = 4 + salt;
  return s;
}
Session LongSession(int cc, int salt) {
  Session s;
  Circuit& c = s.c;
  c.pi = c.gi = c.ei = 1; c.pin = c.gin = c.ein = 1;
  c.D = {0, 0, 0}; c.I = {c.E_INIT(0), c.P_INIT(0), c.G_INIT(0)};
  c.g.push_back({c.G(0), c.E(0), 8});
  c.g.push_back({c.W(0), c.Q(0), 6});
  c.g.push_back({c.P(0), c.Q(1), 6});
  c.g.push_back({c.W(1), c.W(2), 14});
  c.g.push_back({c.Q(2), c.W(3), 9});
  c.D = {c.W(1), c.P(0), c.W(4)};
  c.out = {c.W(1), c.W(4), c.W(2)};
  s.cc = cc;
  s.in.p_init = {1}; s.in.g_init = {(uint8_t) (salt & 1)}; s.in.e_init = {(uint8_t) (salt >> 1 & 1)};
  s.in.p_in = Pattern(cc, 36 + salt); s.in.g_in = Pattern(cc, 46 + salt); s.in.e_in = Pattern(cc, 56 + salt);
  s.mask = salt % 2 ? "5" : "2";
  s.seed = 4 + salt;
  return s;
}
Session SparseSession(int n, int cc, int salt) {
  Session s;
  Circuit& c = s.c;
  c.pi = c.gi = c.ei = c.pin = c.gin = c.ein = n;
  std::set<int> at;
  for (int k : {0, 1, 2, 127, 128, 255, 256, 257, 511, 512, 1023, 1024, 4095, 4096, 32767, 32768, 65535, 65536, n / 2, n - 2, n - 1}) if (k >= 0 && k < n) at.insert(k);
  vector<int> v(at.begin(), at.end());
  int m = (int) v.size();
  c.D.resize(3 * m); c.I.resize(3 * m);
  for (int i = 0; i < m; i++) {
    int k = v[i], j = v[(i + 1 + salt) % m], g = (int) c.g.size();
    c.I[3 * i] = c.P_INIT(k); c.I[3 * i + 1] = c.G_INIT(j); c.I[3 * i + 2] = c.E_INIT(k);
    c.g.push_back({c.G(k), c.E(j), i % 2 ? 8 : 6});
    c.g.push_back({c.P(k), c.W(g), 6});
    c.g.push_back({c.Q(3 * i), c.Q(3 * i + 1), 6});
    c.g.push_back({c.W(g + 2), c.Q(3 * i + 2), 6});
    c.g.push_back({c.W(g + 1), c.W(g + 3), 6});
    c.D[3 * i] = c.E(k); c.D[3 * i + 1] = c.G(k); c.D[3 * i + 2] = c.W(g);
    c.out.push_back(c.W(g + 4)); c.out.push_back(c.W(g));
  }
  s.cc = cc;
  s.in.p_init = Pattern(n, 6 + salt); s.in.g_init = Pattern(n, 16 + salt); s.in.e_init = Pattern(n, 26 + salt);
  s.in.p_in = Pattern((size_t) n * cc, 36 + salt); s.in.g_in = Pattern((size_t) n * cc, 46 + salt); s.in.e_in = Pattern((size_t) n * cc, 56 + salt);
  s.mask = BitsHex(Pattern(c.out.size(), 66 + salt));
  s.seed = 4 + salt;
  return s;
}
Session FanSession(int n, int v) {
  Session s;
  Circuit& c = s.c;
  c.pin = 2; c.gin = 2; c.ein = 2;
  c.g.push_back({c.G(0), c.E(0), 8});
  c.g.push_back({c.W(0), c.G(1), 6});
  int h = v % 2;   // the shared result: a table gate, or a free gate on top of it
  for (int i = 0; i < n; i++) {
    if (v < 2) c.g.push_back({c.W(h), c.P(0), 8});                                   // a public zero makes all readers needless
    else if (v < 4) c.g.push_back({i % 2 ? c.E(1) : c.P(i == n - 1), c.W(h), 8});     // the last reader alone may keep it
    else if (v < 6) c.g.push_back({c.W(h), i % 3 ? c.W(h) : c.P(0), i % 2 ? 6 : 8});  // both inputs at once
    else c.g.push_back({c.W(h), c.E(i % 2), i % 3 == 0 ? 6 : 8});
  }
  for (int i = 0; i < n; i++) c.out.push_back(v == 6 && i % 2 ? c.W(h) : c.W(2 + i));
  if (v == 3) c.out = {c.W(n + 1)};
  if (v == 7) { c.g.resize(2); c.out.assign(n, c.W(h)); }
  s.cc = 4;
  s.in.p_in = {0, 0, 1, 0, 0, 1, 1, 1}; s.in.g_in = {1, 0, 1, 1, 1, 0, 1, 1}; s.in.e_in = {1, 1, 1, 0, 1, 1, 1, 0};
  s.mask = BitsHex(Pattern(c.out.size(), 6 + v)); s.seed = v + 1;
  return s;
}
Session CountSession(int bits, int v, int per, int priv, int cc) {
  Circuit d;
  d.gin = bits; d.ein = 1;
  if (priv) d.gi = 1; else d.pi = 1;
  for (int i = 0; i < bits; i++) { d.D.push_back(0); d.I.push_back(i == 0 ? 0 : kC0); }
  int64_t carry = kC1, eq = kC1;
  vector<RGate>& g = d.g;
  vector<int64_t> nx;
  for (int i = 0; i < bits; i++) {
    g.push_back({d.Q(i), carry, 6}); nx.push_back(d.W((int) g.size() - 1));
    if (i + 1 < bits) { g.push_back({d.Q(i), carry, 8}); carry = d.W((int) g.size() - 1); }
    g.push_back({d.Q(i), d.G(i), 9}); int64_t e = d.W((int) g.size() - 1);
    g.push_back({eq, e, 8}); eq = d.W((int) g.size() - 1);
  }
  g.push_back({eq, d.E(0), 8});
  d.D = nx;
  d.term = d.W((int) g.size() - 1);
  for (int i = 0; i < bits; i++) d.out.push_back(d.Q(i));
  Session s;
  s.c = d; s.cc = cc; s.period = per; 
  s.in.p_init = Bits(d.pi, 0); s.in.g_init = Bits(d.gi, 0);
  for (int k = 0; k < s.cc; k++) for (int i = 0; i < bits; i++) s.in.g_in.push_back(v >> i & 1);
  s.in.e_in = Bits(s.cc, 1);
  return s;
}
Circuit ChainCircuit(int n, int phase) {
  Circuit c;
  c.pin = 2; c.gin = 3; c.ein = 3;
  c.g.push_back({c.G(0), c.E(0), 6});
  static const int ts[5] = {8, 6, 14, 11, 9};
  for (int k = 1; k < n; k++) {
    int m = (k * 7 + phase) % 8;
    int64_t w = m < 3 ? c.G(m) : m < 6 ? c.E(m - 3) : c.P(m - 6);
    // keep the value alive: most gates are XORs with ANDs of side inputs
    if (k % 4 == 1) c.g.push_back({c.G((k / 4 + phase) % 3), c.E((k / 4) % 3), 8});
    else if (k % 4 == 2) c.g.push_back({c.W(k - 1), c.W(k - 2), ts[(k / 4) % 5]});
    else c.g.push_back({c.W(k - 1), w, k % 4 == 3 ? 6 : 9});
  }
  c.out = {c.W(n - 1), c.W(n / 2), c.W(n - 2), c.W(0)};
  return c;
}
Circuit KindCircuit(const vector<int>& kinds) {
  Circuit c;
  c.gi = 1; c.ei = 1; c.pi = 1; c.pin = 1; c.gin = 1; c.ein = 1;
  c.D = {0, 0}; c.I = {c.G_INIT(0), c.P_INIT(0)};
  c.g = {{c.G(0), c.E(0), 8}, {c.G(0), c.E(0), 6}, {c.P(0), c.P(0), 12}, {c.P(0), c.G(0), 8}, {c.W(0), c.W(0), 12}, {c.W(0), c.E(0), 14}, {kC0, kC0, 12}, {kC1, kC1, 6}};
  c.D = {c.W(5), c.P(0)};
  for (int k : kinds) {
    switch (k) {
      case 0: c.out.push_back(c.W(0)); break;
      case 1: c.out.push_back(c.W(1)); break;
      case 2: c.out.push_back(c.G(0)); break;
      case 3: c.out.push_back(c.E(0)); break;
      case 4: c.out.push_back(c.P(0)); break;
      case 5: c.out.push_back(c.W(2)); break;
      case 6: c.out.push_back(c.W(3)); break;
      case 7: c.out.push_back(c.Q(0)); break;
      case 8: c.out.push_back(c.Q(1)); break;
      case 9: c.out.push_back(c.W(4)); break;
      case 10: c.out.push_back(c.W(6)); break;
      case 11: c.out.push_back(c.W(7)); break;
    }
  }
  return c;
}
Session KindSession(const Circuit& c, int var) {
  Session s;
  s.c = c;
  s.in = AllAssignments(c, &s.cc);
  s.in.p_init = {(uint8_t) (var & 1)}; s.in.g_init = {(uint8_t) (var >> 1 & 1)}; s.in.e_init = {(uint8_t) (var >> 2 & 1)};
  return s;
}
Session Hist(const Circuit& c, int cc, uint64_t salt) {
  Session s;
  s.c = c;
  s.cc = cc;
  s.in = MakeInputs(c, cc, 0);
  uint64_t h = salt * 0x9E3779B97F4A7C15ull + 99;
  for (Bits* b : {&s.in.p_init, &s.in.g_init, &s.in.e_init, &s.in.p_in, &s.in.g_in, &s.in.e_in}) for (auto& v : *b) { h = h * 6364136223846793005ull + 1442695040888963407ull; v = (h >> 60) & 1; }
  s.seed = salt;
  return s;
}
bool TermCircuit(int kind, Circuit* o) {
  Circuit c;
  c.gi = 1; c.pin = 1; c.gin = 1; c.ein = 1;
  c.D = {0}; c.I = {c.G_INIT(0)};
  c.g = {{c.Q(0), c.G(0), 6}, {c.G(0), c.E(0), 8}, {c.P(0), c.P(0), 12}, {c.G(0), c.E(0), 9}, {c.W(0), c.E(0), 13}, {c.P(0), c.E(0), 14}, {kC1, c.P(0), 8}};
  c.D = {c.W(4)};
  c.out = {c.W(0), c.W(1), c.W(4)};
  switch (kind) {
    case 0: c.term = c.P(0); break;       // public input
    case 1: c.term = c.W(2); break;       // public gate
    case 2: c.term = c.G(0); break;       // garbler input
    case 3: c.term = c.E(0); break;       // evaluator input
    case 4: c.term = c.W(1); break;       // private AND
    case 5: c.term = c.W(3); break;       // private XNOR
    case 6: c.term = c.Q(0); break;       // private register
    case 7: c.term = c.W(5); break;       // public or private, by value
    case 8: c.term = c.W(4); break;       // private, also an output and register input
    case 9: c.g.push_back({kC0, kC0, 12}); c.term = c.W(7); break;  // constant one
    case 10: c.g.push_back({kC1, kC1, 12}); c.term = c.W(7); break;  // constant zero
    case 11: c.g.push_back({c.G(0), c.G(0), 6}); c.term = c.W(7); break;  // private wires, public result 0
    case 12: c.g.push_back({c.E(0), c.W(1), 13}); c.g.push_back({c.W(7), c.W(7), 12}); c.term = c.W(8); break;  // inverted private
    case 13: c.D.push_back(c.P(0)); c.I.push_back(kC0); {  // public register
      // wire numbering shifts with the second register
      for (auto& g : c.g) { if (g.a >= c.Q(1)) g.a++; if (g.b >= c.Q(1)) g.b++; }
      for (auto& w : c.out) w++;
      c.D[0]++;
      c.term = c.Q(1);
      } break;
    default: return false;
  }
  *o = c;
  return true;
}
vector<Session> SessionPool() {
  vector<Session> v;
  auto add = [&](const Circuit& c, int cc, uint64_t code, int per, int mode, bool low, bool ot, const string& mask) {
    Session s;
    s.c = c; s.cc = cc; s.in = MakeInputs(c, cc, code); s.period = per; s.mode = mode; s.lowmem = low; s.no_ot = !ot; s.mask = mask; s.seed = 4 + v.size();
    v.push_back(s);
  };
  Circuit a;
  a.gin = 1; a.ein = 1; a.g = {{a.G(0), a.E(0), 8}}; a.out = {a.W(0)};
  Circuit b = KindCircuit({0, 1, 4, 7});
  Circuit t, u;
  TermCircuit(4, &t);
  TermCircuit(0, &u);
  Circuit w;
  w.pin = 1; w.g = {{w.P(0), kC1, 6}}; w.out = {w.W(0)};
  for (int low = 0; low < 2; low++) for (int ot = 0; ot < 2; ot++) {
    add(a, 1, 3, 0, 0, low, ot, "0");
    add(a, 2, 0xE, 0, 1, low, ot, "1");
    add(b, 3, 0x5A5A7, 0, 2, low, ot, "5");
    add(t, 4, 0x3F5B7, 1, 0, low, ot, "3");
    add(u, 3, 0x1ADB6, 2, 1, low, ot, "4");
  }
  add(w, 2, 1, 0, 0, false, true, "0");
  add(w, 2, 2, 0, 0, true, false, "1");
  return v;
}
