// C10 C11 C12 C27 C29: what a session's traffic may depend on.
#include "fam.h"
#include <algorithm>
#include <malloc.h>
#include <openssl/bn.h>

namespace {
struct Obs { SessResult r; string sent[2]; vector<std::pair<int, string>> runs; string err; };
Obs Observe(const Session& s) {
  Net net;
  Obs o;
  o.r = RunSession(s, &net);
  for (int d = 0; d < 2; d++) o.sent[d] = net.sent[d];
  o.runs = net.runs;
  o.err = CheckSession(s, o.r, net);
  return o;
}
struct W16 {
  uint64_t a, b;
  bool operator==(const W16& o) const { return a == o.a && b == o.b; }
  bool operator<(const W16& o) const { return a != o.a ? a < o.a : b < o.b; }
  W16 operator^(const W16& o) const { return {a ^ o.a, b ^ o.b}; }
};
struct WHash { size_t operator()(const W16& w) const { return w.a * 0x9E3779B97F4A7C15ull ^ w.b; } };
W16 At(const string& s, size_t i) { W16 w; memcpy(&w, s.data() + i, 16); return w; }
bool Rich(const W16& w) {  // at least 11 distinct bytes: cannot be padding, counters or lengths
  const unsigned char* p = (const unsigned char*) &w;
  uint64_t m[4] = {0, 0, 0, 0};
  for (int i = 0; i < 16; i++) m[p[i] >> 6] |= 1ull << (p[i] & 63);
  return __builtin_popcountll(m[0]) + __builtin_popcountll(m[1]) + __builtin_popcountll(m[2]) + __builtin_popcountll(m[3]) >= 11;
}
string WHex(const W16& w) { return HexOf(&w, 16); }
Bits* Field(Session* s, int which) {
  switch (which) { case 0: return &s->in.g_init; case 1: return &s->in.g_in; case 2: return &s->in.e_init; default: return &s->in.e_in; }
}
// The offset between the two labels of a wire, obtained by running the session
// twice with the same randomness and one garbler bit toggled.
bool DeriveR(const Session& s, const Obs& base, W16* R, size_t* pos) {
  for (int f : {1, 0}) {
    Session t = s;
    Bits* b = Field(&t, f);
    if (b->empty()) continue;
    (*b)[0] ^= 1;
    Obs o = Observe(t);
    const string &p = base.sent[0], &q = o.sent[0];
    size_t n = std::min(p.size(), q.size()), i = 0;
    while (i < n && p[i] == q[i]) i++;
    if (i + 16 > n) continue;
    // the first differing byte may not be the first byte of the label: try the alignments that leave the bytes before equal
    size_t j = i + 16;
    while (j > i + 1 && p[j - 1] == q[j - 1]) j--;
    // j - i <= 16 bytes differ; the offset's equal leading bytes are undetermined only when they are zero
    *R = At(p, i) ^ At(q, i);
    *pos = i;
    if (j - i < 16) {  // a zero byte at either end: window may start earlier; pick the start congruent with a 16-byte label
      // every alignment is a candidate: callers test them all
    }
    return true;
  }
  return false;
}

// ------------------------------------------------------------------ C10
void CheckOffset(Ctx& x, const Session& s) {
  string d = "off:" + s.enc();
  x.begin(d);
  Obs o = Observe(s);
  if (!o.err.empty()) { x.cnt["session_failed_elsewhere"]++; return; }
  Session t = s;
  Bits* b = nullptr;
  for (int f : {1, 0}) if (!b && !Field(&t, f)->empty()) b = Field(&t, f);
  if (!b) { x.cnt["no_garbler_bit"]++; return; }
  (*b)[0] ^= 1;
  Obs q = Observe(t);
  const string &A = o.sent[0], &B = q.sent[0];
  size_t n = std::min(A.size(), B.size()), i = 0;
  while (i < n && A[i] == B[i]) i++;
  if (i + 16 > n) { x.cnt["label_not_located"]++; return; }
  size_t last = i;
  for (size_t k = i; k < n && k < i + 16; k++) if (A[k] != B[k]) last = k;
  // The label starts at most (15 - (last-i)) bytes before i; each start gives a candidate offset.
  std::unordered_set<W16, WHash> cand;
  for (size_t st = last >= 15 ? last - 15 : 0; st <= i; st++) if (st + 16 <= n) cand.insert(At(A, st) ^ At(B, st));
  std::unordered_set<W16, WHash> seen;
  for (int dir = 0; dir < 2; dir++) {
    const string& S = o.sent[dir];
    for (size_t k = 0; k + 16 <= S.size(); k++) seen.insert(At(S, k));
  }
  x.cnt["windows"] += seen.size();
  for (auto& R : cand) {
    if (!Rich(R)) continue;
    if (seen.count(R)) { x.violation(d, "the label offset itself is sent: " + WHex(R)); return; }
    for (auto& w : seen) if (seen.count(w ^ R)) { x.violation(d, "two sent values differ by the label offset: " + WHex(w) + " " + WHex(w ^ R)); return; }
  }
  x.state(d);
  x.transitions += s.cc;
  x.outcome(std::to_string(A.size()) + "/" + std::to_string(o.sent[1].size()));
  if (x.evals % 997 == 5) x.sample(d.substr(0, 240) + " -> offset absent from " + std::to_string(seen.size()) + " windows");
}
// Permute bits over many seeds.
struct BitPos { int field; size_t idx; };
void CheckColour(Ctx& x, const Session& s0, int nseeds) {
  string d = "col:" + s0.enc() + ";ns=" + std::to_string(nseeds);
  x.begin(d);
  vector<BitPos> ws;
  Session tmp = s0;
  for (int f = 0; f < 4; f++) {
    if (f >= 2 && !s0.no_ot) continue;
    for (size_t i = 0; i < Field(&tmp, f)->size(); i++) ws.push_back({f, i});
  }
  size_t nw = ws.size();
  // positions: bytes that change, in any seed, when the bit is toggled
  vector<vector<string>> tr(nseeds, vector<string>(nw + 1));
  for (int k = 0; k < nseeds; k++) {
    Session s = s0;
    s.seed = s0.seed + k;
    Obs o = Observe(s);
    if (!o.err.empty()) { x.cnt["session_failed_elsewhere"]++; return; }
    tr[k][nw] = o.sent[0];
    for (size_t w = 0; w < nw; w++) {
      Session t = s;
      (*Field(&t, ws[w].field))[ws[w].idx] ^= 1;
      tr[k][w] = Observe(t).sent[0];
      ProgressTick();
    }
  }
  vector<long> pos(nw, -1);
  for (size_t w = 0; w < nw; w++) {
    long lo = -1, hi = -1;
    for (int k = 0; k < nseeds; k++) {
      const string &a = tr[k][nw], &b = tr[k][w];
      if (a.size() != b.size()) continue;
      for (size_t i = 0; i < a.size(); i++) if (a[i] != b[i]) { if (lo < 0 || (long) i < lo) lo = i; break; }
    }
    for (int k = 0; k < nseeds && lo >= 0; k++) for (size_t i = lo; i < tr[k][nw].size() && i < (size_t) lo + 16 && tr[k][w].size() == tr[k][nw].size(); i++) if (tr[k][nw][i] != tr[k][w][i] && (long) i > hi) hi = i;
    if (lo >= 0 && hi == lo + 15) pos[w] = lo;
  }
  auto bitAt = [&](int k, size_t run, long p, int bit) { return ((unsigned char) tr[k][run][p + bit / 8] >> (bit % 8)) & 1; };
  int located = 0;
  for (size_t w = 0; w < nw; w++) if (pos[w] >= 0) located++;
  x.cnt["labels_located"] += located;
  if (!located) { x.cnt["label_not_located"]++; return; }
  for (int bit = 0; bit < 128; bit++)
    for (size_t w = 0; w < nw; w++) {
      if (pos[w] < 0) continue;
      for (int tw = 0; tw < 2; tw++) {
        int m = 0;
        for (int k = 0; k < nseeds; k++) m |= 1 << bitAt(k, tw ? w : nw, pos[w], bit);
        if (m != 3) { x.violation(d, "bit " + std::to_string(bit) + " of the label sent for private bit " + std::to_string(w) + " is constant"); return; }
      }
      for (size_t v = w + 1; v < nw; v++) {
        if (pos[v] < 0 || pos[v] == pos[w]) continue;
        int m = 0;
        for (int k = 0; k < nseeds; k++) m |= 1 << (bitAt(k, nw, pos[w], bit) * 2 + bitAt(k, nw, pos[v], bit));
        x.transitions++;
        if (m != 15) { x.violation(d, "bit " + std::to_string(bit) + " of the labels sent for private bits " + std::to_string(w) + " and " + std::to_string(v) + " are related"); return; }
      }
    }
  x.state(d);
  x.sample(d.substr(0, 200) + " -> " + std::to_string(located) + " labels, every pair independent over " + std::to_string(nseeds) + " seeds");
}
Circuit RegGrid(int nq, bool hold, int nshare) {
  // nq registers with private initial values, held or rotated; identical and mixed gates on them
  Circuit c;
  c.gi = nq - nq / 2; c.ei = nq / 2; c.gin = 1; c.ein = 1;
  c.D.assign(nq, 0); c.I.assign(nq, 0);
  for (int i = 0; i < nq; i++) { c.I[i] = i; c.D[i] = hold ? c.Q(i) : c.Q((i + 1) % nq); }
  for (int k = 0; k < nshare; k++)
    for (int i = 0; i < nq; i++) for (int j = 0; j < nq; j++) if (i != j) c.g.push_back({c.Q(i), c.Q(j), kTypes[(i + j * nq + k) % 8]});
  c.g.push_back({c.G(0), c.E(0), 8});
  c.g.push_back({c.Q(0), c.E(0), 14});
  for (size_t i = 0; i < c.g.size(); i++) c.out.push_back(c.W((int) i));
  return c;
}
// Sessions with the structure that could make material repeat.
void ReuseSessions(bool thorough, const std::function<void(const Session&)>& f) {
  for (int nq : {2, 3, 4}) for (int hold = 0; hold < 2; hold++) for (int sh : {1, 2, 4}) for (int cc : {1, 2, 3, 5, 9}) for (int low = 0; low < 2; low++) for (int iv = 0; iv < 4; iv++) {
    if (!thorough && iv && (iv != nq - 1)) continue;
    Session s;
    s.c = RegGrid(nq, hold, sh);
    s.cc = cc; s.lowmem = low;
    s.in = MakeInputs(s.c, cc, 0);
    s.in.g_init = Pattern(s.c.gi, iv == 0 ? 0 : iv == 1 ? 1 : 4); s.in.e_init = Pattern(s.c.ei, iv == 3 ? 1 : 0);
    s.in.g_in = Pattern(cc, iv == 1 ? 1 : iv == 2 ? 4 : 0); s.in.e_in = Pattern(cc, iv == 3 ? 1 : iv == 2 ? 5 : 0);
    s.seed = 11 + nq + cc * 5 + iv;
    f(s);
  }
  // every ordered pair of input wires through the same gate type
  for (int t : {8, 4, 7, 11, 14, 13, 1, 2}) for (int low = 0; low < 2; low++) for (int cc : {1, 2, 4}) {
    Session s;
    s.c.gin = 3; s.c.ein = 3;
    for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) if (i != j) s.c.g.push_back({s.c.P(0) + i, s.c.P(0) + j, t});
    for (size_t i = 0; i < s.c.g.size(); i++) s.c.out.push_back(s.c.W((int) i));
    s.cc = cc; s.lowmem = low;
    s.in = MakeInputs(s.c, cc, 0x5A5A39C6ull * t);
    s.seed = 100 + t;
    f(s);
  }
  // long chains: identifiers beyond 8 and 16 bits
  for (int n : {300, thorough ? 70000 : 1000}) for (int low = 0; low < 2; low++) {
    Session s;
    s.c = ChainCircuit(n, 1);
    s.cc = 2; s.lowmem = low;
    s.in.p_in = Pattern(4, 0); s.in.g_in = Pattern(6, 1); s.in.e_in = Pattern(6, 1);
    f(s);
  }
  // many gates on the same labels: the 256- and 512-gate boundaries of any narrowed identifier
  for (int n : {700}) for (int low = 0; low < 2; low++) {
    Session s;
    s.c.gin = 1; s.c.ein = 1;
    for (int i = 0; i < n; i++) { s.c.g.push_back({s.c.G(0), s.c.E(0), 8}); s.c.out.push_back(s.c.W(i)); }
    s.cc = 2; s.lowmem = low;
    s.in.g_in = {1, 0}; s.in.e_in = {1, 1};
    f(s);
  }
  // many cycles: the same beyond 256 cycles
  for (int low = 0; low < 2; low++) {
    Session s;
    s.c.gi = 1; s.c.ei = 1;
    s.c.D = {0, 0}; s.c.I = {0, 1};
    s.c.D = {s.c.Q(0), s.c.Q(1)};
    s.c.g = {{s.c.Q(0), s.c.Q(1), 8}, {s.c.Q(1), s.c.Q(0), 8}, {s.c.Q(0), s.c.Q(1), 8}};
    s.c.out = {s.c.W(0), s.c.W(1), s.c.W(2)};
    s.cc = 600; s.lowmem = low;
    s.in.g_init = {1}; s.in.e_init = {1};
    f(s);
  }
}
void C10(Ctx& x) {
  auto comb = [&](const Circuit& c) {
    if (!x.mine()) return;
    if (c.gin == 0) return;
    Session s;
    s.c = c;
    s.in = AllAssignments(c, &s.cc);
    s.seed = x.gidx;
    s.mask = x.gidx / x.nshards % 2 ? BitsHex(Bits(c.out.size(), 1)) : "0";
    s.lowmem = x.gidx / x.nshards / 2 % 2;
    CheckOffset(x, s);
  };
  FamOne(comb);
  FamTwo(!x.thorough(), comb);
  FamSeq(x.thorough() ? 1 : 0, [&](const Circuit& c) {
    if (!x.mine()) return;
    Session s = Hist(c, 4, x.gidx);
    s.lowmem = x.gidx / x.nshards % 2;
    s.mask = x.gidx / x.nshards / 2 % 2 ? "2" : "1";
    CheckOffset(x, s);
  });
  for (auto s : SessionPool()) for (int k = 0; k < 4; k++) {
    if (!x.mine()) continue;
    s.seed += 8 * k;
    CheckOffset(x, s);
  }
  for (int kind = 0;; kind++) {
    Circuit c;
    if (!TermCircuit(kind, &c)) break;
    for (int per = 1; per <= 2; per++) for (int low = 0; low < 2; low++) for (int salt = 0; salt < 4; salt++) {
      if (!x.mine()) continue;
      Session s = Hist(c, 3, salt + 1);
      s.period = per; s.lowmem = low;
      CheckOffset(x, s);
    }
  }
  for (int w : {1, 8, 64, 127, 128, 129, 200}) for (int ot = 0; ot < 2; ot++) for (int low = 0; low < 2; low++) {
    if (!x.mine()) continue;
    Session s = Hist(WideCircuit(w, false), 2, w);
    s.no_ot = !ot; s.lowmem = low;
    CheckOffset(x, s);
  }
  ReuseSessions(x.thorough(), [&](const Session& s) { if (x.mine()) CheckOffset(x, s); });
  for (int low = 0; low < 2; low++) for (int ot = 0; ot < 2; ot++) {
    for (int n : {86, 260, 1100}) if ((n < 1000 || !ot) && x.mine()) { Session s = BigSession(n, 3, 90); s.lowmem = low; s.no_ot = !ot; CheckOffset(x, s); }
    for (int cc : {300, 3000}) if (!ot && x.mine()) { Session s = LongSession(cc, low); s.lowmem = low; CheckOffset(x, s); }
  }
  // permute bits
  {
    for (int low = 0; low < 2; low++) for (int ot = 0; ot < 2; ot++) for (int iv = 0; iv < 4; iv++) {
      if (!x.mine()) continue;
      Circuit c;
      c.gi = 2; c.ei = 1; c.gin = 2; c.ein = 2; c.pin = 1;
      c.D = {0, 0, 0}; c.I = {0, 1, 2};
      c.g = {{c.Q(0), c.G(0), 8}, {c.Q(1), c.E(0), 6}, {c.G(1), c.E(1), 14}, {c.Q(2), c.P(0), 8}};
      c.D = {c.W(0), c.W(1), c.W(2)};
      c.out = {c.W(0), c.W(1), c.W(2), c.W(3)};
      Session s = Hist(c, 3, 1 + iv);
      s.in.p_in = Pattern(3, 1);
      if (iv == 0) { s.in.g_in = Pattern(6, 0); s.in.g_init = Pattern(2, 0); s.in.e_in = Pattern(6, 0); }
      if (iv == 1) { s.in.g_in = Pattern(6, 1); s.in.g_init = Pattern(2, 1); s.in.e_in = Pattern(6, 1); }
      s.lowmem = low; s.no_ot = !ot;
      CheckColour(x, s, x.thorough() ? 256 : 128);
    }
    for (int w : {9, 33}) for (int low = 0; low < 2; low++) {
      if (!x.mine()) continue;
      Session s = Hist(WideCircuit(w, false), 1, 5);
      s.lowmem = low;
      CheckColour(x, s, 128);
    }
  }
}
void C10R(Ctx& x, const string& c) {
  Session s;
  if (!Session::dec(c.substr(4), &s)) { fprintf(stderr, "bad case\n"); exit(2); }
  if (c.compare(0, 4, "off:") == 0) CheckOffset(x, s);
  else CheckColour(x, s, (int) KV(c.substr(4)).geti("ns", 128));
}
PropReg r10("C10", C10, C10R);

// ------------------------------------------------------------------ C11
string Shape(const Obs& o) {
  string s;
  for (auto& r : o.runs) s += (s.empty() ? "" : " ") + string(r.first ? "<" : ">") + std::to_string(r.second.size());
  return s;
}
// Compares the shapes of two runs that differ in private inputs (or seed).
string ShapeDiff(const Obs& a, const Obs& b, bool ot) {
  if (a.runs.size() != b.runs.size()) return "number of messages " + std::to_string(a.runs.size()) + " against " + std::to_string(b.runs.size()) + " (" + Shape(a).substr(0, 200) + " against " + Shape(b).substr(0, 200) + ")";
  for (size_t i = 0; i < a.runs.size(); i++) {
    if (a.runs[i].first != b.runs[i].first) return "direction of message " + std::to_string(i);
    long p = a.runs[i].second.size(), q = b.runs[i].second.size(), tol = ot ? std::max(6L, p / 64) : 0;
    if (labs(p - q) > tol) return "size of message " + std::to_string(i) + ": " + std::to_string(p) + " against " + std::to_string(q);
  }
  return "";
}
// Every assignment of the private inputs that count in this mode, same public inputs.
void CheckShape(Ctx& x, const Session& s0, int maxbits) {
  string d = "shape:" + s0.enc() + ";mb=" + std::to_string(maxbits);
  x.begin(d);
  Session s = s0;
  vector<std::pair<int, size_t>> bits;
  for (int f = 0; f < 4; f++) {
    if (f >= 2 && s.no_ot) continue;
    for (size_t i = 0; i < Field(&s, f)->size(); i++) bits.push_back({f, i});
  }
  Obs ref = Observe(s);
  if (!ref.err.empty()) { x.cnt["session_failed_elsewhere"]++; return; }
  string ref_shape = Shape(ref);
  x.outcome(ref_shape);
  size_t n = bits.size();
  auto run = [&](const Session& t, const string& what) {
    Obs o = Observe(t);
    x.transitions++;
    if (!o.err.empty()) { x.cnt["session_failed_elsewhere"]++; return true; }
    string e = ShapeDiff(ref, o, !s.no_ot);
    if (!e.empty()) { x.violation(d, "traffic depends on private inputs (" + what + "): " + e); return false; }
    return true;
  };
  if ((int) n <= maxbits) {
    for (uint64_t v = 1; v < (1ull << n); v++) {
      Session t = s;
      for (size_t i = 0; i < n; i++) if (v >> i & 1) (*Field(&t, bits[i].first))[bits[i].second] ^= 1;
      if (!run(t, "bits toggled " + std::to_string(v))) return;
    }
  } else {
    for (size_t i = 0; i <= n; i++) {
      Session t = s;
      for (size_t j = 0; j < n; j++) if (i == n || j == i) (*Field(&t, bits[j].first))[bits[j].second] ^= 1;
      if (!run(t, "bit " + std::to_string(i))) return;
    }
    for (int k = 0; k < 6; k++) {
      Session t = s;
      for (size_t j = 0; j < n; j++) (*Field(&t, bits[j].first))[bits[j].second] = Pattern(n, k == 2 ? 7 : k)[j];
      if (!run(t, "pattern " + std::to_string(k))) return;
    }
  }
  for (int k = 1; k <= 2; k++) {
    Session t = s;
    t.seed = s.seed + 8 * k;  // same big-number randomness, other labels
    if (!run(t, "other random labels")) return;
  }
  x.state(d);
  if (x.evals % 499 == 3) x.sample(d.substr(0, 240) + " -> " + ref_shape.substr(0, 120));
}
// A few assignments that differ everywhere.
void ShapeFew(Ctx& x, const string& d, const Session& s) {
  x.begin(d);
  Obs ref = Observe(s);
  for (int k = 0; k < 4; k++) {
    Session t = s;
    t.in.g_in = Pattern(t.in.g_in.size(), 3 - k);
    if (!s.no_ot) { t.in.e_in = Pattern(t.in.e_in.size(), k); t.in.e_init = Pattern(t.in.e_init.size(), k % 2 ? 4 : 1 - k / 2); }
    t.in.g_init = Pattern(t.in.g_init.size(), k % 2 ? k / 2 : 5);
    Obs o = Observe(t);
    x.transitions++;
    if (!ref.err.empty() || !o.err.empty()) { x.cnt["session_failed_elsewhere"]++; continue; }
    string e = ShapeDiff(ref, o, !s.no_ot);
    if (!e.empty()) { x.violation(d, "traffic depends on private inputs: " + e); break; }
  }
  x.state(d);
}
void C11(Ctx& x) {
  auto comb = [&](const Circuit& c, bool ot_too) {
    if (!x.mine()) return;
    for (int pv = 0; pv < 1 << c.pin; pv++) {
      Session s;
      s.c = c; s.cc = 1;
      s.in = MakeInputs(c, 1, pv);
      s.seed = x.gidx;
      s.mask = x.gidx / x.nshards % 2 ? BitsHex(Bits(c.out.size(), 1)) : "0";
      for (int e = 0; e < 2; e++) { s.in.e_in = Pattern(c.ein, e); CheckShape(x, s, 8); }
      if (ot_too && (pv == 0 || x.thorough())) { s.no_ot = false; CheckShape(x, s, 8); }
    }
  };
  FamOne([&](const Circuit& c) { comb(c, true); });
  FamTwo(!x.thorough(), [&](const Circuit& c) { comb(c, false); });
  FamSeq(x.thorough() ? 1 : 0, [&](const Circuit& c) {
    if (!x.mine()) return;
    Session s = Hist(c, 3, x.gidx);
    s.lowmem = x.gidx / x.nshards % 2;
    s.mask = x.gidx / x.nshards / 2 % 2 ? "2" : "1";
    CheckShape(x, s, 4);
  });
  for (int k1 = 0; k1 < kKinds; k1++) for (int k2 = 0; k2 < kKinds; k2++) for (int m = 0; m < 4; m++) {
    if (!x.mine()) continue;
    Session s = KindSession(KindCircuit({k1, k2}), (int) x.gidx);
    s.in.g_in.resize(3); s.in.e_in.resize(3); s.in.p_in.resize(3); s.cc = 3;
    s.in.p_in = Pattern(3, m < 2 ? 4 : 1);
    s.mask = std::to_string(m);
    s.seed = x.gidx;
    for (int mode = 0; mode < 3; mode++) { s.mode = mode; s.lowmem = !s.lowmem; CheckShape(x, s, 5); }
    s.no_ot = false;
    if (m == 1) CheckShape(x, s, 5);
  }
  for (int kind : {0, 1, 9, 10, 11, 13}) for (int per = 0; per <= 2; per++) for (int low = 0; low < 2; low++) for (int ot = 0; ot < 2; ot++) for (int salt = 1; salt <= 3; salt++) {
    Circuit c;
    if (!x.mine() || !TermCircuit(kind, &c)) continue;
    Session s = Hist(c, 3, salt);
    s.period = per; s.lowmem = low; s.no_ot = !ot;
    CheckShape(x, s, 7);
  }
  for (int w : {2, 8, 33, 64, 128, 129, 150}) for (int ot = 0; ot < 2; ot++) for (int low = 0; low < 2; low++) {
    if (ot && w > 33 && !x.thorough() && w != 128 && w != 129) continue;
    if (!x.mine()) continue;
    Session s = Hist(WideCircuit(w, true), 2, w);
    s.no_ot = !ot; s.lowmem = low;
    if (ot && w > 33) {  // few assignments: each costs many exponentiations
      ShapeFew(x, "shape1:" + s.enc(), s);
      continue;
    }
    CheckShape(x, s, 4);
  }
  for (int low = 0; low < 2; low++) {
    for (int n : {86, 260, 1100, 14000}) for (int mode = 0; mode < 3; mode++) if ((n < 2000 || mode == low) && x.mine()) { Session s = BigSession(n, 3, 60 + mode); s.lowmem = low; s.mode = mode; ShapeFew(x, "shape1:" + s.enc(), s); }
    for (int cc : {300, 3000}) for (int mode = 0; mode < 3; mode++) if (x.mine()) { Session s = LongSession(cc, mode); s.lowmem = low; s.mode = mode; ShapeFew(x, "shape1:" + s.enc(), s); }
  }
}
void C11R(Ctx& x, const string& c) {
  Session s;
  size_t o = c.find(':') + 1;
  if (!Session::dec(c.substr(o), &s)) { fprintf(stderr, "bad case\n"); exit(2); }
  if (c.compare(0, 7, "shape1:") == 0) { ShapeFew(x, c, s); return; }
  CheckShape(x, s, (int) KV(c.substr(o)).geti("mb", 4));
}
PropReg r11("C11", C11, C11R);

// ------------------------------------------------------------------ C12
// Model of which gates must be garbled: a wire is a public constant or an affine
// combination of fresh private roots.
struct Form { bool pub; uint8_t val; std::set<int64_t> roots; };
long ModelTables(const Session& s, long* dead, long* total) {
  const Circuit& c = s.c;
  RefTrace t = RefRun(c, s.in, s.cc, s.period);
  vector<Form> w(c.wires());
  int64_t fresh = 1;
  long T = 0;
  *dead = 0; *total = 0;
  auto cst = [](int v) { Form f; f.pub = true; f.val = v; return f; };
  auto root = [&]() { Form f; f.pub = false; f.val = 0; f.roots = {fresh++}; return f; };
  auto val = [&](int64_t i) { return i == kC0 ? cst(0) : i == kC1 ? cst(1) : w[i]; };
  vector<Form> init;
  for (int i = 0; i < c.pi; i++) init.push_back(cst(s.in.p_init[i]));
  for (int i = 0; i < c.gi + c.ei; i++) init.push_back(root());
  for (int cid = 0; cid < t.cycles; cid++) {
    vector<Form> q(c.dff());
    for (int i = 0; i < c.dff(); i++) q[i] = cid ? val(c.D[i]) : c.I[i] == kC0 ? cst(0) : c.I[i] == kC1 ? cst(1) : init[c.I[i]];
    for (int i = 0; i < c.dff(); i++) w[c.Q(i)] = q[i];
    for (int i = 0; i < c.pin; i++) w[c.P(i)] = cst(s.in.p_in[(size_t) cid * c.pin + i]);
    for (int i = 0; i < c.gin; i++) w[c.G(i)] = root();
    for (int i = 0; i < c.ein; i++) w[c.E(i)] = root();
    vector<int> cost(c.g.size(), 0);
    vector<vector<int64_t>> dep(c.g.size());
    for (size_t i = 0; i < c.g.size(); i++) {
      const RGate& g = c.g[i];
      Form a = val(g.a), b = g.type == 12 ? cst(0) : val(g.b), o;
      auto lin = [&](const Form& f, int neg) { Form r = f; r.val ^= neg; return r; };
      if (g.type == 12) { o = lin(a, 1); dep[i] = {g.a}; }
      else if (g.type == 6 || g.type == 9) {
        o.pub = false; o.val = a.val ^ b.val ^ (g.type == 9);
        o.roots = a.roots;
        for (auto r : b.roots) { if (!o.roots.erase(r)) o.roots.insert(r); }
        if (o.roots.empty()) o.pub = true;
        dep[i] = {g.a, g.b};
      } else {
        // as a function of (a,b): fix public arguments
        auto f = [&](int u, int v) { return RefOp(g.type, u, v) ? 1 : 0; };
        if (a.pub && b.pub) o = cst(f(a.val, b.val));
        else if (a.pub || b.pub) {
          int f0 = a.pub ? f(a.val, 0) : f(0, b.val), f1 = a.pub ? f(a.val, 1) : f(1, b.val);
          if (f0 == f1) o = cst(f0);
          else { o = lin(a.pub ? b : a, f0); dep[i] = {a.pub ? g.b : g.a}; }
        } else if (a.roots == b.roots) {  // equal or complementary wires
          int z = a.val ^ b.val, f0 = f(0, z), f1 = f(1, 1 ^ z);
          if (f0 == f1) o = cst(f0);
          else { o = lin(a, f0); dep[i] = {g.a}; }
        } else { o = root(); cost[i] = 1; dep[i] = {g.a, g.b}; }
      }
      if (o.pub) dep[i].clear();
      w[c.W((int) i)] = o;
    }
    // what can still reach an output, a register or the terminate signal
    vector<char> live(c.wires(), 0);
    auto mark = [&](int64_t v) { if (v >= 0) live[v] = 1; };
    for (auto v : c.out) mark(v);
    for (auto v : c.D) mark(v);
    if (c.term > 0) mark(c.term);
    for (size_t i = c.g.size(); i-- > 0;) {
      *total += cost[i];
      if (!live[c.W((int) i)]) { *dead += cost[i]; continue; }
      T += cost[i];
      for (auto v : dep[i]) mark(v);
    }
  }
  return T;
}
// Same interface, but every gate is a free gate of private inputs.
Session FreeVersion(const Session& s) {
  Session f = s;
  int cycles = RefRun(s.c, s.in, s.cc, s.period).cycles;
  Circuit& c = f.c;
  if (c.term && s.period) {  // the same number of cycles, ended by an additional public input
    c.pin++;
    f.in.p_in = Bits((size_t) s.cc * c.pin, 0);
    if (cycles < s.cc || (cycles - 1) % s.period == 0) f.in.p_in[(size_t) cycles * c.pin - 1] = cycles < s.cc;
    c.term = c.P(c.pin - 1);
  }
  int64_t free_wire = c.gin ? c.G(0) : c.ein ? c.E(0) : c.Q(0);
  for (auto& g : c.g) g = {free_wire, kC0, 6};
  for (auto& o : c.out) o = free_wire;
  for (int i = 0; i < c.dff(); i++) c.D[i] = c.Q(i);
  return f;
}
long Bytes(const Obs& o) { return (long) (o.sent[0].size() + o.sent[1].size()); }
void CheckFree(Ctx& x, const Session& s) {
  string d = "free:" + s.enc();
  x.begin(d);
  if (s.c.gin == 0 && s.c.ein == 0) { x.cnt["no_private_input"]++; return; }
  Obs o = Observe(s);
  if (!o.err.empty()) { x.cnt["session_failed_elsewhere"]++; return; }
  Session fs = FreeVersion(s);
  Obs b = Observe(fs);
  if (!b.err.empty()) { x.cnt["reference_failed_elsewhere"]++; return; }
  long dead, total, T = ModelTables(s, &dead, &total);
  // a terminate signal costs its own exchange, at most 8 bytes per tested cycle
  long slack = (s.period && s.c.term ? 8L * fs.cc : 0) + (s.no_ot ? 0 : 24 + Bytes(b) / 64);
  long got = Bytes(o) - Bytes(b);
  x.state(d);
  x.transitions += fs.cc;
  x.cnt["tables_model"] += T; x.cnt["dead_gates"] += dead;
  if (got == 48 * T) x.cnt["exact"]++;
  else if (got < 48 * T) x.cnt["below"]++;
  else x.cnt["within_slack"]++;
  if (getenv("VERIF_DBG") && got < 48*T && s.no_ot && (got % 48 != 0 || got < 48*T - 47) ) fprintf(stderr, "below %ld T %ld %s\n", got, T, d.c_str());
  x.outcome(std::to_string(T) + ":" + std::to_string(got));
  if (got > 48 * T + slack) {
    x.violation(d, "traffic of " + std::to_string(got) + " bytes above that of the free-gate circuit; " + std::to_string(T) + " gates need a table (" + std::to_string(48 * T + slack) + " bytes allowed)");
    return;
  }
  if (x.evals % 997 == 5) x.sample(d.substr(0, 240) + " -> " + std::to_string(T) + " tables, " + std::to_string(got) + " bytes");
}
void C12(Ctx& x) {
  auto comb = [&](const Circuit& c) {
    if (!x.mine()) return;
    for (int pv = 0; pv < 1 << c.pin; pv++) {
      Session s;
      s.c = c; s.cc = 1;
      s.in = MakeInputs(c, 1, pv);
      s.seed = x.gidx;
      s.mask = (x.gidx / x.nshards + pv) % 2 ? BitsHex(Bits(c.out.size(), 1)) : "0";
      s.in.g_in = Pattern(c.gin, pv % 3 ? 1 : 0); s.in.e_in = Pattern(c.ein, pv % 2 ? 1 : 4);
      CheckFree(x, s);
    }
  };
  FamOne(comb);
  FamTwo(!x.thorough(), comb);
  FamThree(x.thorough() ? 1 : 0, comb);
  FamDangling(comb);
  FamSeq(1, [&](const Circuit& c) {
    if (!x.mine()) return;
    Session s = Hist(c, 3, x.gidx);
    s.lowmem = x.gidx / x.nshards % 2;
    s.mask = x.gidx / x.nshards / 2 % 2 ? "2" : "1";
    CheckFree(x, s);
  });
  for (int v = 0; v < 4; v++) for (int low = 0; low < 2; low++) {
    if (!x.mine()) continue;
    Session s = Hist(PackedGrid(2, 3, 3, true), 3, v + 3);
    s.lowmem = low;
    CheckFree(x, s);
    s.c.out = {s.c.W(0), s.c.W(5), s.c.W((int) s.c.g.size() - 1)};
    CheckFree(x, s);
  }
  for (int n : {40, 300}) for (int ph = 0; ph < 8; ph++) for (int low = 0; low < 2; low++) {
    if (!x.mine()) continue;
    Session s = Hist(ChainCircuit(n, ph), 3, ph);
    s.lowmem = low;
    CheckFree(x, s);
    s.c.out.resize(1 + ph % 4);
    CheckFree(x, s);
  }
  for (int w : {1, 8, 33}) for (int ot = 0; ot < 2; ot++) for (int low = 0; low < 2; low++) for (int salt = 0; salt < 4; salt++) {
    if (!x.mine()) continue;
    Session s = Hist(WideCircuit(w, true), 2, w + salt);
    s.no_ot = !ot; s.lowmem = low;
    CheckFree(x, s);
  }
  for (int kind = 0;; kind++) {
    Circuit c;
    if (!TermCircuit(kind, &c)) break;
    for (int per = 0; per <= 2; per++) for (int low = 0; low < 2; low++) for (int salt = 0; salt < 6; salt++) {
      if (!x.mine()) continue;
      Session s = Hist(c, 3, salt + 1);
      s.period = per; s.lowmem = low;
      CheckFree(x, s);
    }
  }
  for (int n : {2, 127, 128, 129, 255, 256, 257, 32768, 65535, 65536, 65537}) for (int v = 0; v < 8; v++) for (int low = 0; low < 2; low++) if (x.mine()) { Session s = FanSession(n, v); s.lowmem = low; if (n > 1000) { s.cc = 2; for (auto* b : {&s.in.p_in, &s.in.g_in, &s.in.e_in}) b->resize(4); } CheckFree(x, s); }
  for (int low = 0; low < 2; low++) for (int salt = 0; salt < 2; salt++) {
    for (int n : {86, 260, 1100, 14000}) if ((n < 2000 || salt == low) && x.mine()) { Session s = BigSession(n, 3, 60 + salt); s.lowmem = low; CheckFree(x, s); }
    for (int cc : {300, 3000}) if (x.mine()) { Session s = LongSession(cc, salt); s.lowmem = low; CheckFree(x, s); }
  }
}
void C12R(Ctx& x, const string& c) {
  Session s;
  if (!Session::dec(c.substr(5), &s)) { fprintf(stderr, "bad case\n"); exit(2); }
  CheckFree(x, s);
}
PropReg r12("C12", C12, C12R);

// ------------------------------------------------------------------ C27
void CheckMem(Ctx& x, const Session& s0) {
  string d = "mem:" + s0.enc();
  x.begin(d);
  static const int fills[5] = {0x00, 0xFF, 0xAA, 0x01, 0x5B};
  string ref[2], res;
  for (int k = 0; k < 5; k++) {
    Session s = s0;
    s.fill = fills[k];
    mallopt(M_PERTURB, fills[k] ^ 0xff ? fills[k] ^ 0xff : 1);
    Obs o = Observe(s);
    mallopt(M_PERTURB, 0);
    x.transitions++;
    if (!o.err.empty()) { x.violation(d, "with memory filled with " + std::to_string(fills[k]) + ": " + o.err); return; }
    string r = o.r.oa + "|" + o.r.ob;
    if (k == 0) { ref[0] = o.sent[0]; ref[1] = o.sent[1]; res = r; }
    else {
      if (r != res) { x.violation(d, "results depend on uninitialised memory: " + res + " and " + r); return; }
      for (int q = 0; q < 2; q++) if (o.sent[q] != ref[q]) {
        size_t i = 0;
        while (i < o.sent[q].size() && i < ref[q].size() && o.sent[q][i] == ref[q][i]) i++;
        x.violation(d, "bytes sent depend on uninitialised memory (direction " + std::to_string(q) + ", byte " + std::to_string(i) + " of " + std::to_string(ref[q].size()) + ")");
        return;
      }
    }
  }
  for (int k = 1; k <= 4; k++) {
    Session s = s0;
    s.seed = s0.seed + k * 1000003 * (s.no_ot ? 1 : 8);
    Obs o = Observe(s);
    x.transitions++;
    if (!o.err.empty()) { x.violation(d, "with another seed: " + o.err); return; }
    if (o.r.oa + "|" + o.r.ob != res) { x.violation(d, "results depend on the random seed"); return; }
  }
  x.state(d);
  x.outcome(res);
  if (x.evals % 499 == 3) x.sample(d.substr(0, 240) + " -> same bytes for 5 memory contents, same result for 5 seeds");
}
void C27(Ctx& x) {
  auto comb = [&](const Circuit& c) {
    if (!x.mine()) return;
    Session s;
    s.c = c;
    s.in = AllAssignments(c, &s.cc);
    s.seed = x.gidx;
    s.mask = x.gidx / x.nshards % 2 ? BitsHex(Bits(c.out.size(), 1)) : "0";
    s.lowmem = x.gidx / x.nshards / 2 % 2;
    CheckMem(x, s);
  };
  FamOne(comb);
  FamTwo(!x.thorough(), comb);
  FamSeq(x.thorough() ? 1 : 0, [&](const Circuit& c) {
    if (!x.mine()) return;
    Session s = Hist(c, 4, x.gidx);
    s.lowmem = x.gidx / x.nshards % 2;
    s.mask = x.gidx / x.nshards / 2 % 2 ? "2" : "1";
    CheckMem(x, s);
  });
  for (auto s : SessionPool()) for (int k = 0; k < (x.thorough() ? 8 : 3); k++) {
    if (!x.mine()) continue;
    s.seed += k;
    CheckMem(x, s);
  }
  for (int k1 = 0; k1 < kKinds; k1++) for (int k2 = 0; k2 < kKinds; k2++) for (int m = 0; m < 4; m++) {
    if (!x.mine()) continue;
    Session s = KindSession(KindCircuit({k1, k2}), (int) x.gidx);
    s.mask = std::to_string(m); s.seed = x.gidx; s.lowmem = x.gidx / x.nshards & 1; s.mode = (int) (x.gidx / x.nshards % 3);
    CheckMem(x, s);
  }
  for (int kind = 0;; kind++) {
    Circuit c;
    if (!TermCircuit(kind, &c)) break;
    for (int per = 0; per <= 2; per++) for (int low = 0; low < 2; low++) for (int ot = 0; ot < 2; ot++) for (int salt = 0; salt < 4; salt++) {
      if (!x.mine()) continue;
      Session s = Hist(c, 3, salt + 1);
      s.period = per; s.lowmem = low; s.no_ot = !ot;
      CheckMem(x, s);
    }
  }
  for (int w : {1, 7, 8, 9, 33, 128, 129, 200}) for (int ot = 0; ot < 2; ot++) for (int low = 0; low < 2; low++) {
    if (!x.mine()) continue;
    Session s = Hist(WideCircuit(w, true), 2, w);
    s.no_ot = !ot; s.lowmem = low;
    CheckMem(x, s);
  }
  for (int low = 0; low < 2; low++) {
    for (int n : {86, 260, 1100}) for (int ot = 0; ot < 2; ot++) if ((n < 1000 || !ot) && x.mine()) { Session s = BigSession(n, 3, 80); s.lowmem = low; s.no_ot = !ot; CheckMem(x, s); }
    for (int cc : {300, 3000}) for (int mode = 0; mode < 3; mode++) if (x.mine()) { Session s = LongSession(cc, mode); s.lowmem = low; s.mode = mode; CheckMem(x, s); }
  }
}
void C27R(Ctx& x, const string& c) {
  Session s;
  if (!Session::dec(c.substr(4), &s)) { fprintf(stderr, "bad case\n"); exit(2); }
  CheckMem(x, s);
}
PropReg r27("C27", C27, C27R);

// ------------------------------------------------------------------ C29
void CheckReuse(Ctx& x, const Session& s, bool deep) {
  string d = "reuse:" + s.enc() + ";deep=" + (deep ? "1" : "0");
  x.begin(d);
  Obs o = Observe(s);
  if (!o.err.empty()) { x.cnt["session_failed_elsewhere"]++; return; }
  // With oblivious transfer the public key may be sent again; its windows are excused.
  const string& S = o.sent[0];
  vector<char> excuse(S.size() + 16, 0);
  if (!s.no_ot) {
    for (int k = 0; k < 2; k++) {
      BIGNUM *n = BN_new(), *dd = BN_new();
      RsaPool(k, n, dd, 65537);
      string v(BN_num_bytes(n), 0);
      BN_bn2bin(n, (unsigned char*) &v[0]);
      BN_free(n); BN_free(dd);
      for (size_t at = S.find(v); at != string::npos; at = S.find(v, at + 1))
        for (size_t i = at >= 15 ? at - 15 : 0; i < at + v.size(); i++) excuse[i] = 1;
    }
  }
  std::unordered_map<W16, size_t, WHash> seen;
  for (size_t k = 0; k + 16 <= S.size(); k++) {
    W16 w = At(S, k);
    if (excuse[k] || !Rich(w)) continue;
    // an honest window may extend a random block by the public bytes around it, so repeats
    // are only counted with 11 distinct bytes, which public bytes cannot supply
    auto r = seen.insert({w, k});
    if (!r.second) {
      x.violation(d, "the garbler sends the same 16 bytes twice (at " + std::to_string(r.first->second) + " and " + std::to_string(k) + "): " + WHex(w));
      return;
    }
  }
  x.cnt["windows"] += seen.size();
  if (deep && s.no_ot && S.size() < 4000) {
    // no three sent values may cancel (up to the offset): a hash used twice would show here
    W16 R, zero = {0, 0};
    size_t pos;
    Obs base = o;
    if (DeriveR(s, base, &R, &pos)) {
      vector<W16> v;
      for (auto& kv : seen) v.push_back(kv.first);
      for (size_t i = 0; i < v.size(); i++) {
        ProgressTick();
        for (size_t j = 0; j < i; j++) {
          W16 z = v[i] ^ v[j];
          if (seen.count(z) || seen.count(z ^ R)) {
            x.violation(d, "sent values cancel: " + WHex(v[i]) + " ^ " + WHex(v[j]) + " is another sent value");
            return;
          }
        }
      }
      x.cnt["pairs"] += v.size() * v.size() / 2;
      (void) zero;
    }
  }
  x.state(d);
  x.transitions += s.cc;
  x.outcome(std::to_string(S.size()));
  if (x.evals % 97 == 5) x.sample(d.substr(0, 200) + " -> " + std::to_string(seen.size()) + " distinct windows");
}
void CheckSeeds(Ctx& x, const Session& s0, int ns) {
  string d = "seeds:" + s0.enc() + ";ns=" + std::to_string(ns);
  x.begin(d);
  std::unordered_map<W16, int, WHash> seen;
  for (int k = 0; k < ns; k++) {
    Session s = s0;
    s.seed = s0.seed + k;
    Obs o = Observe(s);
    if (!o.err.empty()) { x.cnt["session_failed_elsewhere"]++; return; }
    const string& S = o.sent[0];
    x.transitions++;
    for (size_t i = 0; i + 16 <= S.size(); i++) {
      W16 w = At(S, i);
      if (!Rich(w)) continue;
      auto r = seen.insert({w, k});
      if (!r.second && r.first->second != k) { x.violation(d, "sessions with different seeds share 16 bytes: " + WHex(w)); return; }
    }
  }
  x.state(d);
}
void C29(Ctx& x) {
  ReuseSessions(x.thorough(), [&](const Session& s) { if (x.mine()) CheckReuse(x, s, true); });
  auto comb = [&](const Circuit& c) {
    if (!x.mine()) return;
    Session s;
    s.c = c;
    s.in = AllAssignments(c, &s.cc);
    // the same private inputs in several cycles
    s.in.g_in = Pattern(s.in.g_in.size(), x.gidx / x.nshards % 2);
    s.in.e_in = Pattern(s.in.e_in.size(), x.gidx / x.nshards / 2 % 2);
    s.seed = x.gidx;
    s.lowmem = x.gidx / x.nshards / 4 % 2;
    CheckReuse(x, s, false);
  };
  FamOne(comb);
  FamTwo(!x.thorough(), comb);
  FamSeq(x.thorough() ? 1 : 0, [&](const Circuit& c) {
    if (!x.mine()) return;
    Session s = Hist(c, 5, x.gidx);
    s.in.g_in = Pattern(s.in.g_in.size(), x.gidx / x.nshards % 2);
    s.in.e_in = Pattern(s.in.e_in.size(), x.gidx / x.nshards / 2 % 2);
    s.lowmem = x.gidx / x.nshards % 2;
    CheckReuse(x, s, true);
  });
  for (auto s : SessionPool()) {
    if (!x.mine()) continue;
    CheckReuse(x, s, true);
    if (s.no_ot) CheckSeeds(x, s, 64);
  }
  for (int w : {8, 64, 129}) for (int ot = 0; ot < 2; ot++) for (int low = 0; low < 2; low++) {
    if (!x.mine()) continue;
    Session s = Hist(WideCircuit(w, false), 3, w);
    s.in.e_in = Pattern(s.in.e_in.size(), 1);
    s.no_ot = !ot; s.lowmem = low;
    CheckReuse(x, s, false);
    if (!ot) CheckSeeds(x, s, 32);
  }
  // more cycles, gates and wires than one byte and than two bytes count, also on labels that stay the same
  for (int low = 0; low < 2; low++) for (int cc : {300, 66000}) {
    if (!x.mine()) continue;
    Session s;
    s.c.gi = s.c.ei = 1; s.c.ein = 1;
    s.c.D = {3, 4}; s.c.I = {s.c.G_INIT(0), s.c.E_INIT(0)};
    s.c.g = {{s.c.Q(0), s.c.Q(1), 8}, {s.c.Q(1), s.c.Q(0), 14}};
    s.c.out = {s.c.W(0), s.c.W(1)};
    s.cc = cc; s.in.g_init = {1}; s.in.e_init = {1}; s.in.e_in = Bits(cc, 1); s.lowmem = low; s.mask = "1"; s.seed = 6; s.mode = 2;
    CheckReuse(x, s, false);
  }
  for (int low = 0; low < 2; low++) for (int n : {300, 70000, 140000}) {
    if (!x.mine()) continue;
    Session s;
    s.c.gin = s.c.ein = 1;
    for (int i = 0; i < n; i++) s.c.g.push_back({s.c.G(0), s.c.E(0), 8});
    for (int i = 0; i < n; i++) s.c.out.push_back(s.c.W(i));
    s.in.g_in = {1}; s.in.e_in = {1}; s.lowmem = low; s.seed = 7; s.mask = BitsHex(Pattern(n, 5));
    CheckReuse(x, s, false);
  }
  for (int low = 0; low < 2; low++) {
    for (int cc : {300, 3000, 70000}) for (int salt = 0; salt < (cc > 5000 ? 1 : 4); salt++) {
      if (!x.mine()) continue;
      Session s = LongSession(cc, salt);
      s.lowmem = low;
      if (salt & 1) { s.in.g_in = Bits(cc, 1); s.in.e_in = Bits(cc, 1); }
      CheckReuse(x, s, false);
    }
    for (int n : {260, 1100, 14000}) if (x.mine()) { Session s = BigSession(n, 3, 40); s.lowmem = low; CheckReuse(x, s, false); }
  }
}
void C29R(Ctx& x, const string& c) {
  Session s;
  size_t o = c.find(':') + 1;
  if (!Session::dec(c.substr(o), &s)) { fprintf(stderr, "bad case\n"); exit(2); }
  if (c[0] == 's') CheckSeeds(x, s, (int) KV(c.substr(o)).geti("ns", 16));
  else CheckReuse(x, s, KV(c.substr(o)).geti("deep"));
}
PropReg r29("C29", C29, C29R);
}  // namespace
