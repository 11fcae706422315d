// C22: one garbled gate, the real garbling against the real evaluation and the truth table.
#include "fam.h"
#include "garbled_circuit/garbled_circuit_util.h"
#include "util/common.h"
#include "util/util.h"

namespace {
block Blk(uint64_t hi, uint64_t lo) { alignas(16) uint64_t v[2] = {lo, hi}; return _mm_load_si128((const __m128i*) v); }
string Str(block b) { return string((const char*) &b, 16); }
block Xor(block a, block b) { return _mm_xor_si128(a, b); }
bool Eq(block a, block b) { return Str(a) == Str(b); }
int Lsb(block b) { return Str(b)[0] & 1; }
uint64_t Mix(uint64_t v) { v += 0x9e3779b97f4a7c15ull; v = (v ^ (v >> 30)) * 0xbf58476d1ce4e5b9ull; v = (v ^ (v >> 27)) * 0x94d049bb133111ebull; return v ^ (v >> 31); }
block Rnd(uint64_t k) { return Blk(Mix(2 * k + 77), Mix(2 * k + 78)); }
// label material: 0.. mixed, others extreme
block Mat(int set, int which) {
  if (set == 1) return Blk(0, which == 2 ? 1 : 2 * which);
  if (set == 2) return Blk(~0ull, which == 2 ? ~0ull : ~0ull - 2 * which);
  if (set == 3) return Blk(which == 2 ? 0x8000000000000000ull : 1ull << which, which == 2 ? 1 : 0);
  return Rnd(set * 16 + which);
}
const uint64_t kIds[] = {0, 1, 2, 3, 255, 256, 65535, 65536, 0x3fffffff, 0x7fffffff, 0x80000000ull, 0xfffffffeull};
struct Job { int type, set, pa, pb, rel, ka, kb, gid, cid; };
// rel: 0 independent, 1 same wire, 2 inverted wire, 3 low halves of label0s equal, 4 high halves equal,
//      5 low half of label0 equals low half of the other label1, 6 high halves of those equal
// ka/kb: 0/1 known value, 2 secret
std::set<string>* g_tables;
string Run(Ctx& x, const Job& j) {
  block R = Mat(j.set, 2);
  { string s = Str(R); s[0] |= 1; memcpy(&R, s.data(), 16); }
  BlockPair A, B;
  A.label0 = Mat(j.set, 0);
  if (Lsb(A.label0) != j.pa) A.label0 = Xor(A.label0, Blk(0, 1));
  A.label1 = Xor(A.label0, R);
  B.label0 = Mat(j.set, 1);
  block base = j.rel >= 5 ? A.label1 : A.label0;
  if (j.rel == 1) B.label0 = A.label0;
  if (j.rel == 2) B.label0 = A.label1;
  if (j.rel >= 3) {
    string s = Str(B.label0), t = Str(base);
    if (j.rel == 3 || j.rel == 5) { s.replace(0, 8, t.substr(0, 8)); if (s == t) s[15] ^= 0x40; }
    else { s.replace(8, 8, t.substr(8, 8)); if (s == t) s[3] ^= 0x40; }
    memcpy(&B.label0, s.data(), 16);
  }
  if ((j.rel == 0 || j.rel == 4 || j.rel == 6) && Lsb(B.label0) != j.pb) B.label0 = Xor(B.label0, Blk(0, 1));
  B.label1 = Xor(B.label0, R);
  if (j.rel != 1 && j.rel != 2 && (Eq(B.label0, A.label0) || Eq(B.label0, A.label1))) return "";
  AES_KEY key;
  alignas(16) unsigned char kb[16];
  { block k = Mat(j.set, 3); memcpy(kb, &k, 16); }
  memset(&key, 0, sizeof key);
  AESSetEncryptKey(kb, 128, &key);
  uint64_t gid = kIds[j.gid], cid = kIds[j.cid];
  GarbledTable gt[4];
  memset(gt, 0xee, sizeof gt);
  uint64_t gi = 1;
  BlockPair out;
  short gv = 77;
  GarbleGate(A, j.ka == 2 ? SECRET : j.ka, B, j.kb == 2 ? SECRET : j.kb, j.type, cid, gid, gt, &gi, R, key, &out, &gv);
  if (gi != 1 && gi != 2) return "garbling one gate uses " + std::to_string(gi - 1) + " tables";
  bool table = gi == 2;
  GarbledTable sent, other;
  memset(&other, 0xee, sizeof other);
  if (memcmp(&gt[0].row, &other.row, 32) || memcmp(&gt[2].row, &other.row, 32) || (!table && memcmp(&gt[1].row, &other.row, 32))) return "garbling writes outside its table";
  sent = gt[1];
  short kv = 77;
  GarbleEvalGateKnownValue(j.ka == 2 ? SECRET : j.ka, j.kb == 2 ? SECRET : j.kb, j.type, &kv);
  bool is_free = j.type == 6 || j.type == 9 || j.type == 12;
  if (table && (is_free || j.ka != 2 || j.kb != 2 || j.rel == 1 || j.rel == 2)) return "a table is made for a gate that needs none";
  if (!IsSecret(gv)) { if (gv != 0 && gv != 1) return "garbler's value is neither secret nor a bit"; }
  else if (!Eq(Xor(out.label0, out.label1), R)) return "the output labels do not differ by the offset";
  bool random_labels = j.set == 0 || j.set > 3;  // the extreme sets are related by identifiers: label ^ tweak may coincide
  if (table && g_tables && random_labels) {
    if (Eq(sent.row[0], sent.row[1])) return "both rows of a table are equal";
    for (int r = 0; r < 2; r++) {
      if (!g_tables->insert(Str(sent.row[r])).second) return "a garbled row repeats for different labels, offset, key or identifiers";
      block w = sent.row[r];
      for (block l : {A.label0, A.label1, B.label0, B.label1, R, out.label0, out.label1, Blk(0, 0)}) if (Eq(w, l)) return "a garbled row is a label or the offset";
    }
    if (!g_tables->insert("o" + Str(out.label0)).second || !g_tables->insert("o" + Str(out.label1)).second) return "output labels repeat for different gates";
  }
  int consts = 3;
  for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) {
    if (j.ka != 2 && a != j.ka) continue;
    if (j.kb != 2 && b != j.kb) continue;
    if (j.ka == 2 && j.kb == 2 && j.rel == 1 && a != b) continue;
    if (j.ka == 2 && j.kb == 2 && j.rel == 2 && a == b) continue;
    bool want = RefOp(j.type, a, b);
    consts &= want ? 2 : 1;
    for (int f = 0; f < 4; f++) {  // the evaluator's inversion marks
      short fa = f & 1 ? SECRET_INV : SECRET, fb = f & 2 ? SECRET_INV : SECRET;
      if (j.ka == 2 && j.kb == 2 && ((j.rel == 1 && fa != fb) || (j.rel == 2 && fa == fb))) continue;
      if (j.ka != 2 && fa == SECRET_INV) continue;
      if (j.kb != 2 && fb == SECRET_INV) continue;
      block la = a ? A.label1 : A.label0, lb = b ? B.label1 : B.label0, lo = Blk(5, 5);
      GarbledTable et[3];
      memset(et, 0xdd, sizeof et);
      if (table) et[1] = sent;
      else et[1].gid = gid + 1;
      uint64_t ei = 1;
      short ev = 77;
      EvalGate(j.ka == 2 ? la : Blk(0, 0), j.ka == 2 ? fa : j.ka, j.kb == 2 ? lb : Blk(0, 0), j.kb == 2 ? fb : j.kb, j.type, cid, gid, et, &ei, key, &lo, &ev);
      x.transitions++;
      string at = "a=" + std::to_string(a) + ", b=" + std::to_string(b) + ": ";
      if (IsSecret(gv) != IsSecret(ev)) return at + "one party takes the output for public, the other for secret";
      if (ei != gi) return at + "the evaluator consumes " + std::to_string(ei - 1) + " tables, the garbler made " + std::to_string(gi - 1);
      if (!IsSecret(ev)) {
        if (ev != want || gv != want) return at + "public result " + std::to_string(gv) + "/" + std::to_string(ev) + ", expected " + std::to_string(want);
      } else if (!Eq(lo, want ? out.label1 : out.label0)) {
        return at + (Eq(lo, want ? out.label0 : out.label1) ? "evaluation gives the label of the wrong value" : "evaluation gives neither output label");
      }
      x.outcome(std::to_string(j.type) + (table ? "t" : "f") + std::to_string(want) + std::to_string(ev));
    }
  }
  if (kv != 77 && !IsSecret(kv) && !(consts == 1 || consts == 2)) return "the value is declared public although it is not determined";
  if (!IsSecret(kv) && kv != (consts == 2)) return "wrong public value";
  if (IsSecret(kv) && (j.ka != 2 || j.kb != 2) && (consts == 1 || consts == 2)) return "a determined value is not recognised as public";
  if (IsSecret(kv) != IsSecret(gv) && (j.ka != 2 || j.kb != 2)) return "the two public-value computations disagree";
  // a table of another gate is not consumed
  if (table) {
    GarbledTable et[3];
    memset(et, 0xdd, sizeof et);
    et[1] = sent;
    et[1].gid = (uint32_t) gid + 1;
    uint64_t ei = 1;
    short ev;
    block lo;
    EvalGate(A.label0, SECRET, B.label0, SECRET, j.type, cid, gid, et, &ei, key, &lo, &ev);
    if (ei != 1) return "the evaluator consumes the table of another gate";
  }
  return "";
}
// marks: two free gates in sequence must leave equal/inverted wires recognisable by both
string Marks(Ctx& x, int t1, int s1, int t2, int s2, int t3) {
  // w1 = t1(a, p1); w2 = t2(a, p2) with p public (or NOT); w3 = t3(w1, w2): depends on a only
  block R = Xor(Mat(0, 2), Blk(0, 0));
  { string s = Str(R); s[0] |= 1; memcpy(&R, s.data(), 16); }
  BlockPair A, W1, W2, W3, Z;
  A.label0 = Mat(0, 0); A.label1 = Xor(A.label0, R);
  Z.label0 = Z.label1 = Blk(0, 0);
  AES_KEY key;
  alignas(16) unsigned char kb[16] = {9, 8, 7};
  memset(&key, 0, sizeof key);
  AESSetEncryptKey(kb, 128, &key);
  GarbledTable gt[3];
  memset(gt, 0, sizeof gt);
  uint64_t gi = 0;
  short v1, v2, v3;
  bool r1 = s1 & 2, r2 = s2 & 2;
  if (r1) GarbleGate(Z, s1 & 1, A, SECRET, t1, 3, 5, gt, &gi, R, key, &W1, &v1); else GarbleGate(A, SECRET, Z, s1 & 1, t1, 3, 5, gt, &gi, R, key, &W1, &v1);
  if (r2) GarbleGate(Z, s2 & 1, A, SECRET, t2, 3, 6, gt, &gi, R, key, &W2, &v2); else GarbleGate(A, SECRET, Z, s2 & 1, t2, 3, 6, gt, &gi, R, key, &W2, &v2);
  GarbleGate(W1, v1, W2, v2, t3, 3, 7, gt, &gi, R, key, &W3, &v3);
  if (gi != 0) return "a table is made for gates that depend on one private bit only";
  for (int a = 0; a < 2; a++) for (int f = 0; f < 2; f++) {
    block la = a ? A.label1 : A.label0, e1, e2, e3;
    short m = f ? SECRET_INV : SECRET, u1, u2, u3;
    uint64_t ei = 0;
    GarbledTable et[2];
    memset(et, 0xff, sizeof et);
    if (r1) EvalGate(Blk(0, 0), s1 & 1, la, m, t1, 3, 5, et, &ei, key, &e1, &u1); else EvalGate(la, m, Blk(0, 0), s1 & 1, t1, 3, 5, et, &ei, key, &e1, &u1);
    if (r2) EvalGate(Blk(0, 0), s2 & 1, la, m, t2, 3, 6, et, &ei, key, &e2, &u2); else EvalGate(la, m, Blk(0, 0), s2 & 1, t2, 3, 6, et, &ei, key, &e2, &u2);
    EvalGate(e1, u1, e2, u2, t3, 3, 7, et, &ei, key, &e3, &u3);
    x.transitions += 3;
    bool w1 = r1 ? RefOp(t1, s1 & 1, a) : RefOp(t1, a, s1 & 1), w2 = r2 ? RefOp(t2, s2 & 1, a) : RefOp(t2, a, s2 & 1), w3 = RefOp(t3, w1, w2);
    string at = "a=" + std::to_string(a) + ": ";
    if (ei != 0) return at + "the evaluator consumes a table";
    if (IsSecret(v3) != IsSecret(u3)) return at + "the parties disagree whether the value is public";
    if (!IsSecret(v3)) { if (v3 != w3 || u3 != w3) return at + "wrong public value"; }
    else if (!Eq(e3, w3 ? W3.label1 : W3.label0)) return at + "wrong label";
    if (IsSecret(v3) && !Eq(Xor(W3.label0, W3.label1), R)) return at + "output labels do not differ by the offset";
    x.outcome(std::to_string(v3) + std::to_string(u3) + std::to_string(w3));
  }
  return "";
}
// one case: everything for (type, set, rel); tables compared over all gates of the case
void Case(Ctx& x, int type, int set, int rel) {
  string d = "gate:type=" + std::to_string(type) + ";set=" + std::to_string(set) + ";rel=" + std::to_string(rel);
  x.begin(d);
  std::set<string> tables;
  g_tables = &tables;
  int nid = sizeof kIds / sizeof *kIds;
  for (int pa = 0; pa < 2; pa++) for (int pb = 0; pb < 2; pb++) for (int ka = 0; ka < 3; ka++) for (int kb = 0; kb < 3; kb++)
    for (int g = 0; g < nid; g++) for (int c = 0; c < nid; c++) {
      if ((ka != 2 || kb != 2) && (g != c || g > 1)) continue;
      if (rel != 0 && rel != 4 && rel != 6 && pb != 0) continue;
      Job j = {type, set, pa, pb, rel, ka, kb, g, c};
      x.state(d + std::to_string(pa) + std::to_string(pb) + std::to_string(ka) + std::to_string(kb) + "/" + std::to_string(g) + "," + std::to_string(c));
      string e = Run(x, j);
      if (!e.empty()) {
        x.violation(d, "permute bits " + std::to_string(pa) + std::to_string(pb) + ", public " + std::to_string(ka) + "," + std::to_string(kb) + ", gate " + std::to_string(kIds[g]) + ", cycle " + std::to_string(kIds[c]) + ": " + e);
        g_tables = nullptr;
        return;
      }
    }
  if (x.evals % 17 == 1) x.sample(d + " tables " + std::to_string(tables.size() / 4));
  g_tables = nullptr;
}
void MarkCase(Ctx& x, int t1, int s1) {
  string d = "mark:type=" + std::to_string(t1) + ";s=" + std::to_string(s1);
  x.begin(d);
  for (int t2 = 0; t2 < 11; t2++) for (int s2 = 0; s2 < 4; s2++) for (int t3 = 0; t3 < 11; t3++) {
    x.state(d + "/" + std::to_string(t2) + "," + std::to_string(s2) + "," + std::to_string(t3));
    string e = Marks(x, t1, s1, kTypes[t2], s2, kTypes[t3]);
    if (!e.empty()) { x.violation(d, "types " + std::to_string(t1) + "," + std::to_string(kTypes[t2]) + "," + std::to_string(kTypes[t3]) + " sides " + std::to_string(s1) + "," + std::to_string(s2) + ": " + e); return; }
  }
}
// the truth tables used everywhere
void Truth(Ctx& x, int type) {
  string d = "truth:type=" + std::to_string(type);
  x.begin(d);
  for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) {
    x.transitions++;
    x.state(d + std::to_string(a * 2 + b));
    if (GateOperator(type, a, b) != RefOp(type, a, b)) x.violation(d, "GateOperator(" + std::to_string(type) + ", " + std::to_string(a) + ", " + std::to_string(b) + ") is wrong");
    int v = Type2V(type);
    if (type != 6 && type != 9 && type != 12 && ((((a ^ (v & 1)) & (b ^ (v >> 1 & 1))) ^ (v >> 2)) & 1) != RefOp(type, a, b)) x.violation(d, "Type2V does not describe the gate");
  }
}
void C22(Ctx& x) {
  for (int t = 0; t < 11; t++) if (x.mine()) Truth(x, kTypes[t]);
  for (int t = 0; t < 11; t++) for (int s = 0; s < 4; s++) if (x.mine()) MarkCase(x, kTypes[t], s);
  for (int set = 0; set < (x.thorough() ? 400 : 24); set++) for (int t = 0; t < 11; t++) for (int rel = 0; rel < 7; rel++) if (x.mine()) Case(x, kTypes[t], set, rel);
}
void C22R(Ctx& x, const string& c) {
  KV k(c.substr(c.find(':') + 1));
  if (c.compare(0, 5, "truth") == 0) Truth(x, k.geti("type"));
  else if (c.compare(0, 4, "mark") == 0) MarkCase(x, k.geti("type"), k.geti("s"));
  else Case(x, k.geti("type"), k.geti("set"), k.geti("rel"));
}
PropReg r22("C22", C22, C22R);
}
