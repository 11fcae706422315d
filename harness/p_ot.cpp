// C13 C14 C15 C19: oblivious transfer and big numbers on the wire.
#include "fam.h"
#include <algorithm>
#include <openssl/bn.h>
#include "crypto/BN.h"
#include "crypto/OT.h"
#include "crypto/OT_extension.h"
#include "garbled_circuit/garbled_circuit.h"
#include "util/common.h"
#include "util/util.h"
#undef ERROR
#undef INFO

namespace {
string BnBytes(const BIGNUM* b, int width = -1) {
  int n = width >= 0 ? width : BN_num_bytes(b);
  string s(n, 0);
  if (n) BN_bn2binpad(b, (unsigned char*) &s[0], n);
  return s;
}
struct Bn {
  BIGNUM* p;
  Bn() : p(BN_new()) {}
  explicit Bn(const string& bytes) : p(BN_bin2bn((const unsigned char*) bytes.data(), (int) bytes.size(), nullptr)) {}
  Bn(const Bn&) = delete;
  Bn& operator=(const Bn&) = delete;
  ~Bn() { BN_free(p); }
  string str() const { char* c = BN_bn2hex(p); string s = c; OPENSSL_free(c); return s; }
};
// Message number `i`, side `j` (16 bytes, big-endian) of pattern `pat`.
string MsgBytes(int pat, int i, int j, int nbytes) {
  string s(nbytes, 0);
  uint64_t h = Hash64(&i, sizeof i, 1234567 + pat * 101 + (pat == 3 ? 0 : j * 7));
  for (int k = 0; k < nbytes; k++) {
    h = h * 6364136223846793005ull + 1442695040888963407ull;
    unsigned char r = h >> 56;
    switch (pat) {
      case 0: s[k] = r; break;                       // unrelated
      case 1: s[k] = j ? 0xff : 0; break;            // extreme values
      case 2: s[k] = j ? 0 : 0xff; break;
      case 3: s[k] = r; break;                       // equal messages
      case 4: s[k] = k == (i + j * 5) % nbytes ? 1 << ((i * 3 + j) % 8) : 0; break;  // single bits
      case 5: s[k] = k < nbytes / 2 ? 0 : r; break;  // leading zero bytes
      case 6: s[k] = 0; break;
      case 7: s[k] = k == 0 ? (j ? 0x80 : 0x7f) : k == nbytes - 1 ? j : 0xff; break;
    }
  }
  return s;
}
block ToBlock(const string& be) {
  unsigned char le[16];
  for (int i = 0; i < 16; i++) le[i] = be[15 - i];
  block b;
  memcpy(&b, le, 16);
  return b;
}
string FromBlock(const block& b) {
  unsigned char le[16];
  memcpy(le, &b, 16);
  string s(16, 0);
  for (int i = 0; i < 16; i++) s[i] = le[15 - i];
  return s;
}

struct OtCase {
  int kind = 0;      // 0 base blocks, 1 base numbers, 2 extension blocks, 3 extension numbers
  int len = 1, pat = 0, rnd = 0, width = 128;
  Bits sel;
  uint64_t seed = 1;
  long bnseed = 1;
  string enc() const {
    KV k;
    k.set("kind", kind); k.set("len", len); k.set("pat", pat); k.set("rnd", rnd); k.set("w", width);
    k.set("sel", BitsHex(sel)); k.set("seed", (long long) seed); k.set("bns", bnseed);
    return k.str();
  }
  static OtCase dec(const string& s) {
    KV k(s);
    OtCase o;
    o.kind = k.geti("kind"); o.len = k.geti("len"); o.pat = k.geti("pat"); o.rnd = k.geti("rnd"); o.width = k.geti("w", 128);
    o.sel = HexBits(k.get("sel"), o.len); o.seed = k.geti("seed", 1); o.bnseed = k.geti("bns", 1);
    return o;
  }
};
string MsgOf(const OtCase& c, int i, int j) {
  string s = MsgBytes(c.pat, i, j, (c.width + 7) / 8);
  if (c.width % 8) s[0] &= (1 << (c.width % 8)) - 1;
  return s;
}
struct OtObs {
  int rs = 99, rr = 99;
  vector<string> got;       // normalised hex of what the receiver obtained
  string sent[2];
  vector<BnDraw> draws;
  string fail;              // deadlock and the like
};
OtObs RunOt(const OtCase& c, const std::map<std::pair<int, int>, string>& ov = {}) {
  OtObs o;
  SeedEnv(c.seed, c.bnseed);
  g_bnrand_mode = c.rnd;
  g_bn_override = ov;
  g_log_bnrand = true;
  Net net;
  int n = c.len;
  auto sender = [&] {
    if (c.kind == 0 || c.kind == 2) {
      block** m = new block*[n];
      for (int i = 0; i < n; i++) { m[i] = new block[2]; for (int j = 0; j < 2; j++) m[i][j] = ToBlock(MsgOf(c, i, j)); }
      o.rs = c.kind == 0 ? OTSend(m, n, kFdA) : OTExtSend(m, n, kFdA);
      for (int i = 0; i < n; i++) delete[] m[i];
      delete[] m;
    } else {
      BIGNUM*** m = new BIGNUM**[n];
      for (int i = 0; i < n; i++) {
        m[i] = new BIGNUM*[2];
        for (int j = 0; j < 2; j++) { string s = MsgOf(c, i, j); m[i][j] = BN_bin2bn((const unsigned char*) s.data(), (int) s.size(), nullptr); }
      }
      o.rs = c.kind == 1 ? OTSendBN(m, n, kFdA) : OTExtSendBN(m, c.width, n, kFdA);
      for (int i = 0; i < n; i++) { BN_free(m[i][0]); BN_free(m[i][1]); delete[] m[i]; }
      delete[] m;
    }
  };
  auto receiver = [&] {
    if (c.kind == 0 || c.kind == 2) {
      bool* s = new bool[n ? n : 1];
      block* m = new block[n ? n : 1];
      for (int i = 0; i < n; i++) { s[i] = c.sel[i]; m[i] = _mm_set1_epi8(0x5c); }
      o.rr = c.kind == 0 ? OTRecv(s, n, kFdB, m) : OTExtRecv(s, n, kFdB, m);
      if (o.rr == 0) for (int i = 0; i < n; i++) o.got.push_back(HexOf(FromBlock(m[i])));
      delete[] s;
      delete[] m;
    } else {
      Bn sel;
      for (int i = 0; i < n; i++) if (c.sel[i]) BN_set_bit(sel.p, i);
      BIGNUM** m = new BIGNUM*[n ? n : 1];
      for (int i = 0; i < n; i++) m[i] = BN_new();
      o.rr = c.kind == 1 ? OTRecvBN(sel.p, n, kFdB, m) : OTExtRecvBN(sel.p, c.width, n, kFdB, m);
      if (o.rr == 0) for (int i = 0; i < n; i++) {
        if (BN_is_negative(m[i])) o.got.push_back("negative");
        else if (BN_num_bits(m[i]) > c.width) o.got.push_back("wide");
        else o.got.push_back(HexOf(BnBytes(m[i], (c.width + 7) / 8)));
      }
      for (int i = 0; i < n; i++) BN_free(m[i]);
      delete[] m;
    }
  };
  RunTwo(&net, sender, receiver);
  g_bnrand_mode = 0;
  g_bn_override.clear();
  g_log_bnrand = false;
  o.sent[0] = net.sent[0];
  o.sent[1] = net.sent[1];
  o.draws.swap(g_bndraws);
  if (net.deadlock) o.fail = "deadlock";
  else if (net.livelock) o.fail = "does not finish";
  else if (net.threw[0] || net.threw[1]) o.fail = "exception " + net.what[0] + net.what[1];
  else if (net.leftover(0) || net.leftover(1)) o.fail = "unread bytes are left on the connection";
  return o;
}
string CheckDelivery(const OtCase& c, const OtObs& o) {
  if (!o.fail.empty()) return o.fail;
  if (o.rs != 0) return "the sender reports failure";
  if (o.rr != 0) return "the receiver reports failure";
  for (int i = 0; i < c.len; i++) {
    string e = HexOf(MsgOf(c, i, c.sel[i]));
    if (o.got[i] != e) return "transfer " + std::to_string(i) + " choice " + std::to_string(c.sel[i]) + ": received " + o.got[i] + " instead of " + e;
  }
  return "";
}
void RunDelivery(Ctx& x, const OtCase& c) {
  string d = "ot:" + c.enc();
  x.begin(d);
  OtObs o = RunOt(c);
  string e = CheckDelivery(c, o);
  x.transitions += c.len;
  KV k;
  k.set("k", c.kind); k.set("s", BitsHex(c.sel)); k.set("p", c.pat); k.set("r", c.rnd); k.set("w", c.width); k.set("l", c.len);
  x.state(k.str());
  x.outcome(o.got.empty() ? "none" : o.got[0] + o.got.back());
  if (x.evals % 301 == 4) x.sample(d + " -> first " + (o.got.empty() ? "-" : o.got[0]));
  if (!e.empty()) x.violation(d, e);
}
Bits SelOf(int len, uint64_t v) { Bits b(len); for (int i = 0; i < len; i++) b[i] = i < 64 ? v >> i & 1 : 0; return b; }

// ------------------------------------------------------------------ C13
void C13(Ctx& x) {
  int deep = x.thorough() ? 8 : 6;
  for (int kind = 0; kind < 2; kind++) for (int len = 1; len <= deep; len++) for (uint64_t v = 0; v < (1ull << len); v++)
    for (int pat = 0; pat < 8; pat++) for (int rnd = 0; rnd < 4; rnd++) {
      if (!x.mine()) continue;
      OtCase c;
      c.kind = kind; c.len = len; c.sel = SelOf(len, v); c.pat = pat; c.rnd = rnd; c.bnseed = len & 3; c.seed = v;
      RunDelivery(x, c);
    }
  // numbers of every width the library uses, and beyond the modulus
  for (int w : {1, 7, 8, 9, 63, 64, 65, 127, 128, 129, 255, 256, 500, 767, 768, 1000, 1023, 1024, 1025, 1500, 2048})
    for (uint64_t v = 0; v < 8; v++) for (int pat = 0; pat < 8; pat++) for (int rnd = 0; rnd < 4; rnd++) {
      if (!x.mine()) continue;
      OtCase c;
      c.kind = 1; c.len = 3; c.sel = SelOf(3, v); c.pat = pat; c.rnd = rnd; c.width = w; c.bnseed = 3; c.seed = v;
      RunDelivery(x, c);
    }
  // every length up to the number of transfers in one batch
  for (int len : {1, 2, 7, 8, 9, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 257, 300, 520}) for (int kind = 0; kind < 2; kind++) for (int p = 0; p < 8; p++) {
    if (len > 200 ? p < 6 : p > 5) continue;
    vector<size_t> ks = {0};
    if (p == 2) ks = {0, (size_t) len / 2, (size_t) len - 1};
    for (size_t k : ks) {
      if (!x.mine()) continue;
      OtCase c;
      c.kind = kind; c.len = len; c.sel = Pattern(len, p, k); c.bnseed = 5;
      RunDelivery(x, c);
    }
  }
  // random values: several keys and streams
  for (long bs = 0; bs < (x.thorough() ? 400 : 60); bs++) for (int len : {1, 3}) for (uint64_t v = 0; v < (1ull << len); v++) {
    if (!x.mine()) continue;
    OtCase c;
    c.len = len; c.sel = SelOf(len, v); c.bnseed = bs; c.kind = bs & 1;
    RunDelivery(x, c);
  }
}
void OtR(Ctx& x, const string& s) { RunDelivery(x, OtCase::dec(s.substr(3))); }
PropReg r13("C13", C13, OtR);

// ------------------------------------------------------------------ C14
void C14(Ctx& x) {
  int deep = x.thorough() ? 9 : 7;
  for (int kind = 2; kind < 4; kind++) for (int len = 1; len <= deep; len++) for (uint64_t v = 0; v < (1ull << len); v++) {
    if (!x.mine()) continue;
    OtCase c;
    c.kind = kind; c.len = len; c.sel = SelOf(len, v); c.pat = (int) (v % 8); c.bnseed = 1; c.seed = v;
    RunDelivery(x, c);
    if (x.thorough()) { c.pat = (int) ((v + 3) % 8); RunDelivery(x, c); }
  }
  vector<int> lens;
  for (int i = 1; i <= 20; i++) lens.push_back(i);
  for (int l : {31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 130, 131, 200, 255, 256, 257, 511, 512, 513, 640, 767, 768, 769, 770, 896, 897, 1000, 1023, 1024, 1025, 1100, 1600, 2049, 4097, 65537, 70001}) lens.push_back(l);
  for (int len : lens) for (int kind = 2; kind < 4; kind++) for (int p = 0; p < 7; p++) {
    vector<size_t> ks = {0};
    if (p == 2 || p == 3) ks = {0, (size_t) len - 1, (size_t) len / 2, (size_t) (len > 768 ? 768 : len / 3)};
    if (len > 300 && len < 4000 && !x.thorough() && (p == 3 || kind == 3)) continue;
    if (x.mem && len > 4000 && (len > 5000 || kind == 3)) continue;
    if (len > 4000 && (p == 3 || (!x.thorough() && p < 6))) continue;
    for (size_t k : ks) {
      if (!x.mine()) continue;
      OtCase c;
      c.kind = kind; c.len = len; c.sel = Pattern(len, p, k); c.pat = p == 4 ? 1 : p == 5 ? 7 : 0; c.bnseed = 1;
      RunDelivery(x, c);
    }
  }
  // message widths, extreme random values
  for (int w : {1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 160, 200, 248, 255, 256}) for (int len : {1, 5, 9, 130}) for (int p : {0, 1, 4, 5}) for (int rnd = 0; rnd < 4; rnd++) {
    if (rnd && w % 8) continue;
    if (!x.mine()) continue;
    OtCase c;
    c.kind = 3; c.len = len; c.sel = Pattern(len, p); c.pat = (p + rnd) % 8; c.width = w; c.rnd = rnd; c.bnseed = 1;
    RunDelivery(x, c);
  }
  for (long bs = 0; bs < (x.thorough() ? 60 : 6); bs++) for (int len : {3, 129}) {
    if (!x.mine()) continue;
    OtCase c;
    c.kind = 2; c.len = len; c.sel = Pattern(len, 6); c.bnseed = 20 + bs;
    RunDelivery(x, c);
  }
}
PropReg r14("C14", C14, OtR);

// ------------------------------------------------------------------ C15
// Reads "int size, bytes" numbers off a stream.
struct Reader {
  const string& s;
  size_t i = 0;
  bool ok = true;
  explicit Reader(const string& t) : s(t) {}
  uint32_t u32() { if (i + 4 > s.size()) { ok = false; return 0; } uint32_t v; memcpy(&v, s.data() + i, 4); i += 4; return v; }
  string num() {
    uint32_t n = u32();
    if (!ok || i + n > s.size()) { ok = false; return ""; }
    string r = s.substr(i, n);
    i += n;
    return r;
  }
};
struct Key { Bn n, d; int idx; };
bool FindKey(const string& n, Key* k) {
  for (int i = 0; i < 2; i++) {
    RsaPool(i, k->n.p, k->d.p, 65537);
    if (BnBytes(k->n.p) == n) { k->idx = i; return true; }
  }
  return false;
}
// One base transfer batch as seen on the wire.
struct BaseView {
  Key key;
  vector<string> x[2], v, y[2];
  vector<string> K[2];     // (v - x_b)^d mod n
};
string Pow(const Key& k, const string& v, const string& x) {
  BN_CTX* ctx = BN_CTX_new();
  Bn a(v), b(x), t, r;
  BN_mod_sub(t.p, a.p, b.p, k.n.p, ctx);
  BN_mod_exp(r.p, t.p, k.d.p, k.n.p, ctx);
  BN_CTX_free(ctx);
  return BnBytes(r.p, 128);
}
bool ParseBase(Reader& fwd, Reader& back, int len, BaseView* w) {
  uint32_t l = fwd.u32();
  if (!fwd.ok || (int) l != len) return false;
  string n = fwd.num(), e = fwd.num();
  if (!fwd.ok || !FindKey(n, &w->key)) return false;
  for (int i = 0; i < len; i++) for (int j = 0; j < 2; j++) w->x[j].push_back(fwd.num());
  for (int i = 0; i < len; i++) w->v.push_back(back.num());
  for (int i = 0; i < len; i++) for (int j = 0; j < 2; j++) w->y[j].push_back(fwd.num());
  if (!fwd.ok || !back.ok) return false;
  for (int i = 0; i < len; i++) for (int j = 0; j < 2; j++) w->K[j].push_back(Pow(w->key, w->v[i], w->x[j][i]));
  return true;
}
// y - K; *neg tells that it is negative
string Diff(const string& y, const string& k, bool* neg) {
  Bn a(y), b(k), r;
  BN_sub(r.p, a.p, b.p);
  if (BN_is_negative(r.p)) *neg = true;
  return BnBytes(r.p);
}
string SubMod(const string& a, const string& b, const Key& k) {
  BN_CTX* ctx = BN_CTX_new();
  Bn p(a), q(b), r;
  BN_mod_sub(r.p, p.p, q.p, k.n.p, ctx);
  BN_CTX_free(ctx);
  return HexOf(BnBytes(r.p, 128));
}
// The pads of a batch: all different, none short, no fixed relation.
string CheckPads(const BaseView& w, std::set<string>* all, std::set<string>* diffs) {
  for (size_t i = 0; i < w.v.size(); i++) for (int j = 0; j < 2; j++) {
    Bn k(w.K[j][i]);
    if (BN_num_bits(k.p) < 512) return "a pad is a short number (" + std::to_string(BN_num_bits(k.p)) + " bits)";
    if (!all->insert(w.K[j][i]).second) return "two pads of the oblivious transfer are equal";
  }
  for (size_t i = 0; i < w.v.size(); i++) {
    if (!diffs->insert(SubMod(w.x[1][i], w.x[0][i], w.key)).second) return "the two random messages of different transfers have the same difference";
  }
  return "";
}
// Base: pads, and the exact witness for the other choice of every transfer.
void CheckBase(Ctx& x, const OtCase& c) {
  string d = "base:" + c.enc();
  x.begin(d);
  OtObs o = RunOt(c);
  if (!CheckDelivery(c, o).empty()) { x.cnt["transfer_failed_elsewhere"]++; return; }
  Reader f(o.sent[0]), b(o.sent[1]);
  BaseView w;
  if (!ParseBase(f, b, c.len, &w)) { x.cnt["format_not_understood"]++; if (x.caps.empty()) x.caps.push_back("a transcript was not understood"); return; }
  std::set<string> all, diffs;
  string e = CheckPads(w, &all, &diffs);
  if (!e.empty()) { x.violation(d, e); return; }
  // what is sent for the other message is its value plus the pad: nothing else
  for (int i = 0; i < c.len; i++) for (int j = 0; j < 2; j++) {
    Bn y(w.y[j][i]), m(MsgOf(c, i, j));
    if (BN_cmp(y.p, m.p) == 0) { x.violation(d, "a message is sent without a pad"); return; }
  }
  // witness: for every other choice vector some random choice of the receiver gives the same bytes
  vector<int> kd;
  for (size_t i = 0, q = 0; i < o.draws.size(); i++) if (o.draws[i].party == 1) { kd.push_back((int) q++); }
  if ((int) kd.size() != c.len) { x.cnt["draws_not_understood"]++; if (x.caps.empty()) x.caps.push_back("the receiver's random draws were not understood"); return; }
  for (uint64_t v = 1; v < (1ull << c.len); v++) {
    if (c.len > 4 && (v & (v - 1)) && v != (1ull << c.len) - 1) continue;
    OtCase t = c;
    std::map<std::pair<int, int>, string> ov;
    for (int i = 0; i < c.len; i++) if (v >> i & 1) {
      t.sel[i] ^= 1;
      ov[{1, i}] = w.K[t.sel[i]][i];
    }
    OtObs p = RunOt(t, ov);
    x.transitions++;
    if (p.sent[1] != o.sent[1] || p.sent[0] != o.sent[0]) {
      x.violation(d, "the sender's view is not consistent with choice vector " + BitsHex(t.sel) + " (" + (p.sent[1] != o.sent[1] ? "receiver's" : "sender's") + " messages differ)");
      return;
    }
    string dl = CheckDelivery(t, p);
    if (!dl.empty()) { x.violation(d, "witness run: " + dl); return; }
  }
  x.state(d);
  x.outcome(HexOf(w.v[0]).substr(0, 16));
  if (x.evals % 51 == 2) x.sample(d + " -> every choice vector has a witness with identical transcript");
}
// Pads over many runs: every bit position of the pad takes both values.
void CheckPadBits(Ctx& x, const OtCase& c0, int runs) {
  string d = "padbits:" + c0.enc() + ";runs=" + std::to_string(runs);
  x.begin(d);
  int w = c0.width;
  vector<int> seen[2];
  seen[0].assign(w, 0); seen[1].assign(w, 0);
  std::set<string> pads;
  int n = 0;
  for (int r = 0; r < runs; r++) {
    OtCase c = c0;
    c.bnseed = c0.bnseed + r;
    OtObs o = RunOt(c);
    ProgressTick();
    if (!CheckDelivery(c, o).empty()) { x.cnt["transfer_failed_elsewhere"]++; return; }
    // the last 2*len numbers the sender sends are the padded messages
    vector<string> nums;
    Reader f(o.sent[0]);
    if (c.kind < 2) {
      Reader b(o.sent[1]);
      BaseView v;
      if (!ParseBase(f, b, c.len, &v)) { x.cnt["format_not_understood"]++; if (x.caps.empty()) x.caps.push_back("a transcript was not understood"); return; }
      for (int i = 0; i < c.len; i++) for (int j = 0; j < 2; j++) {
        bool neg = false;
        string k = Diff(v.y[j][i], MsgOf(c, i, j), &neg);
        Bn p(neg ? "" : k);
        for (int t = 0; t < w; t++) seen[j][t] |= 1 << BN_is_bit_set(p.p, t);
        if (!pads.insert(k).second) { x.violation(d, "a pad of the oblivious transfer is used twice"); return; }
      }
    } else {
      // the sender of the extension sends v (128 numbers per batch), then y0,y1 per transfer
      int done = 0;
      const int batch = 768;
      while (done < c.len && f.ok) {
        int k = std::min(batch, c.len - done);
        for (int i = 0; i < 128; i++) f.num();
        for (int i = 0; i < 2 * k; i++) nums.push_back(f.num());
        done += k;
      }
      if (!f.ok || f.i != o.sent[0].size()) { x.cnt["format_not_understood"]++; if (x.caps.empty()) x.caps.push_back("a transcript was not understood"); return; }
      for (int i = 0; i < c.len; i++) for (int j = 0; j < 2; j++) {
        Bn y(nums[2 * i + j]), m(MsgOf(c, i, j)), p;
        for (int t = 0; t < w; t++) if (BN_is_bit_set(y.p, t) != BN_is_bit_set(m.p, t)) BN_set_bit(p.p, t);
        for (int t = 0; t < w; t++) seen[j][t] |= 1 << BN_is_bit_set(p.p, t);
        if (w >= 64 && !pads.insert(BnBytes(p.p, 64)).second) { x.violation(d, "a pad of the extended oblivious transfer is used twice"); return; }
      }
    }
    n += c.len;
    x.transitions++;
  }
  for (int j = 0; j < 2; j++) for (int t = 0; t < w; t++)
    if (seen[j][t] != 3) { x.violation(d, "bit " + std::to_string(t) + " of message " + std::to_string(j) + " is sent with the same pad bit in all of " + std::to_string(n) + " transfers"); return; }
  x.state(d);
  x.sample(d + " -> " + std::to_string(w) + " pad bits vary over " + std::to_string(n) + " transfers");
}
// Extension: the receiver's hidden rows, and the exact witness for other choices.
void CheckExt(Ctx& x, const OtCase& c) {
  string d = "ext:" + c.enc();
  x.begin(d);
  OtObs o = RunOt(c);
  if (!CheckDelivery(c, o).empty()) { x.cnt["transfer_failed_elsewhere"]++; return; }
  // roles swap: the receiver (B) is the sender of the base transfer
  Reader f(o.sent[1]), b(o.sent[0]);
  auto cap = [&](const char* what) { x.cnt["format_not_understood"]++; if (x.caps.empty()) x.caps.push_back(what); };
  std::set<string> all, diffs;
  int done = 0, batches = 0;
  const int batch = 768;
  vector<vector<string>> tcols;
  int limit = 1024;
  struct Seen { vector<string> v, y[2]; };
  vector<Seen> views;
  while (done < c.len) {
    int k = std::min(batch, c.len - done);
    BaseView w;
    if (!ParseBase(f, b, 128, &w)) return cap("a transcript was not understood");
    for (int i = 0; i < 2 * k; i++) b.num();
    if (!b.ok) return cap("a transcript was not understood");
    string e = CheckPads(w, &all, &diffs);
    if (!e.empty()) { x.violation(d, e); return; }
    limit = BN_num_bits(w.key.n.p);
    std::set<string> cols;
    vector<Bits> T(128, Bits(k));
    for (int j = 0; j < 128; j++) {
      bool neg = false;
      string t0 = Diff(w.y[0][j], w.K[0][j], &neg), t1 = Diff(w.y[1][j], w.K[1][j], &neg);
      if (neg) return cap("a transcript was not understood");
      Bn a(t0), q(t1);
      // the plaintext must stay far below the pad for the sum to hide it
      if (std::max(BN_num_bits(a.p), BN_num_bits(q.p)) > limit - 64) { x.violation(d, "the base transfer's plaintext is as wide as its pad (" + std::to_string(BN_num_bits(a.p)) + " bits)"); return; }
      if (k > 40 && (!cols.insert(t0).second || (t1 != t0 && !cols.insert(t1).second))) { x.violation(d, "two columns of the receiver's random matrix are equal"); return; }
      for (int i = 0; i < k; i++) {
        T[j][i] = BN_is_bit_set(a.p, i);
        int r = T[j][i] ^ BN_is_bit_set(q.p, i);
        if (r != c.sel[done + i]) { x.cnt["unexpected_choice_encoding"]++; return; }
      }
    }
    std::set<string> rows;
    for (int i = 0; i < k; i++) {
      string row;
      int ones = 0;
      for (int j = 0; j < 128; j++) { row += T[j][i] ? '1' : '0'; ones += T[j][i]; }
      if (!rows.insert(row).second) { x.violation(d, "two rows of the receiver's random matrix are equal"); return; }
      if (ones < 20 || ones > 108) { x.violation(d, "a row of the receiver's matrix is not random"); return; }
    }
    tcols.push_back(vector<string>(rows.begin(), rows.end()));
    views.emplace_back();
    for (int j = 0; j < 2; j++) views.back().y[j] = w.y[j];
    views.back().v = w.v;
    done += k;
    batches++;
  }
  // witness for the receiver: rows T'_i = T_i ^ S when the choice differs give the sender the same numbers
  vector<size_t> sd, rd;
  for (size_t i = 0; i < o.draws.size(); i++) {
    if (o.draws[i].party == 0 && o.draws[i].bits == 128) sd.push_back(i);
    if (o.draws[i].party == 1 && o.draws[i].bits == 128) rd.push_back(i);
  }
  if ((int) sd.size() != batches || (int) rd.size() != c.len) { x.cnt["draws_not_understood"]++; if (x.caps.empty()) x.caps.push_back("the random draws were not understood"); return; }
  // index of each of B's draws among B's draws
  vector<int> bidx;
  { int q = 0; for (size_t i = 0; i < o.draws.size(); i++) if (o.draws[i].party == 1) { if (o.draws[i].bits == 128) bidx.push_back(q); q++; } }
  for (int alt = 0; alt < 3; alt++) {
    OtCase t = c;
    std::map<std::pair<int, int>, string> ov;
    for (int i = 0; i < c.len; i++) {
      bool flip = alt == 0 ? true : alt == 1 ? i == c.len / 2 : i & 1;
      if (!flip) continue;
      t.sel[i] ^= 1;
      string row = o.draws[rd[i]].v, S = o.draws[sd[i / batch]].v;
      for (size_t q = 0; q < row.size(); q++) row[q] ^= S[q];
      ov[{1, bidx[i]}] = row;
    }
    OtObs p = RunOt(t, ov);
    x.transitions++;
    // compare what the sender learns: everything except the base messages it did not choose
    Reader f2(p.sent[1]), b2(p.sent[0]);
    if (p.sent[0].size() == 0) { x.violation(d, "witness run failed"); return; }
    int dn = 0, bi = 0;
    while (dn < c.len) {
      int k = std::min(batch, c.len - dn);
      BaseView w;
      if (!ParseBase(f2, b2, 128, &w)) { x.violation(d, "witness run has another format"); return; }
      for (int i = 0; i < 2 * k; i++) b2.num();
      string S = o.draws[sd[bi]].v;
      if (w.v != views[bi].v) { x.violation(d, "witness: the sender's own messages differ"); return; }
      for (int j = 0; j < 128; j++) {
        int s = (unsigned char) S[15 - j / 8] >> (j % 8) & 1;
        if (w.y[s][j] != views[bi].y[s][j]) { x.violation(d, "the sender's view depends on the receiver's choices (column " + std::to_string(j) + ")"); return; }
      }
      dn += k;
      bi++;
    }
    // The numbers y0,y1 sent afterwards are computed by the sender from its view: they must be the same too.
    if (p.sent[0] != o.sent[0]) { x.violation(d, "the sender's computed messages depend on the receiver's choices"); return; }
  }
  // the sender's secret S must not be visible to the receiver
  for (size_t q = 0; q < sd.size(); q++) {
    string S = o.draws[sd[q]].v, R(S.rbegin(), S.rend());
    if (o.sent[0].find(S) != string::npos || o.sent[0].find(R) != string::npos) { x.violation(d, "the sender's secret is sent"); return; }
    int ones = 0;
    for (unsigned char ch : S) ones += __builtin_popcount(ch);
    if (ones < 20 || ones > 108) { x.violation(d, "the sender's secret is not random"); return; }
  }
  x.state(d);
  x.outcome(HexOf(o.sent[0]).substr(0, 20));
  x.sample(d.substr(0, 200) + " -> 3 alternative choice vectors have identical sender views");
}
// Sender secrets and receiver rows vary from run to run in every bit.
void CheckExtRandom(Ctx& x, int len, int runs) {
  string d = "extrand:" + std::to_string(len) + "," + std::to_string(runs);
  x.begin(d);
  vector<int> sS(128, 0);
  vector<vector<int>> sT(len, vector<int>(128, 0));
  for (int r = 0; r < runs; r++) {
    OtCase c;
    c.kind = 2; c.len = len; c.sel = Pattern(len, 6); c.bnseed = 1000 + r;
    OtObs o = RunOt(c);
    ProgressTick();
    if (!CheckDelivery(c, o).empty()) { x.cnt["transfer_failed_elsewhere"]++; return; }
    int i = 0, ns = 0;
    for (auto& q : o.draws) {
      if (q.bits != 128) continue;
      for (int j = 0; j < 128; j++) {
        int bit = (unsigned char) q.v[15 - j / 8] >> (j % 8) & 1;
        if (q.party == 0) sS[j] |= 1 << bit;
        else if (i < len) sT[i][j] |= 1 << bit;
      }
      if (q.party == 0) ns++; else i++;
    }
    x.transitions++;
    if (ns != 1 || i != len) { x.cnt["draws_not_understood"]++; return; }
  }
  for (int j = 0; j < 128; j++) {
    if (sS[j] != 3) { x.violation(d, "bit " + std::to_string(j) + " of the sender's secret never changes"); return; }
    for (int i = 0; i < len; i++) if (sT[i][j] != 3) { x.violation(d, "bit " + std::to_string(j) + " of row " + std::to_string(i) + " never changes"); return; }
  }
  x.state(d);
}
// Whole sessions: what the evaluator sends is consistent with every input.
struct SessObs { SessResult r; string sent[2]; vector<BnDraw> draws; string err; };
SessObs RunSess(const Session& s, const std::map<std::pair<int, int>, string>& ov) {
  SessObs o;
  g_bn_override = ov;
  g_log_bnrand = true;
  Net net;
  o.r = RunSession(s, &net);
  g_bn_override.clear();
  g_log_bnrand = false;
  for (int d = 0; d < 2; d++) o.sent[d] = net.sent[d];
  o.draws.swap(g_bndraws);
  o.err = CheckSession(s, o.r, net);
  return o;
}
void CheckSessionChoice(Ctx& x, const Session& s) {
  string d = "sess:" + s.enc();
  x.begin(d);
  SessObs o = RunSess(s, {});
  if (!o.err.empty()) { x.cnt["session_failed_elsewhere"]++; return; }
  auto cap = [&] { x.cnt["draws_not_understood"]++; if (x.caps.empty()) x.caps.push_back("the random draws of a session were not understood"); };
  vector<string> xs, ks;
  for (auto& q : o.draws) { if (q.bits != 1024) return cap(); (q.party ? ks : xs).push_back(q.v); }
  size_t n = s.in.e_init.size() + s.in.e_in.size();
  if (ks.size() != n || xs.size() != 2 * n) return cap();
  Key key;
  RsaPool((int) (s.seed % 8 & 1), key.n.p, key.d.p, 65537);
  // v_i from the draws is only known once the choice bit is; find it on the wire
  Reader b(o.sent[1]);
  vector<string> vs;
  for (size_t i = 0; i < n; i++) vs.push_back(b.num());
  if (!b.ok) return cap();
  // which transfer carries which input bit: the one whose witness reproduces the stream
  for (size_t q = 0; q < n; q++) {
    Session t = s;
    if (q < s.in.e_init.size()) t.in.e_init[q] ^= 1; else t.in.e_in[q - s.in.e_init.size()] ^= 1;
    bool found = false;
    for (size_t i0 = 0; i0 < n && !found; i0++) {
      size_t i = (q + i0) % n;
      for (int side = 0; side < 2 && !found; side++) {
        string k = Pow(key, vs[i], xs[2 * i + side]);
        if (k == ks[i]) continue;
        SessObs p = RunSess(t, {{{1, (int) i}, k}});
        x.transitions++;
        if (p.sent[1] == o.sent[1] && p.sent[0] == o.sent[0]) found = true;
      }
    }
    if (!found) { x.violation(d, "what the evaluator sends is not consistent with the other value of its input bit " + std::to_string(q)); return; }
  }
  x.state(d);
  x.outcome(HexOf(o.sent[1]).substr(0, 24));
  if (x.evals % 5 == 0) x.sample(d.substr(0, 240) + " -> " + std::to_string(n) + " input bits, identical bytes for either value");
}
void C15(Ctx& x) {
  for (int kind = 0; kind < 2; kind++) for (int len = 1; len <= (x.thorough() ? 4 : 3); len++) for (uint64_t v = 0; v < (1ull << len); v++) for (int pat : {0, 1, 6}) for (long bs = 0; bs < (x.thorough() ? 6 : 2); bs++) {
    if (!x.mine()) continue;
    OtCase c;
    c.kind = kind; c.len = len; c.sel = SelOf(len, v); c.pat = pat; c.bnseed = 40 + bs;
    CheckBase(x, c);
  }
  for (int len : {8, 20}) for (int p : {0, 1, 4}) {
    if (!x.mine()) continue;
    OtCase c;
    c.len = len; c.sel = Pattern(len, p); c.bnseed = 51;
    CheckBase(x, c);
  }
  for (int w : {8, 64, 128, 300, 768}) {
    if (!x.mine()) continue;
    OtCase c;
    c.kind = 1; c.len = 6; c.sel = Pattern(6, 4); c.width = w; c.bnseed = 60;
    CheckPadBits(x, c, 8);
  }
  for (int w : {1, 3, 8, 12, 64, 100, 127, 128, 200, 255, 256}) for (int sel = 0; sel < 2; sel++) {
    if (!x.mine()) continue;
    OtCase c;
    c.kind = 3; c.len = 48; c.sel = Pattern(48, sel ? 4 : 6); c.width = w; c.bnseed = 70; c.pat = sel ? 1 : 0;
    CheckPadBits(x, c, 1);
  }
  for (int len : {1, 5, 8, 128, 129, 300, 768, 769, 1100}) for (int p : {0, 1, 6}) {
    if (len > 129 && p != 6 && !x.thorough()) continue;
    if (!x.mine()) continue;
    OtCase c;
    c.kind = 2; c.len = len; c.sel = Pattern(len, p); c.bnseed = 80 + len;
    CheckExt(x, c);
  }
  for (int k = 0; k < 2; k++) if (x.mine()) CheckExtRandom(x, k ? 9 : 3, x.thorough() ? 48 : 32);
  // sessions: all evaluator inputs, mask gives every output to the evaluator
  for (int low = 0; low < 2; low++) for (int v = 0; v < (x.thorough() ? 16 : 4); v++) for (int cc = 1; cc <= 2; cc++) {
    if (!x.mine()) continue;
    Circuit c;
    c.gi = 1; c.ei = 1; c.gin = 1; c.ein = 2;
    c.D = {0, 0}; c.I = {0, 1};
    c.g = {{c.Q(0), c.E(0), 8}, {c.Q(1), c.G(0), 14}, {c.E(1), c.W(0), 8}};
    c.D = {c.W(2), c.W(1)};
    c.out = {c.W(0), c.W(1), c.W(2)};
    Session s;
    s.c = c; s.cc = cc; s.no_ot = false; s.lowmem = low; s.seed = 90 + v;
    s.in = MakeInputs(c, cc, 0x2D5B37ull * (v + 1));
    CheckSessionChoice(x, s);
  }
}
void C15R(Ctx& x, const string& c) {
  string k = c.substr(0, c.find(':')), r = c.substr(c.find(':') + 1);
  if (k == "base") CheckBase(x, OtCase::dec(r));
  else if (k == "padbits") CheckPadBits(x, OtCase::dec(r), (int) KV(r).geti("runs", 1));
  else if (k == "ext") CheckExt(x, OtCase::dec(r));
  else if (k == "extrand") { auto f = Split(r, ','); CheckExtRandom(x, atoi(f[0].c_str()), atoi(f[1].c_str())); }
  else { Session s; if (Session::dec(r, &s)) CheckSessionChoice(x, s); }
}
PropReg r15("C15", C15, C15R);

// ------------------------------------------------------------------ C19
string NumOf(int bits, int pat) {  // big-endian bytes of a number of at most `bits` bits
  int nb = (bits + 7) / 8;
  string s(nb, 0);
  uint64_t h = bits * 131 + pat;
  auto set = [&](int i) { s[nb - 1 - i / 8] |= 1 << (i % 8); };
  for (int i = 0; i < bits; i++) {
    h = h * 6364136223846793005ull + 1442695040888963407ull;
    bool v = pat == 0 ? i == bits - 1 : pat == 1 ? true : pat == 2 ? (h >> 60 & 1) || i == bits - 1 : pat == 3 ? i == bits - 1 || i == 0 : pat == 4 ? i % 2 : pat == 5 ? i / 8 % 2 == 1 : i == pat - 6;
    if (v) set(i);
  }
  return s;
}
void RunNums(Ctx& x, const string& desc, const vector<string>& nums, size_t frag, size_t cap) {
  string d = "num:" + desc;
  x.begin(d);
  vector<string> got;
  int rs = 0, rr = 0;
  Net net;
  net.cap = cap;
  if (frag) net.answer = [&](const IoPoint& p) { return IoAnswer{(long) std::min(frag, p.possible), 0, false}; };
  RunTwo(&net,
    [&] { for (auto& s : nums) { Bn b(s); rs |= SendBN(kFdA, b.p); } },
    [&] {
      // received into numbers that already hold other values
      for (size_t i = 0; i < nums.size(); i++) { Bn b(NumOf((int) (i * 37 % 200), 1)); rr |= RecvBN(kFdB, b.p); got.push_back(BN_is_negative(b.p) ? "-" : b.str()); }
    });
  x.state(d);
  x.transitions += nums.size();
  if (net.deadlock || net.livelock || net.threw[0] || net.threw[1]) { x.violation(d, "sending numbers does not complete"); return; }
  if (rs || rr) { x.violation(d, string(rs ? "SendBN" : "RecvBN") + " reports failure"); return; }
  for (size_t i = 0; i < nums.size(); i++) {
    Bn b(nums[i]);
    if (got[i] != b.str()) { x.violation(d, "number " + std::to_string(i) + " arrives as " + got[i] + " instead of " + b.str()); return; }
  }
  if (net.leftover(0)) { x.violation(d, "unread bytes are left"); return; }
  x.outcome(got.empty() ? "" : got.back());
  if (x.evals % 997 == 3) x.sample(d + " -> " + got.back().substr(0, 60));
}
// desc: "bits.pat,bits.pat,...;f=frag;c=cap"
void NumsFrom(Ctx& x, const string& desc) {
  auto f = Split(desc, ';');
  vector<string> nums;
  for (auto& q : Split(f[0], ',')) { auto g = Split(q, '.'); nums.push_back(NumOf(atoi(g[0].c_str()), atoi(g[1].c_str()))); }
  long cap = atol(f[2].substr(2).c_str());
  RunNums(x, desc, nums, atol(f[1].substr(2).c_str()), cap ? (size_t) cap : (size_t) -1);
}
void CheckLabel(Ctx& x, const string& be) {
  string d = "lab:" + HexOf(be);
  x.begin(d);
  block b = ToBlock(be), r = _mm_set1_epi8(0x3c), r2 = r;
  Bn n(NumOf(77, 1));
  BlockToBN(n.p, b);
  Bn e(be);
  if (BN_cmp(n.p, e.p)) { x.violation(d, "BlockToBN gives " + n.str()); return; }
  BNToBlock(n.p, &r);
  if (FromBlock(r) != be) { x.violation(d, "BNToBlock gives " + HexOf(FromBlock(r))); return; }
  BNToBlock(e.p, &r2);
  if (FromBlock(r2) != be) { x.violation(d, "BNToBlock gives " + HexOf(FromBlock(r2))); return; }
  x.state(d);
  x.transitions += 2;
  x.outcome(d);
}
void CheckWide(Ctx& x, int bits, int pat) {  // conversion of a wider number keeps its low 128 bits and touches nothing else
  string d = "wide:" + std::to_string(bits) + "." + std::to_string(pat);
  x.begin(d);
  string s = NumOf(bits, pat);
  Bn n(s);
  struct { block g0, v, g1; } st;
  memset(&st, 0x77, sizeof st);
  BNToBlock(n.p, &st.v);
  string w = s.size() >= 16 ? s.substr(s.size() - 16) : string(16 - s.size(), 0) + s;
  if (FromBlock(st.v) != w) { x.violation(d, "BNToBlock gives " + HexOf(FromBlock(st.v)) + " instead of " + HexOf(w)); return; }
  for (auto* g : {&st.g0, &st.g1}) if (FromBlock(*g) != string(16, 0x77)) { x.violation(d, "BNToBlock writes beside the label"); return; }
  Bn e(s);
  if (BN_cmp(n.p, e.p)) { x.violation(d, "BNToBlock changes the number"); return; }
  x.state(d);
  x.transitions++;
}
void C19(Ctx& x) {
  for (int bits = 0; bits <= (x.thorough() ? 2100 : 1100); bits++) for (int pat = 0; pat < 6; pat++) for (int frag : {0, 1, 3}) {
    if (!x.mine()) continue;
    NumsFrom(x, std::to_string(bits) + "." + std::to_string(pat) + ";f=" + std::to_string(frag) + ";c=" + (frag == 3 ? "5" : "0"));
  }
  for (int bits : {2039, 2040, 2041, 2048, 2049, 4096, 32760, 32768, 65528, 65536, 65537, 262136, 262144, 262145, 524280, 524281, 524288, 524297, 600000}) for (int pat = 0; pat < 5; pat++) for (int frag : {0, 4096})
    if (x.mine()) NumsFrom(x, std::to_string(bits) + "." + std::to_string(pat) + ",77.1;f=" + std::to_string(frag) + ";c=" + (frag ? "4096" : "0"));
  for (int bits : {1024, 128, 200}) for (int k = 0; k < bits; k++) if (x.mine()) NumsFrom(x, std::to_string(bits) + "." + std::to_string(k + 6) + ";f=0;c=0");
  static const int bs[7] = {0, 1, 8, 64, 127, 129, 1024};
  for (int a : bs) for (int b : bs) for (int c : bs) for (int p = 0; p < 4; p++) for (int frag : {0, 1, 7}) {
    if (!x.mine()) continue;
    auto q = [&](int n, int k) { return std::to_string(n) + "." + std::to_string(k); };
    NumsFrom(x, q(a, p) + "," + q(b, (p + 1) % 5) + "," + q(c, p) + "," + q(b, p) + ";f=" + std::to_string(frag) + ";c=" + (frag == 7 ? "1" : "0"));
  }
  // labels: all values of any one byte, any two bits, prefixes of zeros and ones
  for (int i = 0; i < 16; i++) for (int v = 0; v < 256; v++) for (int bg = 0; bg < 2; bg++) { if (!x.mine()) continue; string s(16, bg ? 0xff : 0); s[i] = v; CheckLabel(x, s); }
  for (int i = 0; i < 128; i++) for (int j = 0; j < i; j++) { if (!x.mine()) continue; string s(16, 0); s[i / 8] |= 1 << i % 8; s[j / 8] |= 1 << j % 8; CheckLabel(x, s); }
  for (int i = 0; i <= 128; i++) for (int p = 1; p < 6; p++) { if (!x.mine()) continue; string n = NumOf(i, p); CheckLabel(x, string(16 - n.size(), 0) + n); }
  for (int bits = 0; bits <= 600; bits++) for (int p = 0; p < 6; p++) if (x.mine()) CheckWide(x, bits, p);
}
void C19R(Ctx& x, const string& c) {
  string r = c.substr(c.find(':') + 1);
  if (c[0] == 'n') NumsFrom(x, r);
  else if (c[0] == 'w') { auto g = Split(r, '.'); CheckWide(x, atoi(g[0].c_str()), atoi(g[1].c_str())); }
  else { string s; for (size_t i = 0; i + 1 < r.size(); i += 2) s += (char) strtol(r.substr(i, 2).c_str(), 0, 16); CheckLabel(x, s); }
}
PropReg r19("C19", C19, C19R);
}  // namespace
