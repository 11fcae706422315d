// C20 conversions and big-number helpers, C21 hexadecimal inputs, C23 AES-128.
#include <sys/mman.h>
#include "fam.h"
#include <unistd.h>
#include <openssl/bn.h>
#include <openssl/evp.h>
#include "crypto/BN.h"
#include "crypto/OT_extension.h"
#include "crypto/aes.h"
#include "crypto/block.h"
#include "garbled_circuit/garbled_circuit.h"
#include "garbled_circuit/garbled_circuit_util.h"
#include "scd/scd_evaluator.h"
#include "util/common.h"
#include "util/util.h"

namespace {
// ---- reference: numbers as bit vectors, least significant first
string Bin(const Bits& b) { string s; for (size_t i = b.size(); i-- > 0;) s += b[i] ? '1' : '0'; return s; }
Bits UnBin(const string& s) { Bits b; for (size_t i = s.size(); i-- > 0;) b.push_back(s[i] == '1'); return b; }
Bits Of(uint64_t v, size_t n) { Bits b(n); for (size_t i = 0; i < n; i++) b[i] = i < 64 ? (v >> i) & 1 : 0; return b; }
string Trim(const string& bin) { size_t i = bin.find('1'); return i == string::npos ? "0" : bin.substr(i); }
string HexDigits(const Bits& b, size_t digits, bool upper) {
  string s;
  for (size_t d = digits; d-- > 0;) {
    int v = 0;
    for (int k = 0; k < 4; k++) if (d * 4 + k < b.size()) v |= b[d * 4 + k] << k;
    s += (upper ? "0123456789ABCDEF" : "0123456789abcdef")[v];
  }
  return s;
}
bool HexVal(const string& h, Bits* out) {
  out->clear();
  for (size_t i = h.size(); i-- > 0;) {
    int c = (unsigned char) h[i], v = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
    if (v < 0) return false;
    for (int k = 0; k < 4; k++) out->push_back((v >> k) & 1);
  }
  return true;
}
string Norm(const Bits& b) { return Trim(Bin(b)); }
Bits BnBits(const BIGNUM* v) { Bits b; for (int i = 0; i < BN_num_bits(v); i++) b.push_back(BN_is_bit_set(v, i)); return b; }
struct BN1 {
  BIGNUM* p;
  BN1() : p(BN_new()) {}
  explicit BN1(const Bits& b) : p(BN_new()) { for (size_t i = 0; i < b.size(); i++) if (b[i]) BN_set_bit(p, i); }
  ~BN1() { BN_free(p); }
  BN1(const BN1&) = delete;
};
// One case: a named family and up to three integers. Returns "" or what is wrong.
typedef string (*CaseFn)(Ctx& x, long a, long b, long c);
#define FAIL(...) do { return string() + __VA_ARGS__; } while (0)
void Tick(Ctx& x, const string& key, const string& outcome) {
  x.transitions++;
  x.state(key);
  x.outcome(outcome);
  if ((x.transitions & 255) == 0) ProgressTick();
}
string Q(const string& s) { return "\"" + (s.size() > 80 ? s.substr(0, 80) + "..." + std::to_string(s.size()) : s) + "\""; }

const uint64_t kVals[] = {0, 1, 2, 3, 7, 8, 9, 10, 15, 16, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000ull, 0xffffffffull,
                          0x100000000ull, 0x123456789abcdefull, 0xfedcba9876543210ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0xffffffffffffffffull, 0xaaaaaaaaaaaaaaaaull, 0x5555555555555555ull};
const int kNV = sizeof kVals / sizeof *kVals;
// to_string_hex: pad 0..20
string FTsh(Ctx& x, long pad, long, long) {
  for (int k = 0; k < kNV + 4096; k++) {
    uint64_t v = k < kNV ? kVals[k] : k - kNV;
    char buf[64];
    snprintf(buf, sizeof buf, "%0*llx", (int) pad, (unsigned long long) v);
    if (pad == 0) snprintf(buf, sizeof buf, "%llx", (unsigned long long) v);
    string got = to_string_hex(v, pad);
    Tick(x, "tsh" + std::to_string(pad) + "/" + std::to_string(v), got);
    if (!icompare(got, buf) || got.size() != strlen(buf)) FAIL("to_string_hex(" + std::to_string(v) + ", " + std::to_string(pad) + ") = " + Q(got) + ", expected " + buf);
  }
  return "";
}
// dec2bin: width n
string FD2b(Ctx& x, long n, long, long) {
  long all = n <= 12 ? 1l << n : 0;
  for (long k = 0; k < kNV + all; k++) {
    uint64_t v = k < kNV ? kVals[k] : k - kNV;
    string got = dec2bin((int64_t) v, n), want = Bin(Of(v, n));
    Tick(x, "d2b" + std::to_string(n) + "/" + std::to_string(v), got);
    if (got != want) FAIL("dec2bin(" + std::to_string((int64_t) v) + ", " + std::to_string(n) + ") = " + Q(got) + ", expected " + Q(want));
  }
  return "";
}
// bin2dec of width n, signed and unsigned; two's complement; and back
string FB2d(Ctx& x, long n, long, long) {
  long all = n <= 13 ? 1l << n : 0;
  for (long k = 0; k < all + (all ? 0 : kNV); k++) {
    uint64_t v = all ? k : kVals[k];
    if (n < 64) v &= (1ull << n) - 1;
    string s = Bin(Of(v, n));
    int64_t u = bin2dec(s, false), g = bin2dec(s, true);
    bool neg = (v >> (n - 1)) & 1;
    int64_t wg = n == 64 ? (int64_t) v : neg ? (int64_t) v - (int64_t) (1ull << n) : (int64_t) v;
    Tick(x, "b2d" + std::to_string(n) + "/" + std::to_string(v), std::to_string(g));
    if (u != (int64_t) v) FAIL("bin2dec(" + Q(s) + ", unsigned) = " + std::to_string(u));
    if (g != wg) FAIL("bin2dec(" + Q(s) + ", signed) = " + std::to_string(g) + ", expected " + std::to_string(wg));
    string t = towsComplement(s), wt = Bin(Of(0 - v, n));
    if (t != wt) FAIL("towsComplement(" + Q(s) + ") = " + Q(t));
    if (dec2bin(g, n) != s) FAIL("dec2bin does not invert bin2dec on " + Q(s));
  }
  return "";
}
// towsComplement on wide strings
string FTwo(Ctx& x, long n, long, long) {
  for (int kind = 0; kind < 8; kind++) for (long k = 0; k < (kind == 2 || kind == 3 ? n : 1); k++) {
    Bits b = Pattern(n, kind, k), w = b;
    int carry = 1;
    for (auto& q : w) { int s = !q + carry; q = s & 1; carry = s >> 1; }
    string got = towsComplement(Bin(b));
    Tick(x, "two" + Bin(b), got);
    if (got != Bin(w)) FAIL("towsComplement(" + Q(Bin(b)) + ") = " + Q(got));
  }
  return "";
}
string CheckB2h(Ctx& x, const string& s) {
  string h = bin2hex(s);
  Bits v;
  Tick(x, "b2h" + s, h);
  if (!HexVal(h, &v)) FAIL("bin2hex(" + Q(s) + ") = " + Q(h) + " is not hexadecimal");
  if (Norm(v) != Trim(s)) FAIL("bin2hex(" + Q(s) + ") = " + Q(h) + " is another number");
  if (h.size() < (s.size() + 3) / 4) FAIL("bin2hex(" + Q(s) + ") = " + Q(h) + " lost leading digits");
  string back = hex2bin(h);
  if (back.size() != 4 * h.size()) FAIL("hex2bin(" + Q(h) + ") has " + std::to_string(back.size()) + " digits");
  if (Trim(back) != Trim(s)) FAIL("hex2bin(bin2hex(" + Q(s) + ")) = " + Q(back));
  return "";
}
string FB2h(Ctx& x, long n, long, long) {
  if (n <= 13) {
    for (long v = 0; v < 1l << n; v++) { string e = CheckB2h(x, Bin(Of(v, n))); if (!e.empty()) return e; }
    return "";
  }
  for (int kind = 0; kind < 8; kind++) for (long k = 0; k < (n <= 140 && (kind == 2 || kind == 3) ? n : 1); k++) {
    string e = CheckB2h(x, Bin(Pattern(n, kind, k)));
    if (!e.empty()) return e;
  }
  return "";
}
const char kHexA[] = "0123456789abcdefABCDEF";
string CheckH2b(Ctx& x, const string& h) {
  Bits v;
  HexVal(h, &v);
  string got = hex2bin(h);
  Tick(x, "h2b" + h, got);
  if (got != Bin(v)) FAIL("hex2bin(" + Q(h) + ") = " + Q(got));
  return "";
}
string FH2b(Ctx& x, long n, long, long) {
  if (n <= 3) {
    long t = 1;
    for (int i = 0; i < n; i++) t *= 22;
    for (long v = 0; v < t; v++) {
      string h;
      for (long i = 0, w = v; i < n; i++, w /= 22) h += kHexA[w % 22];
      string e = CheckH2b(x, h);
      if (!e.empty()) return e;
    }
    return "";
  }
  for (int kind = 0; kind < 22; kind++) {
    string h;
    for (long i = 0; i < n; i++) h += kHexA[(i * (1 + kind % 5) + kind + i / 7) % 22];
    string e = CheckH2b(x, h);
    if (!e.empty()) return e;
  }
  return "";
}
// formatGCInputString: widths a,b,c
const int kW[] = {0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 31, 32, 33, 63, 64};
const int kNW = 15;
string FFmt(Ctx& x, long a, long b, long c) {
  vector<uint16_t> w;
  for (long k : {a, b, c}) if (k >= 0) w.push_back(kW[k]);
  for (int p = 0; p < 40; p++) {
    vector<uint64_t> v;
    string bin;
    for (size_t i = 0; i < w.size(); i++) {
      v.push_back(kVals[(p * 7 + i * 11 + p / 5) % kNV]);
      bin += Bin(Of(v[i], w[i]));
    }
    string h = formatGCInputString(v, w);
    Bits g;
    Tick(x, "fmt" + std::to_string(a) + "," + std::to_string(b) + "," + std::to_string(c) + "," + std::to_string(p), h);
    if (!HexVal(h, &g) || Norm(g) != Trim(bin)) FAIL("formatGCInputString gives " + Q(h) + " for bits " + Q(bin));
    // the evaluator's/garbler's results are read back by parseGCOutputString
    for (int off : {0, 1, 5, 8, 64}) for (int style = 0; style < 4; style++) {
      Bits all = UnBin(bin + string(off, p & 1 ? '1' : '0'));
      size_t digits = (all.size() + 3) / 4;
      string hs = HexDigits(all, digits, style & 1);
      if (style & 2) { size_t z = hs.find_first_not_of('0'); hs = z == string::npos ? "0" : hs.substr(z); if (hs.size() & 1) hs = "0" + hs; }
      vector<int64_t> o(w.size(), 12345);
      bool skip = false;
      for (auto q : w) if (q == 0) skip = true;
      if (skip) continue;
      parseGCOutputString(o, hs, w, off);
      x.transitions++;
      for (size_t i = 0; i < w.size(); i++) {
        uint64_t u = w[i] == 64 ? v[i] : v[i] & ((1ull << w[i]) - 1);
        int64_t want = w[i] == 64 ? (int64_t) u : (u >> (w[i] - 1)) & 1 ? (int64_t) u - (int64_t) (1ull << w[i]) : (int64_t) u;
        if (o[i] != want) FAIL("parseGCOutputString(" + Q(hs) + ", offset " + std::to_string(off) + ") element " + std::to_string(i) + " of width " + std::to_string(w[i]) + " = " + std::to_string(o[i]) + ", expected " + std::to_string(want));
      }
    }
  }
  return "";
}
string FMask(Ctx& x, long g, long e, long left) {
  string h = formatGCOutputMask(g, e, left), want = left ? string(g, '1') + string(e, '0') : string(e, '0') + string(g, '1');
  Bits v;
  Tick(x, "mask" + std::to_string(g) + "," + std::to_string(e) + "," + std::to_string(left), h);
  if (!HexVal(h, &v) || Norm(v) != Trim(want)) FAIL("formatGCOutputMask(" + std::to_string(g) + ", " + std::to_string(e) + ", " + std::to_string(left) + ") = " + Q(h));
  return "";
}
// printing of outputs: n bits per cycle, cc cycles
string FOut(Ctx& x, long n, long cc, long low) {
  for (int kind = 0; kind < 8; kind++) for (int mode = 0; mode < 3; mode++) {
    Bits all = Pattern(n * cc, kind, (n * cc) / 2);
    Bits last(all.end() - n, all.end());
    BN1 bn(low && mode == 2 ? last : all);
    GarbledCircuit gc;
    memset(&gc, 0, sizeof gc);
    gc.output_size = n;
    string s;
    int rc = low ? OutputBN2StrLowMem(gc, bn.p, cc, (OutputMode) mode, &s) : OutputBN2StrHighMem(gc, bn.p, cc, (OutputMode) mode, &s);
    Tick(x, "out" + std::to_string(n) + "," + std::to_string(cc) + "," + std::to_string(low) + "," + std::to_string(kind) + "," + std::to_string(mode), s);
    if (rc != SUCCESS) FAIL("output conversion fails");
    vector<string> lines = Split(s, '\n');
    vector<Bits> want;
    if (mode == 0) want.push_back(all);
    else if (mode == 2) want.push_back(last);
    else for (long i = 0; i < cc; i++) want.push_back(Bits(all.begin() + i * n, all.begin() + (i + 1) * n));
    if (lines.size() != want.size()) FAIL("output has " + std::to_string(lines.size()) + " lines, expected " + std::to_string(want.size()));
    for (size_t i = 0; i < want.size(); i++) {
      Bits v;
      if (lines[i].empty() || !HexVal(lines[i], &v) || Norm(v) != Norm(want[i])) FAIL("output line " + std::to_string(i) + " is " + Q(lines[i]) + " for the bits " + Q(Bin(want[i])));
    }
  }
  return "";
}
string FIcmp(Ctx& x, long n, long m, long) {
  const string A = "aAbBzZ@[`{0 _";
  auto mk = [&](long v, long len) { string s; for (long i = 0; i < len; i++, v /= A.size()) s += A[v % A.size()]; return s; };
  auto cnt = [&](long len) { long t = 1; while (len-- > 0) t *= A.size(); return t; };
  for (long i = 0; i < cnt(n); i++) for (long j = 0; j < cnt(m); j++) {
    string a = mk(i, n), b = mk(j, m), la = a, lb = b;
    for (auto& c : la) if (c >= 'A' && c <= 'Z') c += 32;
    for (auto& c : lb) if (c >= 'A' && c <= 'Z') c += 32;
    bool got = icompare(a, b);
    Tick(x, "icmp" + a + "/" + b, got ? "1" : "0");
    if (got != (la == lb)) FAIL("icompare(" + Q(a) + ", " + Q(b) + ") = " + (got ? "true" : "false"));
  }
  return "";
}
vector<Bits> Vectors(long n, bool all) {
  vector<Bits> r;
  if (all) { for (long v = 0; v < 1l << n; v++) r.push_back(Of(v, n)); return r; }
  for (int k = 0; k < 8; k++) r.push_back(Pattern(n, k, n / 2));
  for (long k : {0l, 1l, 7l, 8l, 31l, 32l, 63l, 64l, n - 1}) if (k >= 0 && k < n) { r.push_back(Pattern(n, 2, k)); r.push_back(Pattern(n, 3, k)); }
  return r;
}
string FBnXor(Ctx& x, long n, long, long) {
  vector<Bits> vs = Vectors(n, n <= 6);
  for (auto& a : vs) for (auto& b : vs) {
    BN1 p(a), q(b), r;
    if (!BN_xor(r.p, n, p.p, q.p)) FAIL("BN_xor fails");
    Bits w(n);
    for (long i = 0; i < n; i++) w[i] = a[i] ^ b[i];
    Tick(x, "xor" + Bin(a) + "/" + Bin(b), Bin(w));
    if (Norm(BnBits(r.p)) != Norm(w)) FAIL("BN_xor of " + Q(Bin(a)) + " and " + Q(Bin(b)) + " = " + Q(Norm(BnBits(r.p))));
    if (Norm(BnBits(p.p)) != Norm(a) || Norm(BnBits(q.p)) != Norm(b)) FAIL("BN_xor changes an operand");
  }
  return "";
}
string FBnInv(Ctx& x, long n, long, long) {
  for (auto& a : Vectors(n, n <= 10)) {
    BN1 p(a);
    if (!BN_invert(p.p, n)) FAIL("BN_invert fails");
    Bits w(n);
    for (long i = 0; i < n; i++) w[i] = !a[i];
    Tick(x, "inv" + Bin(a), Bin(w));
    if (Norm(BnBits(p.p)) != Norm(w)) FAIL("BN_invert of " + Q(Bin(a)) + " = " + Q(Norm(BnBits(p.p))));
  }
  BN1 o;
  BN_full_one(o.p, n);
  Tick(x, "one" + std::to_string(n), "");
  if (Norm(BnBits(o.p)) != Norm(Bits(n, 1))) FAIL("BN_full_one(" + std::to_string(n) + ") = " + Q(Norm(BnBits(o.p))));
  return "";
}
// transposition of a rows x cols matrix
string FSwitch(Ctx& x, long rows, long cols, long pair) {
  bool all = rows * cols <= 9;
  long cases = all ? 1l << (rows * cols) : 8;
  for (long k = 0; k < cases; k++) {
    vector<vector<Bits>> m(rows);
    for (long i = 0; i < rows; i++) for (int j = 0; j < 2; j++) {
      if (all) m[i].push_back(Of((j ? ~k : k) >> (i * cols), cols));
      else m[i].push_back(Pattern(cols, (k + i * (j + 1) + j) % 8, (i * 3 + j) % cols));
    }
    vector<BIGNUM*> v;
    vector<BIGNUM**> vp;
    for (long i = 0; i < rows; i++) {
      BIGNUM** q = new BIGNUM*[2];
      for (int j = 0; j < 2; j++) { q[j] = BN_new(); for (long c = 0; c < cols; c++) if (m[i][j][c]) BN_set_bit(q[j], c); }
      vp.push_back(q);
      v.push_back(q[0]);
    }
    string e;
    x.transitions++;
    if (!pair) {
      BIGNUM** w = nullptr;
      if (SwitchRowColumnBN(v.data(), rows, cols, &w) != SUCCESS) e = "SwitchRowColumnBN fails";
      for (long c = 0; e.empty() && c < cols; c++) {
        Bits want(rows);
        for (long i = 0; i < rows; i++) want[i] = m[i][0][c];
        if (Norm(BnBits(w[c])) != Norm(want)) e = "row " + std::to_string(c) + " of the transposed matrix is " + Q(Norm(BnBits(w[c]))) + ", expected " + Q(Norm(want));
      }
      if (w) { for (long c = 0; c < cols; c++) BN_free(w[c]); delete[] w; }
    } else {
      BIGNUM*** w = nullptr;
      if (SwitchRowColumnBNPair(vp.data(), rows, cols, &w) != SUCCESS) e = "SwitchRowColumnBNPair fails";
      for (long c = 0; e.empty() && c < cols; c++) for (int j = 0; j < 2; j++) {
        Bits want(rows);
        for (long i = 0; i < rows; i++) want[i] = m[i][j][c];
        if (Norm(BnBits(w[c][j])) != Norm(want)) e = "row " + std::to_string(c) + "/" + std::to_string(j) + " of the transposed pairs is " + Q(Norm(BnBits(w[c][j])));
      }
      if (w) { for (long c = 0; c < cols; c++) { BN_free(w[c][0]); BN_free(w[c][1]); delete[] w[c]; } delete[] w; }
    }
    Tick(x, "sw" + std::to_string(rows) + "," + std::to_string(cols) + "," + std::to_string(pair) + "," + std::to_string(k), e);
    for (auto q : vp) { BN_free(q[0]); BN_free(q[1]); delete[] q; }
    if (!e.empty()) return e;
  }
  return "";
}
// ------------------------------------------------------------------ C21
const char* kBadChars = "gG/:@`xX.-+_ \t,#\n\r;~zZ";
// Hex2BN
string CheckHex2BN(Ctx& x, const string& h, bool ok) {
  for (int dirty = 0; dirty < 2; dirty++) {
    BIGNUM* v = BN_new();
    if (dirty) BN_set_word(v, 0x5a5a5a5a5aull);
    int rc = Hex2BN(h, &v);
    Bits w;
    Tick(x, "hex2bn" + h, std::to_string(rc));
    string e;
    if (ok && rc != SUCCESS) e = "Hex2BN refuses " + Q(h);
    else if (!ok && rc == SUCCESS) e = "Hex2BN accepts " + Q(h);
    else if (ok && (HexVal(h, &w), Norm(BnBits(v)) != Norm(w))) e = "Hex2BN(" + Q(h) + ") gives bits " + Q(Norm(BnBits(v)));
    else if (ok && BN_is_negative(v)) e = "Hex2BN(" + Q(h) + ") is negative";
    BN_free(v);
    if (!e.empty()) return e;
  }
  return "";
}
string CheckStr2Block(Ctx& x, const string& h, bool ok) {
  block v = _mm_set1_epi32(0x1122);
  int rc = Str2Block(h, &v);
  Bits w, g;
  Tick(x, "str2block" + h, std::to_string(rc));
  if (ok && rc != SUCCESS) FAIL("Str2Block refuses " + Q(h));
  if (!ok && rc == SUCCESS) FAIL("Str2Block accepts " + Q(h));
  if (!ok) return "";
  string clean;
  for (char c : h) if (c != ' ' && c != '\t' && c != '_') clean += c;
  HexVal(clean, &w);
  unsigned char by[16];
  memcpy(by, &v, 16);
  for (int i = 0; i < 128; i++) g.push_back((by[i / 8] >> (i % 8)) & 1);
  if (Norm(g) != Norm(w)) FAIL("Str2Block(" + Q(h) + ") gives bits " + Q(Norm(g)));
  return "";
}
string HexStr(long n, int kind) {
  string h;
  for (long i = 0; i < n; i++) h += kind == 0 ? '0' : kind == 1 ? 'F' : kind == 2 ? 'f' : kind == 3 ? (i ? '0' : '8') : kind == 4 ? (i == n - 1 ? '1' : '0') : kHexA[(i * (kind - 3) + kind + i / 5) % 22];
  return h;
}
string FHexOk(Ctx& x, long n, long, long) {
  if (n <= 2) {
    long t = 1;
    for (int i = 0; i < n; i++) t *= 22;
    for (long v = 0; v < t; v++) {
      string h;
      for (long i = 0, w = v; i < n; i++, w /= 22) h += kHexA[w % 22];
      string e = CheckHex2BN(x, h, true);
      if (e.empty() && n) e = CheckStr2Block(x, h, true);
      if (!e.empty()) return e;
    }
    return "";
  }
  for (int kind = 0; kind < 12; kind++) {
    string h = HexStr(n, kind), e = CheckHex2BN(x, h, true);
    if (e.empty()) e = CheckStr2Block(x, h, n <= 32);
    if (!e.empty()) return e;
  }
  return "";
}
string FHexBad(Ctx& x, long n, long pos, long) {
  for (const char* b = kBadChars; *b; b++) for (int kind = 0; kind < 6; kind++) {
    string h = HexStr(n, kind);
    h[pos] = *b;
    string e = CheckHex2BN(x, h, false);
    if (e.empty() && !strchr(" \t_", *b)) e = CheckStr2Block(x, h, false);
    if (e.empty() && strchr(" \t_", *b) && n <= 32 && n > 1) e = CheckStr2Block(x, h, true);
    if (!e.empty()) return e;
  }
  for (int kind = 0; kind < 3; kind++) {
    string h = HexStr(n, kind);
    h[pos] = 0;
    string e = CheckHex2BN(x, h, false);
    if (!e.empty()) return e;
  }
  return "";
}
// every byte value in every position of a one, two and three digit string
string FHexByte(Ctx& x, long n, long pos, long) {
  for (int c = 0; c < 256; c++) {
    string h = HexStr(n, 1);
    h[pos] = (char) c;
    bool ok = isxdigit(c) && c < 128;
    string e = CheckHex2BN(x, h, ok);
    if (e.empty() && c != ' ' && c != '\t' && c != '_') e = CheckStr2Block(x, h, ok);
    if (!e.empty()) return e;
  }
  return "";
}
// A string as an input of w bits, through the whole system: echo circuit
string Field(int slot) { const char* n[] = {"public init", "garbler init", "evaluator init", "public input", "garbler input", "evaluator input", "mask"}; return n[slot]; }
Circuit Echo(int w) {
  Circuit c;
  c.pi = c.gi = c.ei = c.pin = c.gin = c.ein = w;
  for (int i = 0; i < 3 * w; i++) { c.D.push_back(0); c.I.push_back(i); }
  for (int i = 0; i < 3 * w; i++) c.D[i] = c.Q(i);
  for (int i = 0; i < 3 * w; i++) c.out.push_back(c.Q(i));
  for (int i = 0; i < 3 * w; i++) c.out.push_back(c.P(i));
  // gates so that the outputs are also computed values
  c.g.push_back({c.P(0), c.G(0), 8});
  c.out.push_back(c.W(0));
  return c;
}
// slot: which field gets the string; w bits; digits n; kind; all others fixed
string EchoRun(Ctx& x, int slot, int w, const string& h, bool ok, int opt) {
  Circuit c = Echo(w);
  const int cc = 2;
  string v[7] = {"1", "0", "1", "2", "1", "3", ""};
  v[6] = HexStr((6 * w + 1 + 3) / 4, 1);   // everything to the garbler
  v[slot] = h;
  string path = WriteScdFile(c, true);
  Bits want, vals[7];
  bool fine = true;
  for (int s = 0; s < 7; s++) fine &= HexVal(v[s], &vals[s]);
  if (fine != ok) FAIL("harness: expectation mismatch");
  for (int s = 0; s < 6; s++) vals[s].resize(s < 3 ? w : w * cc);
  vals[6].resize(6 * w + 1);
  SeedEnv(6);
  int r[3] = {99, 99, 99};
  string o[3];
  Net net;
  net.keep_transcript = false;
  bool no_ot = !(opt & 1), low = opt & 2;
  RunTwo(&net,
    [&] { r[0] = GarbleStr(path, v[0], v[3], v[1], v[4], cc, v[6], 0, OutputMode::consecutive, no_ot, low, &o[0], kFdA); },
    [&] { r[1] = EvaluateStr(path, v[0], v[3], v[2], v[5], cc, v[6], 0, OutputMode::consecutive, no_ot, low, &o[1], kFdB); });
  Tick(x, "echo" + std::to_string(slot) + "," + std::to_string(w) + "," + std::to_string(opt) + "," + h, std::to_string(r[0]) + std::to_string(r[1]));
  if (net.deadlock || net.livelock) FAIL("the session does not finish");
  if (!ok) {
    bool a = slot != 2 && slot != 5, b = slot != 1 && slot != 4;
    if (a && r[0] == SUCCESS) FAIL("garbler accepts " + Q(h) + " as " + Field(slot));
    if (b && r[1] == SUCCESS) FAIL("evaluator accepts " + Q(h) + " as " + Field(slot));
  } else {
    if (r[0] != SUCCESS || r[1] != SUCCESS) FAIL("session refuses " + Q(h) + " as " + Field(slot));
    Bits w0, w1;
    for (int t = 0; t < cc; t++) {
      Bits row;
      for (int s = 0; s < 3; s++) row.insert(row.end(), vals[s].begin(), vals[s].end());
      for (int s = 3; s < 6; s++) row.insert(row.end(), vals[s].begin() + t * w, vals[s].begin() + (t + 1) * w);
      row.push_back(vals[3][t * w] & vals[4][t * w]);
      for (size_t i = 0; i < row.size(); i++) { bool m = vals[6][i]; w0.push_back(row[i] && m); w1.push_back(row[i] && !m); }
      want.insert(want.end(), row.begin(), row.end());
    }
    Bits g0, g1;
    if (!HexVal(o[0], &g0) || Norm(g0) != Norm(w0)) FAIL(Field(slot) + " " + Q(h) + " of " + std::to_string(w) + " bits: the garbler's output is " + Q(o[0]) + ", expected bits " + Q(Norm(w0)));
    if (!HexVal(o[1], &g1) || Norm(g1) != Norm(w1)) FAIL(Field(slot) + " " + Q(h) + " of " + std::to_string(w) + " bits: the evaluator's output is " + Q(o[1]) + ", expected bits " + Q(Norm(w1)));
  }
  if (slot < 6) {
    r[2] = EvalauatePlaintextStr(path, v[0], v[1], v[2], v[3], v[4], v[5], cc, 0, OutputMode::consecutive, &o[2]);
    Bits g;
    if (!ok && r[2] == SUCCESS) FAIL("plaintext evaluator accepts " + Q(h) + " as " + Field(slot));
    if (ok && r[2] != SUCCESS) FAIL("plaintext evaluator refuses " + Q(h) + " as " + Field(slot));
    if (ok && (!HexVal(o[2], &g) || Norm(g) != Norm(want))) FAIL(Field(slot) + " " + Q(h) + " of " + std::to_string(w) + " bits: the plaintext evaluator's output is " + Q(o[2]));
  }
  return "";
}
string FEcho(Ctx& x, long slot, long w, long n) {
  for (int opt = 0; opt < (n % 3 ? 1 : 4); opt++) {
    if (n <= 1) {
      long t = n ? 22 : 1;
      for (long k = 0; k < t; k++) { string h = n ? string(1, kHexA[k]) : ""; string e = EchoRun(x, slot, w, h, true, opt); if (!e.empty()) return e; }
    } else {
      for (int kind = 0; kind < 10; kind++) { string e = EchoRun(x, slot, w, HexStr(n, kind), true, opt); if (!e.empty()) return e; }
    }
  }
  return "";
}
string FEchoBad(Ctx& x, long slot, long n, long pos) {
  for (const char* b = kBadChars; *b; b++) {
    string h = HexStr(n, 6);
    h[pos] = *b;
    string e = EchoRun(x, slot, 4, h, false, (int) ((n + pos + *b) % 4));
    if (!e.empty()) return e;
  }
  return "";
}
// Inputs given as files: every split of a string into lines, with or without final newline
string FFile(Ctx& x, long n, long splits, long style) {
  string h = HexStr(n, 7), path = ScratchDir() + "/hex.txt", body, cur;
  vector<string> lines;
  for (long i = 0; i < n; i++) { cur += h[i]; if (i == n - 1 || (splits >> i) & 1) { lines.push_back(cur); cur = ""; } }
  if (style & 2) { lines.insert(lines.begin() + lines.size() / 2, ""); }
  string want;
  for (size_t i = 0; i < lines.size(); i++) { body += lines[i]; if (i + 1 < lines.size() || !(style & 1)) body += "\n"; want = lines[i] + want; }
  FILE* f = fopen(path.c_str(), "w");
  fwrite(body.data(), 1, body.size(), f);
  fclose(f);
  string got = ReadFileOrPassHex(path);
  unlink(path.c_str());
  Tick(x, "file" + body, got);
  if (got != want) FAIL("file with contents " + Q(body) + " is read as " + Q(got) + ", expected " + Q(want));
  string pass = ReadFileOrPassHex(h);
  if (pass != h) FAIL("the string " + Q(h) + " is read as " + Q(pass));
  string none = ReadFileOrPassHex(path);
  if (none != path) FAIL("a missing file name is read as " + Q(none));
  return "";
}
// Long lines and long files: n characters in lines of `line` characters (0: one line), style as above
string FLongFile(Ctx& x, long n, long line, long style) {
  string h, path = ScratchDir() + "/hex.txt", body, want;
  for (long i = 0; i < n; i++) h += kHexA[(i * 7 + i / 16 * 5 + n) % 22];
  if (!line) line = n;
  vector<string> lines;
  if (style & 2) lines.push_back("12");
  for (long i = 0; i < n; i += line) lines.push_back(h.substr(i, line));
  if (style & 2) lines.push_back("34");
  for (size_t i = lines.size(); i-- > 0;) want += lines[i];
  for (size_t i = 0; i < lines.size(); i++) { body += lines[i]; if (i + 1 < lines.size() || !(style & 1)) body += "\n"; }
  FILE* f = fopen(path.c_str(), "w");
  fwrite(body.data(), 1, body.size(), f);
  fclose(f);
  string got = ReadFileOrPassHex(path);
  unlink(path.c_str());
  Tick(x, "lf" + std::to_string(n) + "/" + std::to_string(line), got);
  if (got != want) {
    size_t i = 0;
    while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
    FAIL("a file of " + std::to_string(body.size()) + " bytes in " + std::to_string(lines.size()) + " lines is read as " + std::to_string(got.size()) + " digits instead of " + std::to_string(want.size()) + ", first difference at " + std::to_string(i));
  }
  return "";
}
// ------------------------------------------------------------------ C23
// independent AES (byte oriented, tables computed from the field arithmetic)
uint8_t Mul(uint8_t a, uint8_t b) { uint8_t r = 0; for (int i = 0; i < 8; i++) { if (b & 1) r ^= a; bool h = a & 0x80; a <<= 1; if (h) a ^= 0x1b; b >>= 1; } return r; }
struct Ref {
  uint8_t S[256], I[256];
  Ref() {
    for (int v = 0; v < 256; v++) {
      uint8_t inv = 0;
      for (int w = 1; w < 256 && v; w++) if (Mul(v, w) == 1) { inv = w; break; }
      uint8_t s = 0;
      for (int i = 0; i < 8; i++) s |= (((inv >> i) ^ (inv >> ((i + 4) % 8)) ^ (inv >> ((i + 5) % 8)) ^ (inv >> ((i + 6) % 8)) ^ (inv >> ((i + 7) % 8)) ^ (0x63 >> i)) & 1) << i;
      S[v] = s;
    }
    for (int v = 0; v < 256; v++) I[S[v]] = v;
  }
  // nk: key bytes (16, 24, 32); rk: 16 * (nk / 4 + 7) bytes
  void expand(const uint8_t* k, uint8_t* rk, int nk = 16) const {
    memcpy(rk, k, nk);
    uint8_t rc = 1;
    for (int i = nk; i < 16 * (nk / 4 + 7); i += 4) {
      uint8_t t[4];
      memcpy(t, rk + i - 4, 4);
      if (i % nk == 0) { uint8_t q = t[0]; t[0] = S[t[1]] ^ rc; t[1] = S[t[2]]; t[2] = S[t[3]]; t[3] = S[q]; rc = Mul(rc, 2); }
      else if (nk == 32 && i % nk == 16) for (int j = 0; j < 4; j++) t[j] = S[t[j]];
      for (int j = 0; j < 4; j++) rk[i + j] = rk[i - nk + j] ^ t[j];
    }
  }
  void enc(const uint8_t* k, const uint8_t* in, uint8_t* out, int nk = 16) const {
    uint8_t rk[240], s[16], t[16];
    const int nr = nk / 4 + 6;
    expand(k, rk, nk);
    for (int i = 0; i < 16; i++) s[i] = in[i] ^ rk[i];
    for (int r = 1; r <= nr; r++) {
      for (int c = 0; c < 4; c++) for (int w = 0; w < 4; w++) t[c * 4 + w] = S[s[((c + w) % 4) * 4 + w]];
      if (r < nr) for (int c = 0; c < 4; c++) for (int w = 0; w < 4; w++)
        s[c * 4 + w] = Mul(t[c * 4 + w], 2) ^ Mul(t[c * 4 + (w + 1) % 4], 3) ^ t[c * 4 + (w + 2) % 4] ^ t[c * 4 + (w + 3) % 4];
      else memcpy(s, t, 16);
      for (int i = 0; i < 16; i++) s[i] ^= rk[r * 16 + i];
    }
    memcpy(out, s, 16);
  }
};
const Ref kRef;
void Make16(uint8_t* o, long kind, long k) {
  memset(o, kind == 1 || kind == 3 ? 0xff : 0, 16);
  if (kind == 2 || kind == 3) o[k / 8] ^= 1 << (k % 8);
  if (kind == 4) for (int i = 0; i < 16; i++) o[i] = i * 0x11;
  if (kind == 5) for (int i = 0; i < 16; i++) o[i] = i;
  if (kind == 6) { const uint8_t K[16] = {0x2b, 0x7e, 0x15, 0x16, 0x28, 0xae, 0xd2, 0xa6, 0xab, 0xf7, 0x15, 0x88, 0x09, 0xcf, 0x4f, 0x3c}; memcpy(o, K, 16); }
  if (kind == 7) { const uint8_t K[16] = {0x32, 0x43, 0xf6, 0xa8, 0x88, 0x5a, 0x30, 0x8d, 0x31, 0x31, 0x98, 0xa2, 0xe0, 0x37, 0x07, 0x34}; memcpy(o, K, 16); }
  if (kind == 8) { o[k % 16] = k / 16; }               // every value of every byte
  if (kind == 9) for (int i = 0; i < 16; i++) o[i] = (uint8_t) (k * 0x9d + i * (2 * k + 1) * 0x35 + (k >> 3));
}
// n bytes that end where the memory ends
uint8_t* EdgeBytes(const void* p, size_t n) {
  static uint8_t* e = nullptr;
  if (!e) {
    char* m = (char*) mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(m + 4096, 4096, PROT_NONE);
    e = (uint8_t*) m + 4096;
  }
  memcpy(e - n, p, n);
  return e - n;
}
string CheckAes(Ctx& x, const uint8_t* key, const vector<string>& blocks, int nk = 16) {
  uint8_t* kb = EdgeBytes(key, nk);
  uint8_t rk[240];
  const int bits = nk * 8, nr = nk / 4 + 6;
  kRef.expand(key, rk, nk);
  for (int api = 0; api < 2; api++) {
    AES_KEY k;
    memset(&k, 0xa5, sizeof k);
    if (api == 0) { (nk == 16 ? AES128KeyExpansion : nk == 24 ? AES192KeyExpansion : AES256KeyExpansion)(kb, &k); k.rounds = nr; }
    else if (AESSetEncryptKey(kb, bits, &k) != 0) FAIL("AESSetEncryptKey fails");
    if (k.rounds != nr) FAIL("AESSetEncryptKey sets " + std::to_string(k.rounds) + " rounds");
    if (memcmp(&k.rd_key, rk, 16 * (nr + 1))) FAIL("wrong key schedule for key " + HexOf(key, nk));
    vector<block> v(blocks.size() + 1);
    for (size_t i = 0; i < blocks.size(); i++) memcpy(&v[i], blocks[i].data(), 16);
    memset(&v[blocks.size()], 0x5c, 16);
    if (!v.empty()) AESEcbEncryptBlks(v.data(), blocks.size(), &k);
    vector<string> want;
    for (size_t i = 0; i < blocks.size(); i++) {
      uint8_t o[16];
      kRef.enc(key, (const uint8_t*) blocks[i].data(), o, nk);
      want.push_back(string((char*) o, 16));
      Tick(x, "aes" + string((const char*) key, nk) + blocks[i] + std::to_string(blocks.size()), want.back());
      if (memcmp(&v[i], o, 16)) FAIL("block " + std::to_string(i) + " of " + std::to_string(blocks.size()) + ": AES of " + HexOf(blocks[i]) + " under " + HexOf(key, nk) + " gives " + HexOf(&v[i], 16) + ", expected " + HexOf(o, 16));
      alignas(16) uint8_t in[16], out[16];
      memcpy(in, blocks[i].data(), 16);
      AESEncrypt(in, out, &k);
      if (memcmp(out, o, 16)) FAIL("AESEncrypt of " + HexOf(blocks[i]) + " under " + HexOf(key, nk) + " gives " + HexOf(out, 16));
    }
    block guard;
    memset(&guard, 0x5c, 16);
    if (memcmp(&v[blocks.size()], &guard, 16)) FAIL("encrypting " + std::to_string(blocks.size()) + " blocks changes the next one");
    AES_KEY dk, dk2;
    memset(&dk, 0, sizeof dk);
    AESSetDecryptKey(kb, bits, &dk);
    AESSetEncryptKey(kb, bits, &k);
    memset(&dk2, 0, sizeof dk2);
    AESSetDecryptKeyFast(&dk2, &k);
    for (AES_KEY* d : {&dk, &dk2}) {
      vector<block> u(v.begin(), v.end() - 1);
      u.resize(v.size());
      AESEcbDecryptBlks(u.data(), blocks.size(), d);
      for (size_t i = 0; i < blocks.size(); i++) {
        if (memcmp(&u[i], blocks[i].data(), 16)) FAIL("decryption does not undo encryption of " + HexOf(blocks[i]) + " under " + HexOf(key, nk));
        alignas(16) uint8_t in[16], out[16];
        memcpy(in, want[i].data(), 16);
        AESDecrypt(in, out, d);
        if (memcmp(out, blocks[i].data(), 16)) FAIL("AESDecrypt does not undo encryption of " + HexOf(blocks[i]));
      }
    }
  }
  return "";
}
// c: 0, 1, 2 for keys of 128, 192, 256 bits
int MakeKey(uint8_t* key, long kind, long k, long c) {
  const int nk = 16 + 8 * c;
  uint8_t t[16];
  memset(key, kind == 1 || kind == 3 ? 0xff : 0, 32);
  if (kind == 2 || kind == 3 || kind == 8) {   // one bit or one byte: in any place of the key
    const long n = kind == 8 ? nk : nk * 8, p = k % n;
    if (kind == 8) key[p] = k / nk; else key[p / 8] ^= 1 << (p % 8);
  } else {
    Make16(key, kind, k);
    Make16(t, kind == 6 ? 4 : kind, k * 3 + 1);
    for (int i = 16; i < nk; i++) key[i] = kind == 4 || kind == 5 ? key[15] + (i - 15) * (key[1] - key[0]) : kind == 1 ? 0xff : t[i - 16];
  }
  return nk;
}
// key kind a (index b), a slice of blocks
string FAes(Ctx& x, long kind, long k, long c) {
  uint8_t key[32], b[16];
  const int nk = MakeKey(key, kind, k, c);
  vector<string> bl;
  auto add = [&](long kd, long kk) { Make16(b, kd, kk); bl.push_back(string((char*) b, 16)); };
  for (int i = 0; i < (c ? 16 : 128); i++) { add(2, c ? i * 8 + k % 8 : i); add(3, c ? i * 8 + (k + 3) % 8 : i); }
  for (int i : {0, 1, 4, 5, 6, 7}) add(i, 0);
  for (int i = 0; i < (c ? 8 : 64); i++) add(9, i);
  return CheckAes(x, key, bl, nk);
}
string FAesBlk(Ctx& x, long kind, long from, long c) {   // every value of every byte
  uint8_t key[32], b[16];
  const int nk = MakeKey(key, kind, 3, c);
  vector<string> bl;
  for (int i = 0; i < 256; i++) { Make16(b, 8, from * 256 + i); bl.push_back(string((char*) b, 16)); }
  return CheckAes(x, key, bl, nk);
}
string FAesN(Ctx& x, long n, long kind, long c) {   // n blocks at a time
  uint8_t key[32], b[16];
  const int nk = MakeKey(key, kind, 5, c);
  vector<string> bl;
  for (int i = 0; i < n; i++) { Make16(b, 9, i + n); bl.push_back(string((char*) b, 16)); }
  return CheckAes(x, key, bl, nk);
}
// the independent implementation agrees with published vectors and with the crypto library
string FAesRef(Ctx& x, long k, long, long c) {
  uint8_t key[32], in[16], out[16], o2[32];
  const int nk = 16 + 8 * c;
  const char* vec[] = {"69c4e0d86a7b0430d8cdb78070b4c55a", "dda97ca4864cdfe06eaf70a0ec0d7191", "8ea2b7ca516745bfeafc49904b496089"};   // FIPS-197 C
  if (k == 0) { MakeKey(key, 5, 0, c); Make16(in, 4, 0); kRef.enc(key, in, out, nk); if (HexOf(out, 16) != vec[c]) FAIL("harness: reference AES is wrong (FIPS-197 C)"); }
  if (k == 1) { Make16(key, 6, 0); Make16(in, 7, 0); kRef.enc(key, in, out); if (HexOf(out, 16) != "3925841d02dc09fbdc118597196a0b32") FAIL("harness: reference AES is wrong (FIPS-197 B)"); }
  MakeKey(key, k % 2 ? 9 : 8, k * 37, c); Make16(in, 9, k * 7 + 1);
  kRef.enc(key, in, out, nk);
  EVP_CIPHER_CTX* cx = EVP_CIPHER_CTX_new();
  int l = 0;
  EVP_EncryptInit_ex(cx, c == 0 ? EVP_aes_128_ecb() : c == 1 ? EVP_aes_192_ecb() : EVP_aes_256_ecb(), nullptr, key, nullptr);
  EVP_CIPHER_CTX_set_padding(cx, 0);
  EVP_EncryptUpdate(cx, o2, &l, in, 16);
  EVP_CIPHER_CTX_free(cx);
  x.transitions++;
  if (l != 16 || memcmp(o2, out, 16)) FAIL("harness: reference AES disagrees with the crypto library");
  return "";
}
struct F { const char* name; CaseFn fn; };
const F kF[] = {{"tsh", FTsh}, {"d2b", FD2b}, {"b2d", FB2d}, {"two", FTwo}, {"b2h", FB2h}, {"h2b", FH2b}, {"fmt", FFmt}, {"mask", FMask}, {"out", FOut}, {"icmp", FIcmp},
                {"bnxor", FBnXor}, {"bninv", FBnInv}, {"switch", FSwitch},
                {"hexok", FHexOk}, {"hexbad", FHexBad}, {"hexbyte", FHexByte}, {"echo", FEcho}, {"echobad", FEchoBad}, {"file", FFile}, {"lfile", FLongFile},
                {"aes", FAes}, {"aesblk", FAesBlk}, {"aesn", FAesN}, {"aesref", FAesRef}};
void RunCase(Ctx& x, const string& name, long a, long b, long c) {
  for (auto& f : kF) if (name == f.name) {
    string d = name + ":a=" + std::to_string(a) + ";b=" + std::to_string(b) + ";c=" + std::to_string(c), e;
    x.begin(d);
    try { e = f.fn(x, a, b, c); } catch (std::exception& ex) { e = string("exception escapes: ") + ex.what(); }
    if (x.evals % 61 == 3) x.sample(d + " -> " + (e.empty() ? "ok" : e));
    if (!e.empty()) x.violation(d, e);
  }
}
void Do(Ctx& x, const string& name, long a, long b = 0, long c = 0) { if (!x.stopped() && x.mine()) RunCase(x, name, a, b, c); }
void Replay(Ctx& x, const string& s) {
  size_t p = s.find(':');
  KV k(s.substr(p + 1));
  RunCase(x, s.substr(0, p), k.geti("a"), k.geti("b"), k.geti("c"));
}
void C20(Ctx& x) {
  bool T = x.thorough();
  for (int p = 0; p <= 20; p++) Do(x, "tsh", p);
  for (int n = 0; n <= 64; n++) Do(x, "d2b", n);
  for (int n = 1; n <= 64; n++) Do(x, "b2d", n);
  for (int n = 65; n <= (T ? 400 : 140); n++) Do(x, "two", n);
  if (!x.mem) for (long n : {65535, 65536, 65537, 70000}) { Do(x, "b2h", n); Do(x, "h2b", n); Do(x, "two", T ? n / 16 : n / 256); }
  for (int n = 1; n <= (T ? 700 : 300); n++) Do(x, "b2h", n);
  for (int n = 0; n <= (T ? 700 : 300); n++) Do(x, "h2b", n);
  for (int a = 0; a < kNW; a++) for (int b = -1; b < kNW; b++) for (int c = -1; c < kNW; c++) if (b >= 0 || c < 0) if (T || c < 0 || (a + b + c) % 3 == 0) Do(x, "fmt", a, b, c);
  for (int l = 0; l < 2; l++) {
    for (int g = 0; g <= (T ? 160 : 70); g++) for (int e = 0; e <= (T ? 160 : 70); e++) Do(x, "mask", g, e, l);
    for (int g : {0, 1, 255, 256, 257, 1000, 32768, 65535}) for (int e : {0, 1, 255, 256, 257, 1000, 32768, 65535}) Do(x, "mask", g, e, l);
  }
  for (int l = 0; l < 2; l++) for (int n = 1; n <= (T ? 260 : 70); n++) for (int cc = 1; cc <= 5; cc++) Do(x, "out", n, cc, l);
  for (int n = 0; n <= 2; n++) for (int m = 0; m <= 2; m++) Do(x, "icmp", n, m);
  for (int n = 1; n <= (T ? 300 : 140); n++) { Do(x, "bnxor", n); Do(x, "bninv", n); }
  for (int n : {767, 768, 769, 1024, 2000}) { Do(x, "bnxor", n); Do(x, "bninv", n); }
  for (int p = 0; p < 2; p++) {
    for (int r = 1; r <= (T ? 33 : 18); r++) for (int c = 1; c <= (T ? 33 : 18); c++) Do(x, "switch", r, c, p);
    for (int r : {63, 64, 65, 127, 128, 129}) for (int c : {1, 7, 8, 9, 127, 128, 129, 767, 768}) { Do(x, "switch", r, c, p); Do(x, "switch", c, r, p); }
  }
}
void C21(Ctx& x) {
  bool T = x.thorough();
  for (int n = 0; n <= 2; n++) Do(x, "hexok", n);
  for (int n = 3; n <= (T ? 600 : 140); n++) Do(x, "hexok", n);
  Do(x, "hexok", 5000);
  for (int n = 1; n <= (T ? 64 : 34); n++) for (int p = 0; p < n; p++) Do(x, "hexbad", n, p);
  for (int n = 1; n <= (T ? 20 : 4); n++) for (int p = 0; p < n; p++) Do(x, "hexbyte", n, p);
  for (int s = 0; s < 7; s++) {
    for (int w = 1; w <= (T ? 70 : 17); w++) for (int n = 0; n <= (T ? 12 : 6) + w / 2; n++) Do(x, "echo", s, w, n);
    for (int w : {31, 32, 33, 63, 64, 65, 127, 128, 129}) for (int d : {-1, 0, 1, 2}) { Do(x, "echo", s, w, (w + 3) / 4 + d); Do(x, "echo", s, w, (2 * w + 3) / 4 + d); }
    for (int n = 1; n <= (T ? 12 : 6); n++) for (int p = 0; p < n; p++) Do(x, "echobad", s, n, p);
  }
  // every size around a power of two up to 64k (1M), in one line or in lines of sizes around a power of two
  for (int p = 4; p <= (T ? 20 : 16); p++) for (int d = -2; d <= 2; d++) {
    long n = (1l << p) + d;
    for (int st = 0; st < 4; st++) Do(x, "lfile", n, 0, st);
    for (int q = 6; q < p && q < 14; q += T ? 1 : 3) if (p <= 16) for (int e = -1; e <= 1; e++) Do(x, "lfile", n, (1l << q) + e, 2);
  }
  for (int n = 1; n <= (T ? 12 : 8); n++) for (long sp = 0; sp < 1l << (n - 1); sp++) for (int st = 0; st < 4; st++) Do(x, "file", n, sp, st);
}
void C23(Ctx& x) {
  bool T = x.thorough();
  for (int c = 0; c < 3; c++) {
    const int nk = 16 + 8 * c;
    for (int k = 0; k < 64; k++) Do(x, "aesref", k, 0, c);
    for (int k = 0; k < nk * 8; k++) { Do(x, "aes", 2, k, c); Do(x, "aes", 3, k, c); }
    for (int kd : {0, 1, 4, 5, 6, 7}) { Do(x, "aes", kd, 0, c); if (c == 0 || T) for (int f = 0; f < 16; f++) Do(x, "aesblk", kd, f, c); }
    for (int k = 0; k < 256 * nk; k += T ? 1 : 5) Do(x, "aes", 8, k, c);
    for (int k = 0; k < (T ? 2000 : 200); k++) Do(x, "aes", 9, k, c);
    for (int n = 0; n <= (T ? 600 : c ? 12 : 70); n++) for (int kd : {0, 5, 6, 9}) Do(x, "aesn", n, kd, c);
  }
}
PropReg r20("C20", C20, Replay);
PropReg r21("C21", C21, Replay);
PropReg r23("C23", C23, Replay);
}
