// C24: the bundled processor programs. Each program is run natively (as the project builds it)
// and, from the shipped memory image p.txt, on an interpreter of the processor's instruction set.
#include "core.h"
#include <dirent.h>
#include <dlfcn.h>
#include <link.h>
#include <math.h>
#include <unistd.h>
#include <algorithm>
#include <openssl/evp.h>

namespace {
typedef vector<uint32_t> W;
struct Prog { const char* name; int g, e, o; };
const Prog kProgs[] = {{"sum", 32, 32, 32}, {"compare", 32, 32, 1}, {"hamming", 1, 1, 1}, {"mul", 1, 1, 1}, {"bubble-sort", 32, 32, 32}, {"merge-sort", 32, 32, 32},
                       {"matrix-mul", 9, 9, 9}, {"dijkstra", 64, 64, 8}, {"aes", 4, 4, 4}, {"sbox", 1, 1, 1}, {"sha3", 2, 2, 8}, {"cordic", 1, 1, 2}, {"mem-test", 1, 1, 64}};
const int kNP = sizeof kProgs / sizeof *kProgs;
// ---------------------------------------------------------------- references
uint8_t Mul8(uint8_t a, uint8_t b) { uint8_t r = 0; for (int i = 0; i < 8; i++) { if (b & 1) r ^= a; bool h = a & 0x80; a <<= 1; if (h) a ^= 0x1b; b >>= 1; } return r; }
struct SB { uint8_t s[256]; SB() {
  for (int v = 0; v < 256; v++) {
    uint8_t q = 0, r = 0;
    for (int w = 1; w < 256 && v; w++) if (Mul8(v, w) == 1) { q = w; break; }
    for (int i = 0; i < 8; i++) r |= (((q >> i) ^ (q >> ((i + 4) % 8)) ^ (q >> ((i + 5) % 8)) ^ (q >> ((i + 6) % 8)) ^ (q >> ((i + 7) % 8)) ^ (0x63 >> i)) & 1) << i;
    s[v] = r;
  } } };
const SB kSB;
// Fills the expected output; for cordic checks the tolerance itself (returns empty vector and message).
const int kCordicTol = 80;   // units of 2^-30; 32 truncating iterations and a table rounded to one unit
string CheckOut(const string& p, const W& g, const W& e, const W& o) {
  W w;
  if (p == "sum") { uint64_t c = 0; for (int i = 0; i < 32; i++) { c += (uint64_t) g[i] + e[i]; w.push_back((uint32_t) c); c >>= 32; } }
  else if (p == "compare") { int r = 0; for (int i = 31; i >= 0; i--) if (g[i] != e[i]) { r = g[i] < e[i]; break; } w = {(uint32_t) r}; }
  else if (p == "hamming") w = {(uint32_t) __builtin_popcount(g[0] ^ e[0])};
  else if (p == "mul") w = {g[0] * e[0]};
  else if (p == "bubble-sort" || p == "merge-sort") { vector<int32_t> v; for (int i = 0; i < 32; i++) v.push_back((int32_t) (g[i] ^ e[i])); std::sort(v.begin(), v.end()); w.assign(v.begin(), v.end()); }
  else if (p == "matrix-mul") { for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { uint32_t t = 0; for (int k = 0; k < 3; k++) t += g[i * 3 + k] * e[k * 3 + j]; w.push_back(t); } }
  else if (p == "dijkstra") {
    long d[8];
    for (int i = 0; i < 8; i++) d[i] = i ? 1l << 40 : 0;
    for (int r = 0; r < 8; r++) for (int u = 0; u < 8; u++) for (int v = 0; v < 8; v++) { long a = g[8 * u + v] ^ e[8 * u + v]; if (a && d[u] + a < d[v]) d[v] = d[u] + a; }
    for (int i = 0; i < 8; i++) w.push_back(d[i] >= 1l << 40 ? 32767 : (uint32_t) d[i]);
  }
  else if (p == "aes") {
    uint8_t m[16], c[16];
    memcpy(m, e.data(), 16);
    static EVP_CIPHER_CTX* ctx = EVP_CIPHER_CTX_new();
    int l = 0;
    EVP_EncryptInit_ex(ctx, EVP_aes_128_ecb(), nullptr, (const uint8_t*) g.data(), nullptr);
    EVP_CIPHER_CTX_set_padding(ctx, 0);
    EVP_EncryptUpdate(ctx, c, &l, m, 16);
    w.resize(4);
    memcpy(w.data(), c, 16);
  }
  else if (p == "sbox") w = {kSB.s[(g[0] ^ e[0]) & 255]};
  else if (p == "sha3") {
    uint8_t m[16], h[64];
    memcpy(m, g.data(), 8);
    memcpy(m + 8, e.data(), 8);
    unsigned n = 0;
    static const EVP_MD* md = EVP_sha3_256();
    EVP_Digest(m, 16, h, &n, md, nullptr);
    w.resize(8);
    memcpy(w.data(), h, 32);
  }
  else if (p == "mem-test") { for (int i = 0; i < 64; i++) w.push_back(i); }
  else if (p == "cordic") {
    double th = (int32_t) (g[0] ^ e[0]) / 1073741824.0;
    double s = sin(th) * 1073741824.0, c = cos(th) * 1073741824.0;
    double ds = fabs((double) (int32_t) o[0] - s), dc = fabs((double) (int32_t) o[1] - c);
    if (ds > kCordicTol || dc > kCordicTol) {
      char b[200];
      snprintf(b, sizeof b, "angle %.9f gives sine %d and cosine %d, expected %.1f and %.1f (in units of 2^-30)", th, (int32_t) o[0], (int32_t) o[1], s, c);
      return b;
    }
    return "";
  }
  for (size_t i = 0; i < w.size(); i++) if (o[i] != w[i]) {
    char b[120];
    snprintf(b, sizeof b, "output word %zu is %08x, expected %08x", i, o[i], w[i]);
    return b;
  }
  return "";
}
// ------------------------------------------------------------ native programs
// Saving and restoring a program's data walks over the detector's red zones.
__attribute__((no_sanitize("address"), optimize("no-tree-loop-distribute-patterns"))) void RawCopy(char* d, const char* s, size_t n) {
  for (size_t i = 0; i < n; i++) d[i] = s[i];
}
struct Native {
  void* h = nullptr;
  void (*fn)(const int*, const int*, int*) = nullptr;
  struct Seg { char* p; string v; };
  vector<Seg> segs;
  string err;
  void load(const string& name) {
    const char* d = getenv("VERIF_A23");
    string path = string(d ? d : ".") + "/" + name + ".so";
    h = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!h) { err = dlerror(); return; }
    for (const char* s : {"_Z7gc_mainPKiS0_Pi", "gc_main"}) if (!fn) fn = (void (*)(const int*, const int*, int*)) dlsym(h, s);
    if (!fn) { err = "no gc_main in " + name; return; }
    struct link_map* lm = nullptr;
    dlinfo(h, RTLD_DI_LINKMAP, &lm);
    struct Arg { ElfW(Addr) base; Native* n; } arg = {lm->l_addr, this};
    dl_iterate_phdr([](struct dl_phdr_info* i, size_t, void* a) {
      Arg* q = (Arg*) a;
      if (i->dlpi_addr != q->base) return 0;
      for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_W)) {
        char* p = (char*) i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
        q->n->segs.push_back({p, string(i->dlpi_phdr[k].p_memsz, 0)});
        RawCopy(&q->n->segs.back().v[0], p, i->dlpi_phdr[k].p_memsz);
      }
      return 1;
    }, &arg);
  }
  // a fresh run of the program: its data as loaded
  string run(const Prog& P, const W& g, const W& e, W* o) {
    if (!fn) return "cannot load: " + err;
    for (auto& s : segs) RawCopy(s.p, s.v.data(), s.v.size());
    if (g_ctx && g_ctx->mem) {   // exact allocations, watched by the detector
      W gb(g.begin(), g.end()), eb(e.begin(), e.end()), ob(P.o, 0);
      gb.resize(P.g); eb.resize(P.e);
      gb.shrink_to_fit(); eb.shrink_to_fit();
      fn((const int*) gb.data(), (const int*) eb.data(), (int*) ob.data());
      *o = ob;
      return "";
    }
    const uint32_t guard = 0x5aa5c33c;
    W gb(P.g + 16, guard), eb(P.e + 16, guard), ob(P.o + 16, guard);
    std::copy(g.begin(), g.end(), gb.begin() + 8);
    std::copy(e.begin(), e.end(), eb.begin() + 8);
    std::fill(ob.begin() + 8, ob.begin() + 8 + P.o, 0);
    W g0 = gb, e0 = eb;
    fn((const int*) gb.data() + 8, (const int*) eb.data() + 8, (int*) ob.data() + 8);
    if (gb != g0 || eb != e0) return "the program changes its inputs";
    for (int i = 0; i < 8; i++) if (ob[i] != guard || ob[8 + P.o + i] != guard) return "the program writes outside its output";
    o->assign(ob.begin() + 8, ob.begin() + 8 + P.o);
    return "";
  }
};
// ------------------------------------------- interpreter for the shipped images
// ARMv2a, 26 bit mode: r15 holds the flags in bits 28-31, the mode in 0-1.
struct Arm {
  W rom;
  vector<uint32_t> mem, gm, em, om, st;
  uint32_t r[16];
  bool N, Z, C, V;
  uint32_t pc;
  string err;
  long steps;
  uint32_t* at(uint32_t a, bool write) {
    uint32_t i = (a & 0xffffff) >> 2;
    switch (a >> 24) {
      case 0: if (i < mem.size()) return &mem[i]; break;
      case 1: if (!write && i < gm.size()) return &gm[i]; break;
      case 2: if (!write && i < em.size()) return &em[i]; break;
      case 3: if (i < om.size()) return &om[i]; break;
      case 4: if (i < st.size()) return &st[i]; break;
    }
    if (err.empty()) { char b[80]; snprintf(b, sizeof b, "%s outside the memory map at %08x", write ? "write" : "read", a); err = b; }
    return nullptr;
  }
  uint32_t rd(uint32_t a) { uint32_t* p = at(a, false); return p ? *p : 0; }
  void wr(uint32_t a, uint32_t v) { uint32_t* p = at(a, true); if (p) *p = v; }
  uint32_t flags() { return (uint32_t) N << 31 | (uint32_t) Z << 30 | (uint32_t) C << 29 | (uint32_t) V << 28; }
  uint32_t reg(int n, int ahead) { return n == 15 ? (((pc + ahead) & 0x03fffffc) | flags() | 3) : r[n]; }
  uint32_t regpc(int n, int ahead) { return n == 15 ? ((pc + ahead) & 0x03fffffc) : r[n]; }
  bool cond(int c) {
    switch (c) {
      case 0: return Z; case 1: return !Z; case 2: return C; case 3: return !C; case 4: return N; case 5: return !N; case 6: return V; case 7: return !V;
      case 8: return C && !Z; case 9: return !C || Z; case 10: return N == V; case 11: return N != V; case 12: return !Z && N == V; case 13: return Z || N != V; case 14: return true;
    }
    return false;
  }
  uint32_t shift(uint32_t in, bool* co) {
    *co = C;
    if (in & (1 << 25)) { uint32_t v = in & 255; int s = (in >> 8 & 15) * 2; if (!s) return v; v = v >> s | v << (32 - s); *co = v >> 31; return v; }
    return shreg(in, co, false);
  }
  uint32_t shreg(uint32_t in, bool* co, bool immonly) {
    *co = C;
    int rm = in & 15, ty = in >> 5 & 3;
    bool byreg = (in & 16) && !immonly;
    uint32_t v = regpc(rm, byreg ? 12 : 8);
    uint32_t s = byreg ? regpc(in >> 8 & 15, 12) & 255 : in >> 7 & 31;
    if (byreg && s == 0) return v;
    if (!byreg && s == 0) {
      if (ty == 0) return v;
      if (ty == 3) { uint32_t q = (uint32_t) C << 31 | v >> 1; *co = v & 1; return q; }
      s = 32;
    }
    switch (ty) {
      case 0: if (s > 32) { *co = 0; return 0; } if (s == 32) { *co = v & 1; return 0; } *co = v >> (32 - s) & 1; return v << s;
      case 1: if (s > 32) { *co = 0; return 0; } if (s == 32) { *co = v >> 31; return 0; } *co = v >> (s - 1) & 1; return v >> s;
      case 2: if (s >= 32) { *co = v >> 31; return v >> 31 ? ~0u : 0; } *co = v >> (s - 1) & 1; return (uint32_t) ((int32_t) v >> s);
      default: s &= 31; if (!s) { *co = v >> 31; return v; } v = v >> s | v << (32 - s); *co = v >> 31; return v;
    }
  }
  void setpc(uint32_t v, bool fl) {
    pc = v & 0x03fffffc;
    if (fl) { N = v >> 31; Z = v >> 30 & 1; C = v >> 29 & 1; V = v >> 28 & 1; }
  }
  string run(const W& image, const Prog& P, const W& g, const W& e, W* o, long limit) {
    mem.assign(4096, 0);
    std::copy(image.begin(), image.end(), mem.begin());
    gm = g; em = e;
    gm.resize(64); em.resize(64);
    om.assign(64, 0);
    st.assign(64, 0);
    memset(r, 0, sizeof r);
    N = Z = C = V = false;
    pc = 0;
    err.clear();
    for (steps = 0; steps < limit && err.empty(); steps++) {
      uint32_t in = rd(pc), here = pc;
      if (in == 0xeafffffe) {   // END: b END
        for (size_t i = P.o; i < om.size(); i++) if (om[i]) return "the program writes outside its output";
        o->assign(om.begin(), om.begin() + P.o);
        return "";
      }
      pc = here;
      if (!cond(in >> 28)) { pc = here + 4; continue; }
      if ((in & 0x0fc000f0) == 0x90) {  // MUL, MLA
        uint32_t v = r[in & 15] * r[in >> 8 & 15];
        if (in & (1 << 21)) v += r[in >> 12 & 15];
        r[in >> 16 & 15] = v;
        if (in & (1 << 20)) { N = v >> 31; Z = !v; }
        pc = here + 4;
      } else if ((in & 0x0fb00ff0) == 0x01000090) {  // SWP
        uint32_t a = r[in >> 16 & 15], v = rd(a & ~3u);
        if (in & (1 << 22)) { int k = (a & 3) * 8; uint32_t nv = (v & ~(255u << k)) | (r[in & 15] & 255) << k; wr(a & ~3u, nv); v = v >> k & 255; } else wr(a & ~3u, r[in & 15]);
        r[in >> 12 & 15] = v;
        pc = here + 4;
      } else if ((in & 0x0c000000) == 0) {  // data processing
        bool imm = in & (1 << 25), byreg = !imm && (in & 16), S = in & (1 << 20), co;
        if (byreg && (in & 0x80)) { err = "unknown instruction"; break; }
        int op = in >> 21 & 15, rn = in >> 16 & 15, rdn = in >> 12 & 15;
        uint32_t b = shift(in, &co), a = regpc(rn, byreg ? 12 : 8), v = 0;
        uint64_t t;
        bool nv = V, nc = co, ar = false;
        auto add = [&](uint32_t x, uint32_t y, uint32_t c) { t = (uint64_t) x + y + c; v = (uint32_t) t; nc = t >> 32; nv = (~(x ^ y) & (x ^ v)) >> 31; ar = true; };
        switch (op) {
          case 0: case 8: v = a & b; break;
          case 1: case 9: v = a ^ b; break;
          case 2: case 10: add(a, ~b, 1); break;
          case 3: add(b, ~a, 1); break;
          case 4: case 11: add(a, b, 0); break;
          case 5: add(a, b, C); break;
          case 6: add(a, ~b, C); break;
          case 7: add(b, ~a, C); break;
          case 12: v = a | b; break;
          case 13: v = b; break;
          case 14: v = a & ~b; break;
          case 15: v = ~b; break;
        }
        pc = here + 4;
        if (op >= 8 && op <= 11) { if (!S) { err = "unknown instruction"; break; } N = v >> 31; Z = !v; C = nc; if (ar) V = nv; }
        else if (rdn == 15) setpc(v, S);
        else { r[rdn] = v; if (S) { N = v >> 31; Z = !v; C = nc; if (ar) V = nv; } }
      } else if ((in & 0x0c000000) == 0x04000000) {  // LDR, STR
        bool co;
        if ((in & 0x02000010) == 0x02000010) { err = "unknown instruction"; break; }
        uint32_t off = in & (1 << 25) ? shreg(in, &co, true) : in & 0xfff;
        int rn = in >> 16 & 15, rdn = in >> 12 & 15;
        uint32_t base = regpc(rn, 8), full = in & (1 << 23) ? base + off : base - off;
        bool pre = in & (1 << 24), wb = !pre || (in & (1 << 21)), byte = in & (1 << 22), load = in & (1 << 20);
        uint32_t a = pre ? full : base, v = 0;
        if (load) {
          v = rd(a & ~3u);
          int k = (a & 3) * 8;
          if (byte) v = v >> k & 255; else if (k) v = v >> k | v << (32 - k);
        } else {
          v = regpc(rdn, 12);
          if (byte) { uint32_t old = rd(a & ~3u); int k = (a & 3) * 8; v = (old & ~(255u << k)) | (v & 255) << k; }
          wr(a & ~3u, v);
        }
        if (wb && rn != 15) r[rn] = full;
        pc = here + 4;
        if (load) { if (rdn == 15) setpc(v, false); else r[rdn] = v; }
      } else if ((in & 0x0e000000) == 0x08000000) {  // LDM, STM
        int rn = in >> 16 & 15, n = __builtin_popcount(in & 0xffff);
        bool up = in & (1 << 23), pre = in & (1 << 24), load = in & (1 << 20), S = in & (1 << 22);
        uint32_t base = r[rn], lo = up ? base : base - 4 * n, a = lo + (up == pre ? 4 : 0), fin = up ? base + 4 * n : base - 4 * n;
        pc = here + 4;
        bool first = true, wb = in & (1 << 21);
        if (load && wb) r[rn] = fin;
        for (int i = 0; i < 16; i++) if (in >> i & 1) {
          if (load) { uint32_t v = rd(a & ~3u); if (i == 15) setpc(v, S); else r[i] = v; }
          else { uint32_t v = i == 15 ? (here + 12) : r[i]; wr(a & ~3u, v); if (first && wb) r[rn] = fin; }
          first = false;
          a += 4;
        }
        if (!load && wb) r[rn] = fin;
      } else if ((in & 0x0e000000) == 0x0a000000) {  // B, BL
        if (in & (1 << 24)) r[14] = ((here + 4) & 0x03fffffc) | flags() | 3;
        pc = (here + 8 + ((int32_t) (in << 8) >> 6)) & 0x03fffffc;
      } else err = "unknown instruction";
    }
    if (err.empty()) err = "the program does not end";
    char b[60];
    snprintf(b, sizeof b, " (at %08x after %ld steps)", pc, steps);
    return err + b;
  }
};
bool ReadImage(const string& name, W* im) {
  const char* d = getenv("VERIF_REPO_DIR");
  string path = string(d ? d : "/repo") + "/a23/" + name + "/p.txt";
  FILE* f = fopen(path.c_str(), "r");
  if (!f) return false;
  unsigned v;
  while (fscanf(f, "%x", &v) == 1) im->push_back(v);
  fclose(f);
  return true;
}
// ------------------------------------------------------------------- inputs
typedef std::function<bool(const W&, const W&)> Emit;
const uint32_t kB[] = {0, 1, 2, 3, 4, 7, 8, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7ffffffe, 0x7fffffff, 0x80000000, 0x80000001, 0xaaaaaaaa, 0x55555555, 0xdeadbeef, 0xfffffffe, 0xffffffff};
const int kNB = sizeof kB / sizeof *kB;
uint32_t Mix(uint64_t v) { v += 0x9e3779b97f4a7c15ull; v = (v ^ (v >> 30)) * 0xbf58476d1ce4e5b9ull; v = (v ^ (v >> 27)) * 0x94d049bb133111ebull; return (uint32_t) (v ^ (v >> 31)); }
#define EMIT(g, e) do { if (!emit(g, e)) return; } while (0)
void Shares(const W& v, int k, W* g, W* e) {   // xor shares, the k-th way
  g->resize(v.size()); e->resize(v.size());
  for (size_t i = 0; i < v.size(); i++) {
    uint32_t m = k == 0 ? 0 : k == 1 ? ~0u : k == 2 ? v[i] : Mix(k * 1000 + i);
    (*g)[i] = v[i] ^ m; (*e)[i] = m;
  }
}
void GenSum(bool T, bool cmp, const Emit& emit) {
  W g(32), e(32);
  for (int pos = 0; pos < 32; pos++) for (int a = 0; a < kNB; a++) for (int b = 0; b < kNB; b++) for (int lo = 0; lo < 3; lo++) for (int hi = 0; hi < (T ? 5 : 2); hi++) {
    for (int i = 0; i < 32; i++) {
      if (i < pos) { uint32_t q = Mix(i + 77 * pos); g[i] = lo == 0 ? q : lo == 1 ? ~0u : i ? ~q : 0; e[i] = lo == 0 ? q : lo == 1 ? (i ? 0 : 1) : i ? q : 1; }
      else if (i == pos) { g[i] = kB[a]; e[i] = kB[b]; }
      else { uint32_t q = Mix(i + 99 * pos); g[i] = hi == 0 ? 0 : hi == 1 ? q : hi == 2 ? ~0u : hi == 3 ? 0x80000000 : ~q; e[i] = cmp ? g[i] : hi == 4 ? q : hi == 1 ? ~q : hi == 2 ? 0 : hi == 3 ? 0x7fffffff : 0; }
    }
    EMIT(g, e);
  }
  // carries from word i through word j
  for (int i = 0; i < 32; i++) for (int j = i; j < 32; j++) for (int k = 0; k < 4; k++) {
    for (int t = 0; t < 32; t++) { g[t] = t > i && t <= j ? (k & 1 ? ~0u : 0) : t == i ? (k & 2 ? 0x80000000 : ~0u) : 0; e[t] = t > i && t <= j ? (k & 1 ? 0 : ~0u) : t == i ? (k & 2 ? 0x80000000 : 1) : 0; }
    EMIT(g, e);
    if (cmp) EMIT(e, g);
  }
}
void GenPair(bool T, const Emit& emit) {   // one word each
  for (int a = 0; a < kNB; a++) for (int b = 0; b < kNB; b++) EMIT(W{kB[a]}, W{kB[b]});
  for (int i = 0; i < 32; i++) for (int j = 0; j < 32; j++) { EMIT(W{1u << i}, W{1u << j}); EMIT(W{~(1u << i)}, W{1u << j}); EMIT(W{(1u << i) - 1}, W{(1u << j) - 1}); }
  for (int s = 0; s < 32; s += T ? 4 : 8) for (uint32_t a = 0; a < 256; a++) for (uint32_t b = 0; b < 256; b++) EMIT(W{a << s}, W{b << (T ? 28 - s : 24 - s)});
}
void GenHam(bool T, const Emit& emit) {
  GenPair(false, emit);
  for (uint32_t v = 0; v < 65536; v++) for (int h = 0; h < 3; h++) for (int k = 0; k < (T ? 5 : 3); k++) {
    W g, e;
    Shares(W{h == 0 ? v : h == 1 ? v << 16 : v << 8}, k, &g, &e);
    EMIT(g, e);
  }
  if (T) for (uint64_t v = 0; v < 1ull << 32; v += 97) EMIT(W{(uint32_t) v}, W{0x13579bdf});
}
void GenSort(bool T, const Emit& emit) {
  W v(32), g, e;
  long n = 0;
  auto out = [&]() { Shares(v, n++ % 5, &g, &e); return emit(g, e); };
  // all permutations of 6 (7) elements at every position among sorted, reversed or equal others
  int m = T ? 7 : 6;
  for (int off = 0; off + m <= 32; off += T ? 1 : 2) for (int bg = 0; bg < 3; bg++) {
    vector<int> p(m);
    for (int i = 0; i < m; i++) p[i] = i;
    do {
      for (int i = 0; i < 32; i++) v[i] = bg == 0 ? i * 3 : bg == 1 ? 100 - 3 * i : 50;
      for (int i = 0; i < m; i++) v[off + i] = p[i] * 17 - 10;
      if (!out()) return;
    } while (std::next_permutation(p.begin(), p.end()));
  }
  // all 0-1 sequences with few changes: sorted blocks of every length (0-1 principle instances)
  for (int a = 0; a <= 32; a++) for (int b = a; b <= 32; b++) for (int c = b; c <= 32; c++) for (int s = 0; s < 2; s++) {
    for (int i = 0; i < 32; i++) v[i] = (i < a ? 0 : i < b ? 1 : i < c ? 0 : 1) ^ s;
    if (!out()) return;
  }
  // every 0-1 sequence on 16 (thorough) or 12 positions spread over the array
  int bits = T ? 16 : 12;
  for (long k = 0; k < 1l << bits; k++) {
    for (int i = 0; i < 32; i++) v[i] = (k >> (i * bits / 32)) & 1 ? 5 : -5;
    if (!out()) return;
    for (int i = 0; i < 32; i++) v[i] = (k >> (i % bits)) & 1;
    if (!out()) return;
  }
  // extreme values
  const uint32_t x[] = {0x80000000, 0xffffffff, 0, 1, 0x7fffffff};
  for (int off = 0; off < 32; off += T ? 5 : 9) for (int k = 0; k < 3125; k++) {
    for (int i = 0, t = k; i < 32; i++) { v[i] = x[(i * 7 + k) % 5]; if (i >= off && i < off + 5) { v[i] = x[t % 5]; t /= 5; } }
    if (!out()) return;
  }
  for (int k = 0; k < (T ? 20000 : 2000); k++) { for (int i = 0; i < 32; i++) v[i] = k % 3 == 0 ? Mix(k * 32 + i) : k % 3 == 1 ? Mix(k * 32 + i) % 8 : Mix(k * 32 + i) % 40 - 20; if (!out()) return; }
}
void GenMat(bool T, const Emit& emit) {
  W g(9), e(9);
  for (long k = 0; k < 1l << 18; k++) {
    if (!T && k % 4 && __builtin_popcountl(k & 511) > 3 && __builtin_popcountl(k >> 9) > 3) continue;
    for (int i = 0; i < 9; i++) { g[i] = k >> i & 1; e[i] = k >> (9 + i) & 1; }
    EMIT(g, e);
  }
  for (int i = 0; i < 9; i++) for (int j = 0; j < 9; j++) for (int a = 0; a < kNB; a++) for (int b = 0; b < kNB; b++) for (int bg = 0; bg < 2; bg++) {
    for (int t = 0; t < 9; t++) { g[t] = bg ? Mix(t) : 0; e[t] = bg ? Mix(t + 20) : 0; }
    g[i] = kB[a]; e[j] = kB[b];
    EMIT(g, e);
  }
}
void GenDij(bool T, const Emit& emit) {
  W v(64), g, e;
  long n = 0;
  auto out = [&]() { Shares(v, n++ % 5, &g, &e); return emit(g, e); };
  // all digraphs on 4 vertices (0 and three others) with weights from a set, at several places
  const int emb[][4] = {{0, 1, 2, 3}, {0, 7, 6, 5}, {0, 3, 1, 6}, {0, 2, 7, 4}, {0, 5, 2, 7}};
  const int ws[][3] = {{0, 1, 3}, {0, 2, 1}, {0, 1, 10000}};
  for (int m = 0; m < (T ? 5 : 2); m++) for (int w = 0; w < (T ? 3 : 1); w++) for (long k = 0; k < 531441; k += T ? 1 : 7) {
    std::fill(v.begin(), v.end(), 0);
    long t = k;
    for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) if (a != b) { v[8 * emb[m][a] + emb[m][b]] = ws[w][t % 3]; t /= 3; }
    if (!out()) return;
  }
  // all 0-1-weight choices of edges from and to each vertex, with self loops and paths through every order
  vector<int> p = {1, 2, 3, 4, 5, 6, 7};
  do {
    for (int kind = 0; kind < 3; kind++) {
      std::fill(v.begin(), v.end(), 0);
      int prev = 0;
      for (int i = 0; i < 7; i++) {
        v[8 * prev + p[i]] = kind == 2 ? 4681 - (i == 6 ? 2 : 0) : i + 1;
        if (kind == 1) { v[p[i]] = 9 * (i + 1); v[8 * p[i] + p[i]] = 1; v[8 * p[i] + prev] = 1; }
        prev = p[i];
      }
      if (!out()) return;
    }
  } while (std::next_permutation(p.begin(), p.end()));
  // distances up to the largest one below "unreachable"
  for (int i = 1; i < 8; i++) for (int j = 1; j < 8; j++) for (uint32_t w : {1u, 2u, 16383u, 16384u, 32765u, 32766u}) for (uint32_t u : {1u, 2u, 16382u, 16383u, 32000u}) {
    if (w + u > 32766 && i != j) continue;
    std::fill(v.begin(), v.end(), 0);
    v[i] = w;
    if (i != j) v[8 * i + j] = u;
    if (!out()) return;
  }
  for (int k = 0; k < (T ? 300000 : 20000); k++) { for (int i = 0; i < 64; i++) { uint32_t q = Mix(k * 64 + i); v[i] = k % 4 == 0 ? q % 15 : k % 4 == 1 ? (q % 3 ? 0 : q % 50) : k % 4 == 2 ? (q % 2 ? 0 : q % 4000) : (q % 5 == 0 ? 1 + q % 3 : 0); } if (!out()) return; }
}
void GenAes(bool T, const Emit& emit) {
  W g(4), e(4);
  for (int kb = -3; kb < 128; kb++) for (int mb = -3; mb < 128; mb++) {
    if (!T && kb >= 0 && mb >= 0 && (kb + mb) % 8) continue;
    for (int i = 0; i < 4; i++) { g[i] = kb == -1 ? ~0u : kb == -2 ? Mix(i) : 0; e[i] = mb == -1 ? ~0u : mb == -2 ? Mix(i + 9) : 0; }
    if (kb >= 0) g[kb / 32] = 1u << (kb % 32);
    if (mb >= 0) e[mb / 32] = 1u << (mb % 32);
    EMIT(g, e);
  }
  for (int pos = 0; pos < 32; pos++) for (int v = 0; v < 256; v++) for (int bg = 0; bg < 2; bg++) {
    for (int i = 0; i < 4; i++) { g[i] = bg ? Mix(i + 50) : 0; e[i] = bg ? Mix(i + 60) : 0; }
    uint8_t* b = (uint8_t*) (pos < 16 ? g.data() : e.data());
    b[pos % 16] = v;
    EMIT(g, e);
  }
  for (int k = 0; k < (T ? 100000 : 5000); k++) { for (int i = 0; i < 4; i++) { g[i] = Mix(8 * k + i); e[i] = Mix(8 * k + 4 + i); } EMIT(g, e); }
}
void GenSbox(bool T, const Emit& emit) {
  for (uint32_t a = 0; a < 256; a++) for (uint32_t b = 0; b < 256; b++) { EMIT(W{a}, W{b}); if (T) EMIT(W{a | 0xabcdef00}, W{b | 0x12345600}); }
  for (uint32_t a = 0; a < 256; a++) EMIT(W{a | 0xffffff00}, W{0x100});
}
void GenSha(bool T, const Emit& emit) {
  uint8_t m[16];
  auto out = [&]() { W g(2), e(2); memcpy(g.data(), m, 8); memcpy(e.data(), m + 8, 8); return emit(g, e); };
  for (int b = -2; b < 128; b++) for (int c = -1; c < b; c++) {
    if (!T && b >= 0 && c >= 0 && (b + c) % 4) continue;
    memset(m, b == -1 ? 0xff : 0, 16);
    if (b >= 0) m[b / 8] ^= 1 << (b % 8);
    if (c >= 0) m[c / 8] ^= 1 << (c % 8);
    if (!out()) return;
  }
  for (int p = 0; p < 16; p++) for (int v = 0; v < 256; v++) for (int bg = 0; bg < 2; bg++) { for (int i = 0; i < 16; i++) m[i] = bg ? (uint8_t) Mix(i) : 0; m[p] = v; if (!out()) return; }
  for (int k = 0; k < (T ? 100000 : 5000); k++) { for (int i = 0; i < 16; i++) m[i] = (uint8_t) Mix(16 * k + i); if (!out()) return; }
}
void GenCordic(bool T, const Emit& emit) {
  const long top = 0x6487ED51;   // pi/2
  long n = 0;
  W g, e;
  auto out = [&](long th) { Shares(W{(uint32_t) (int32_t) th}, n++ % 5, &g, &e); return emit(g, e); };
  for (long k = -2000; k <= 2000; k++) if (!out(k)) return;
  for (long k = 0; k <= 2000; k++) { if (!out(top - k)) return; if (!out(-top + k)) return; }
  for (int i = 0; i < 31; i++) for (long d = -3; d <= 3; d++) for (int s = 0; s < 2; s++) { long t = (1l << i) + d; if (t <= top && !out(s ? -t : t)) return; }
  for (long t = -top; t <= top; t += T ? 211 : 8009) if (!out(t)) return;
}
void GenOne(bool, const Emit& emit) { EMIT(W{0}, W{0}); EMIT(W{~0u}, W{~0u}); EMIT(W{0x12345678}, W{0x9abcdef0}); }
void Generate(const string& p, bool T, const Emit& emit) {
  if (p == "sum") GenSum(T, false, emit);
  else if (p == "compare") GenSum(T, true, emit);
  else if (p == "hamming") GenHam(T, emit);
  else if (p == "mul") GenPair(T, emit);
  else if (p == "bubble-sort" || p == "merge-sort") GenSort(T, emit);
  else if (p == "matrix-mul") GenMat(T, emit);
  else if (p == "dijkstra") GenDij(T, emit);
  else if (p == "aes") GenAes(T, emit);
  else if (p == "sbox") GenSbox(T, emit);
  else if (p == "sha3") GenSha(T, emit);
  else if (p == "cordic") GenCordic(T, emit);
  else GenOne(T, emit);
}
string Hexs(const W& v) { string s; char b[12]; for (auto q : v) { snprintf(b, sizeof b, "%08x", q); s += b; } return s; }
W UnHex(const string& s) { W v; for (size_t i = 0; i + 8 <= s.size(); i += 8) v.push_back(strtoul(s.substr(i, 8).c_str(), nullptr, 16)); return v; }
struct Runner {
  Native n;
  Arm a;
  W image;
  bool have = false, loaded = false;
};
Runner& R(int p) {
  static Runner r[kNP];
  if (!r[p].loaded) { r[p].loaded = true; r[p].n.load(kProgs[p].name); r[p].have = ReadImage(kProgs[p].name, &r[p].image); }
  return r[p];
}
void One(Ctx& x, int p, int impl, const W& g, const W& e) {
  const Prog& P = kProgs[p];
  Runner& r = R(p);
  string d = string(impl ? "arm" : "c") + ":" + P.name + ";" + Hexs(g) + ";" + Hexs(e);
  x.begin(d);
  W o;
  string err = impl ? r.a.run(r.image, P, g, e, &o, 3000000) : r.n.run(P, g, e, &o);
  if (err.empty()) err = CheckOut(P.name, g, e, o);
  x.transitions++;
  x.state(d);
  x.outcome(P.name + Hexs(o));
  x.cnt[string(impl ? "image_" : "native_") + P.name]++;
  if (impl) x.cnt["max_image_steps"] = std::max<uint64_t>(x.cnt["max_image_steps"], r.a.steps);
  if (x.evals % 40009 == 17) x.sample(string(impl ? "image " : "native ") + P.name + " g=" + Hexs(g).substr(0, 48) + " e=" + Hexs(e).substr(0, 48) + " -> " + Hexs(o).substr(0, 48));
  if (!err.empty()) x.violation(d, string(P.name) + (impl ? " (shipped image p.txt): " : ": ") + err);
}
uint64_t Sum(const W& im) { uint64_t h = 1469598103934665603ull; for (uint32_t v : im) { h ^= v; h *= 1099511628211ull; } return h; }
const uint64_t kStaleMergeSort = 0xced6f6ae33b86641ull;
void C24(Ctx& x) {
  for (int p = 0; p < kNP; p++) for (int impl = 0; impl < (x.mem ? 1 : 2); impl++) {
    long n = 0;
    bool heavy = impl;
    Runner& r = R(p);
    if (impl && !r.have) { x.cnt["image_missing"]++; continue; }
    string nm = kProgs[p].name;
    if (impl && nm == "merge-sort" && Sum(r.image) == kStaleMergeSort) {
      // This very image is on record as wrong (known_findings.txt): one witness is enough, any other image is explored in full.
      if (x.mine()) {
        W v(32);
        for (int i = 0; i < 32; i++) v[i] = 31 - i;
        One(x, p, impl, v, W(32, 0));
      }
      continue;
    }
    int step = !heavy ? 1 : x.thorough() ? (nm == "dijkstra" || nm == "bubble-sort" || nm == "merge-sort" || nm == "sha3" ? 5 : nm == "hamming" ? 50 : 1) : nm == "dijkstra" || nm == "sha3" || nm == "bubble-sort" || nm == "merge-sort" || nm == "aes" ? 29 : 5;
    Generate(nm, x.thorough(), [&](const W& g, const W& e) {
      if (n++ % step == 0 && x.mine()) One(x, p, impl, g, e);
      return !x.stopped();
    });
  }
}
void C24R(Ctx& x, const string& c) {
  size_t a = c.find(':');
  vector<string> f = Split(c.substr(a + 1), ';');
  for (int p = 0; p < kNP; p++) if (f[0] == kProgs[p].name) One(x, p, c[0] == 'a', UnHex(f[1]), UnHex(f[2]));
}
PropReg r24("C24", C24, C24R);
}
