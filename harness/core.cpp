#include "core.h"
#include <errno.h>
#include <openssl/bn.h>
#include <openssl/rsa.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <ucontext.h>
#include <unistd.h>
#include <malloc.h>
#include <new>
#include <exception>
#include "util/util.h"
#include <openssl/rand.h>

#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/common_interface_defs.h>
#include <sanitizer/asan_interface.h>
#define ASAN_ON 1
#endif

Net* g_net = nullptr;
Ctx* g_ctx = nullptr;
int g_heap_fill = -1;
int g_bnrand_mode = 0;
bool g_memo_modexp = true;
RandStats g_rand_stats;
vector<BnDraw> g_bndraws;
std::map<std::pair<int, int>, string> g_bn_override;
int g_bn_count[2];
bool g_log_bnrand = false;

// ------------------------------------------------------------------ fibers
namespace {
#ifdef ASAN_ON
const size_t kStack = 1 << 20;
#else
const size_t kStack = 8 << 20;  // the usual limit of a process
#endif
struct Fiber {
  ucontext_t uc;
  char* stack = nullptr;
  std::function<void()> body;
  bool done = true;
  int wait = 0;  // 0 runnable, 1 wants read, 2 wants write
#ifdef ASAN_ON
  void* fake = nullptr;
#endif
};
Fiber g_fib[2];
ucontext_t g_main;
int g_cur = -1;
int g_next = -1;
#ifdef ASAN_ON
void* g_main_fake = nullptr;
const void* g_main_stack = nullptr;
size_t g_main_size = 0;
#endif

void ToMain() {
  int me = g_cur;
#ifdef ASAN_ON
  __sanitizer_start_switch_fiber(g_fib[me].done ? nullptr : &g_fib[me].fake,
                                 g_main_stack, g_main_size);
#endif
  swapcontext(&g_fib[me].uc, &g_main);
#ifdef ASAN_ON
  __sanitizer_finish_switch_fiber(g_fib[me].fake, nullptr, nullptr);
#endif
}
void Tramp(int me) {
#ifdef ASAN_ON
  __sanitizer_finish_switch_fiber(nullptr, &g_main_stack, &g_main_size);
#endif
  try {
    g_fib[me].body();
  } catch (std::exception& e) {
    if (g_net) { g_net->threw[me] = true; g_net->what[me] = e.what(); }
  } catch (...) {
    if (g_net) { g_net->threw[me] = true; g_net->what[me] = "unknown"; }
  }
  g_fib[me].done = true;
  ToMain();
  abort();
}
void Start(int me, const std::function<void()>& b) {
  Fiber& f = g_fib[me];
  if (!f.stack) {
    f.stack = (char*) mmap(nullptr, kStack + 65536, PROT_READ | PROT_WRITE,
                           MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    mprotect(f.stack, 65536, PROT_NONE);
    f.stack += 65536;
  }
#ifdef ASAN_ON
  __asan_unpoison_memory_region(f.stack, kStack);
#endif
  f.body = b;
  f.done = false;
  f.wait = 0;
  getcontext(&f.uc);
  f.uc.uc_stack.ss_sp = f.stack;
  f.uc.uc_stack.ss_size = kStack;
  f.uc.uc_link = nullptr;
  makecontext(&f.uc, (void (*)()) Tramp, 1, me);
}
void Resume(int me) {
  g_cur = me;
#ifdef ASAN_ON
  __sanitizer_start_switch_fiber(&g_main_fake, g_fib[me].stack, kStack);
#endif
  swapcontext(&g_main, &g_fib[me].uc);
#ifdef ASAN_ON
  __sanitizer_finish_switch_fiber(g_main_fake, nullptr, nullptr);
#endif
  g_cur = -1;
}
bool Runnable(Net* n, int p) {
  Fiber& f = g_fib[p];
  if (f.done) return false;
  if (f.wait == 0 || n->cut) return true;
  if (f.wait == 1) return n->leftover(1 - p) > 0 || n->fin[1 - p];
  return n->leftover(p) < n->cap || n->fin[1 - p];
}
}  // namespace

void RunTwo(Net* net, const std::function<void()>& alice,
            const std::function<void()>& bob) {
  g_net = net;
  Start(0, alice);
  Start(1, bob);
  int cur = 0;
  while (true) {
    int mask = (Runnable(net, 0) ? 1 : 0) | (Runnable(net, 1) ? 2 : 0);
    if (mask == 0) {
      if (!g_fib[0].done || !g_fib[1].done) { net->deadlock = true; if (getenv("VERIF_DBG")) fprintf(stderr, "deadlock done %d %d wait %d %d left %zu %zu pops %ld %ld gops %ld\n", g_fib[0].done, g_fib[1].done, g_fib[0].wait, g_fib[1].wait, net->leftover(0), net->leftover(1), net->pops[0], net->pops[1], net->gops); }
      break;
    }
    int nxt;
    if (mask == 3) nxt = net->pick ? net->pick(mask, cur) : cur;
    else nxt = mask == 1 ? 0 : 1;
    if (nxt != cur) net->switches++;
    cur = nxt;
    Resume(cur);
    if (g_fib[cur].done) net->fin[cur] = true;
    if (net->livelock) break;
  }
  g_net = nullptr;
  ProgressTick();
}

void RunOne(Net* net, int party, const std::function<void()>& body) {
  g_net = net;
  g_fib[1 - party].done = true;
  Start(party, body);
  while (!g_fib[party].done) {
    if (!Runnable(net, party)) { net->deadlock = true; break; }
    Resume(party);
    if (net->livelock) break;
  }
  g_net = nullptr;
  ProgressTick();
}

// -------------------------------------------------------------- interposition
extern "C" {
ssize_t __real_read(int, void*, size_t);
ssize_t __real_write(int, const void*, size_t);
ssize_t __real_send(int, const void*, size_t, int);
ssize_t __real_recv(int, void*, size_t, int);

static ssize_t VirtIo(int fd, void* buf, size_t len, bool is_write) {
  Net* n = g_net;
  int p = fd == kFdA ? 0 : 1;
  if (!n || g_cur != p) {
    if (n) n->bad_io++;
    errno = EBADF;
    return -1;
  }
  ProgressTick();
  if ((ssize_t) len < 0) { n->bad_io++; errno = EINVAL; return -1; }
  if (++n->gops > n->max_ops) { n->livelock = true; ToMain(); }
  if (len == 0) return 0;
  Fiber& f = g_fib[p];
  f.wait = is_write ? 2 : 1;
  // scheduling point before every I/O operation; also where blocking happens
  if (n->pick || !Runnable(n, p)) ToMain();
  while (!Runnable(n, p)) ToMain();
  f.wait = 0;
  int d = is_write ? p : 1 - p;
  size_t possible;
  bool peer_gone = n->fin[1 - p];
  if (n->cut) {
    if (is_write) { errno = EPIPE; return -1; }
    if (n->leftover(d) == 0) return 0;
  }
  if (is_write) {
    size_t room = n->cap - n->leftover(d);
    if (n->cap == (size_t) -1) room = len;
    if (room == 0) { // only when the peer finished
      errno = EPIPE;
      return -1;
    }
    possible = len < room ? len : room;
  } else {
    size_t av = n->leftover(d);
    if (av == 0 && peer_gone) return 0;
    possible = len < av ? len : av;
  }
  IoAnswer ans = {(long) possible, 0, false};
  if (n->answer) {
    IoPoint pt = {p, is_write, len, possible, n->pops[p], n->gops - 1};
    ans = n->answer(pt);
    if (ans.n > (long) possible) ans.n = (long) possible;
  }
  n->pops[p]++;
  if (ans.cut) n->cut = true;
  if (ans.n < 0) { errno = ans.err; return -1; }
  if (ans.n == 0) return 0;
  if (is_write) {
    if (g_trace) { Observe(&d, sizeof d); Observe(buf, ans.n); }
    n->q[d].append((const char*) buf, ans.n);
    if (n->leftover(d) > n->max_inflight[d]) n->max_inflight[d] = n->leftover(d);
    if (n->keep_transcript) {
      n->sent[d].append((const char*) buf, ans.n);
      if (!n->runs.empty() && n->runs.back().first == d)
        n->runs.back().second.append((const char*) buf, ans.n);
      else
        n->runs.push_back({d, string((const char*) buf, ans.n)});
    }
  } else {
    memcpy(buf, n->q[d].data() + n->head[d], ans.n);
    n->head[d] += ans.n;
    if (n->head[d] == n->q[d].size()) { n->q[d].clear(); n->head[d] = 0; }
  }
  return ans.n;
}
ssize_t __wrap_read(int fd, void* b, size_t l) {
  if (fd == kFdA || fd == kFdB) return VirtIo(fd, b, l, false);
  return __real_read(fd, b, l);
}
ssize_t __wrap_write(int fd, const void* b, size_t l) {
  if (fd == kFdA || fd == kFdB) return VirtIo(fd, (void*) b, l, true);
  return __real_write(fd, b, l);
}
ssize_t __wrap_recv(int fd, void* b, size_t l, int fl) {
  if (fd == kFdA || fd == kFdB) {
    if (!(fl & MSG_WAITALL)) return VirtIo(fd, b, l, false);
    size_t got = 0;
    while (got < l) {
      ssize_t r = VirtIo(fd, (char*) b + got, l - got, false);
      if (r < 0) return got ? (ssize_t) got : r;
      if (r == 0) break;
      got += r;
    }
    return got;
  }
  return __real_recv(fd, b, l, fl);
}
ssize_t __wrap_send(int fd, const void* b, size_t l, int fl) {
  if (fd == kFdA || fd == kFdB) return VirtIo(fd, (void*) b, l, true);
  return __real_send(fd, b, l, fl);
}

// randomness -----------------------------------------------------------------
// Separate streams, so that the oblivious-transfer randomness does not shift
// when a circuit draws a different number of labels.
// One pair of streams per party, so that the schedule does not change what a party draws.
static uint64_t g_rng[2] = {1, 1}, g_bn_rng[2] = {1, 1};
static int Party() { return g_cur == 1 ? 1 : 0; }
static uint64_t NextRng(uint64_t* st) {
  *st += 0x9E3779B97F4A7C15ull;
  uint64_t z = *st;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
int __wrap_BN_rand(BIGNUM* r, int bits, int top, int bottom) {
  g_rand_stats.bn_rand++;
  int nb = (bits + 7) / 8;
  vector<unsigned char> b(nb > 0 ? nb : 1);
  for (int i = 0; i < nb; i++) {
    if (g_bnrand_mode == 1 || g_bnrand_mode == 3) b[i] = 0;
    else if (g_bnrand_mode == 2) b[i] = 0xff;
    else b[i] = (unsigned char) NextRng(&g_bn_rng[Party()]);
  }
  if (g_bnrand_mode == 3 && nb) b[nb - 1] = 1;
  int me = Party();
  auto ov = g_bn_override.find({me, g_bn_count[me]});
  if (ov != g_bn_override.end() && (int) ov->second.size() == nb) memcpy(b.data(), ov->second.data(), nb);
  g_bn_count[me]++;
  if (nb && bits % 8) b[0] &= (1 << (bits % 8)) - 1;
  BN_bin2bn(b.data(), nb, r);
  if (top >= 0 && bits > 0) BN_set_bit(r, bits - 1);
  if (top >= 1 && bits > 1) BN_set_bit(r, bits - 2);
  if (bottom && bits > 0) BN_set_bit(r, 0);
  if (g_log_bnrand) {
    string v(nb, 0);
    BN_bn2binpad(r, (unsigned char*) &v[0], nb);
    g_bndraws.push_back({me, bits, v});
  }
  return 1;
}
int __wrap_RAND_bytes(unsigned char* b, int n) {
  g_rand_stats.rand_bytes++;
  for (int i = 0; i < n; i += 8) {
    uint64_t v = NextRng(&g_rng[Party()]);
    memcpy(b + i, &v, n - i < 8 ? n - i : 8);
  }
  return 1;
}
void __wrap_RAND_seed(const void*, int) {}
int __real_RSA_generate_key_ex(RSA*, int, BIGNUM*, BN_GENCB*);
int __real_RSA_check_key(const RSA*);
static const char* kP[2] = {
#include "rsa_p.inc"
};
static const char* kQ[2] = {
#include "rsa_q.inc"
};
static int g_key_idx = 0;
int __wrap_RSA_generate_key_ex(RSA* rsa, int bits, BIGNUM* e, BN_GENCB* cb) {
  g_rand_stats.rsa_gen++;
  BIGNUM *p = nullptr, *q = nullptr;
  BN_hex2bn(&p, kP[g_key_idx % 2]);
  BN_hex2bn(&q, kQ[g_key_idx % 2]);
  BN_CTX* ctx = BN_CTX_new();
  BIGNUM *n = BN_new(), *d = BN_new(), *p1 = BN_new(), *q1 = BN_new(), *phi = BN_new();
  BN_mul(n, p, q, ctx);
  if (BN_num_bits(n) != bits) {
    BN_free(p); BN_free(q); BN_free(n); BN_free(d); BN_free(p1); BN_free(q1);
    BN_free(phi); BN_CTX_free(ctx);
    return __real_RSA_generate_key_ex(rsa, bits, e, cb);
  }
  BN_sub(p1, p, BN_value_one());
  BN_sub(q1, q, BN_value_one());
  BN_mul(phi, p1, q1, ctx);
  BN_mod_inverse(d, e, phi, ctx);
  BIGNUM *dp = BN_new(), *dq = BN_new(), *qi = BN_new();
  BN_mod(dp, d, p1, ctx);
  BN_mod(dq, d, q1, ctx);
  BN_mod_inverse(qi, q, p, ctx);
  RSA_set0_key(rsa, n, BN_dup(e), d);
  RSA_set0_factors(rsa, p, q);
  RSA_set0_crt_params(rsa, dp, dq, qi);
  BN_free(p1); BN_free(q1); BN_free(phi);
  BN_CTX_free(ctx);
  return 1;
}
int __wrap_RSA_check_key(const RSA* rsa) {
  const BIGNUM *n, *e, *d;
  RSA_get0_key(rsa, &n, &e, &d);
  return (n && e && d) ? 1 : 0;
}
int __real_BN_mod_exp(BIGNUM*, const BIGNUM*, const BIGNUM*, const BIGNUM*, BN_CTX*);
static void BnKey(string* s, const BIGNUM* a) {
  int l = BN_num_bytes(a);
  size_t o = s->size();
  s->resize(o + 5 + l);
  (*s)[o] = BN_is_negative(a) ? '-' : '+';
  memcpy(&(*s)[o + 1], &l, 4);
  BN_bn2bin(a, (unsigned char*) &(*s)[o + 5]);
}
// BN_mod_exp is a pure function: memoised so that enumerations re-running the
// same oblivious transfers stay affordable.
int __wrap_BN_mod_exp(BIGNUM* r, const BIGNUM* a, const BIGNUM* p, const BIGNUM* m,
                      BN_CTX* ctx) {
  g_rand_stats.modexp++;
  if (!g_memo_modexp) return __real_BN_mod_exp(r, a, p, m, ctx);
  static std::map<string, string>* memo = new std::map<string, string>();
  string k;
  BnKey(&k, a); BnKey(&k, p); BnKey(&k, m);
  auto it = memo->find(k);
  if (it != memo->end()) {
    g_rand_stats.modexp_hit++;
    BN_bin2bn((const unsigned char*) it->second.data(), it->second.size(), r);
    return 1;
  }
  int ret = __real_BN_mod_exp(r, a, p, m, ctx);
  if (ret == 1 && memo->size() < 200000) {
    string v(BN_num_bytes(r), 0);
    BN_bn2bin(r, (unsigned char*) &v[0]);
    (*memo)[k] = v;
  }
  return ret;
}
int __real_posix_memalign(void**, size_t, size_t);
int __wrap_posix_memalign(void** p, size_t a, size_t n) {
  int r = __real_posix_memalign(p, a, n);
  if (r == 0 && g_heap_fill >= 0) memset(*p, g_heap_fill, n);
  return r;
}
}  // extern "C"

#ifndef ASAN_ON
static void* NewImpl(size_t n) {
  void* p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  if (g_heap_fill >= 0) memset(p, g_heap_fill, n ? n : 1);
  return p;
}
void* operator new(size_t n) { return NewImpl(n); }
void* operator new[](size_t n) { return NewImpl(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
#endif

void SeedEnv(uint64_t seed, long bnseed) {
  uint64_t bs = bnseed >= 0 ? (uint64_t) bnseed : seed % 8;
  for (int p = 0; p < 2; p++) {
    // hashed, so that no two seeds give shifted copies of one stream
    uint64_t k[3] = {seed, (uint64_t) p, 1}, b[3] = {bs, (uint64_t) p, 2};
    g_rng[p] = Hash64(k, sizeof k);
    g_bn_rng[p] = Hash64(b, sizeof b);
    g_rng[p] = NextRng(&g_rng[p]);
    g_bn_rng[p] = NextRng(&g_bn_rng[p]);
    g_bn_count[p] = 0;
  }
  g_key_idx = (int) (bs & 1);
  SrandSSE((unsigned) (seed * 2654435761u + 17));
  g_bndraws.clear();
}
void RsaPool(int idx, BIGNUM* n, BIGNUM* d, unsigned long e) {
  BIGNUM *p = nullptr, *q = nullptr, *E = BN_new();
  BN_hex2bn(&p, kP[idx % 2]);
  BN_hex2bn(&q, kQ[idx % 2]);
  BN_CTX* ctx = BN_CTX_new();
  BN_mul(n, p, q, ctx);
  BN_sub_word(p, 1);
  BN_sub_word(q, 1);
  BN_mul(p, p, q, ctx);
  BN_set_word(E, e);
  BN_mod_inverse(d, E, p, ctx);
  BN_free(p); BN_free(q); BN_free(E);
  BN_CTX_free(ctx);
}

// ------------------------------------------------------------------- choices
long ExploreChoices(int bound, long max_exec, const std::function<bool(Chooser&)>& run,
                    bool* capped) {
  vector<vector<int>> stack;
  stack.push_back({});
  long n = 0;
  if (capped) *capped = false;
  while (!stack.empty()) {
    if (max_exec > 0 && n >= max_exec) { if (capped) *capped = true; break; }
    Chooser c;
    c.prefix = stack.back();
    stack.pop_back();
    n++;
    if (!run(c)) break;
    if (c.diverged) {  // the code under test did not repeat itself: this branch is not covered
      if (g_ctx) { g_ctx->cnt["replay_divergences"]++; if (g_ctx->caps.empty()) g_ctx->caps.push_back("a schedule prefix did not replay"); }
      continue;
    }
    int dev = 0;
    for (size_t i = 0; i < c.pts.size(); i++) {
      if (i < c.prefix.size()) { if (c.pts[i].alt) dev += c.pts[i].cost; continue; }
      // beyond the prefix every choice was 0
      if (dev + c.pts[i].cost > bound) continue;
      for (int a = c.pts[i].n - 1; a >= 1; a--) {
        vector<int> np;
        for (size_t k = 0; k < i; k++) np.push_back(c.pts[k].alt);
        np.push_back(a);
        stack.push_back(np);
      }
    }
  }
  return n;
}

// --------------------------------------------------------------- bookkeeping
uint64_t Hash64(const void* p, size_t n, uint64_t h) {
  const unsigned char* b = (const unsigned char*) p;
  for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; }
  return h;
}
string HexOf(const void* p, size_t n) {
  static const char* d = "0123456789abcdef";
  string s;
  for (size_t i = 0; i < n; i++) { s += d[((const unsigned char*) p)[i] >> 4]; s += d[((const unsigned char*) p)[i] & 15]; }
  return s;
}
string HexOf(const string& b) { return HexOf(b.data(), b.size()); }
string ScratchDir() {
  static string dir;
  if (dir.empty()) {
    const char* e = getenv("VERIF_SCRATCH");
    dir = (e && *e) ? e : "/tmp";
    dir += "/w" + std::to_string(getpid());
    mkdir(dir.c_str(), 0700);
  }
  return dir;
}
vector<string> Split(const string& s, char c) {
  vector<string> r;
  string cur;
  for (char x : s) { if (x == c) { r.push_back(cur); cur.clear(); } else cur += x; }
  r.push_back(cur);
  return r;
}
KV::KV(const string& s) {
  for (auto& f : Split(s, ';')) {
    if (f.empty()) continue;
    size_t e = f.find('=');
    if (e == string::npos) set(f, ""); else set(f.substr(0, e), f.substr(e + 1));
  }
}
void KV::set(const string& k, const string& v) { if (!m.count(k)) order.push_back(k); m[k] = v; }
string KV::get(const string& k, const string& d) const { auto i = m.find(k); return i == m.end() ? d : i->second; }
long long KV::geti(const string& k, long long d) const { auto i = m.find(k); return i == m.end() ? d : atoll(i->second.c_str()); }
string KV::str() const {
  string s;
  for (auto& k : order) { if (!s.empty()) s += ";"; s += k + "=" + m.at(k); }
  return s;
}
std::map<string, PropEntry>& PropTable() { static std::map<string, PropEntry> t; return t; }
