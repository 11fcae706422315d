// Worker entry point: explores one shard of one property, or replays one case.
// The shard runs in forked children so that a crash or hang of the code under
// test is attributed to the case that was running, and memory is bounded.
#include "core.h"
#include "gc.h"
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace {
struct Shared {
  char cur[1 << 20];
  volatile long ticks;
  volatile int hang;
  volatile int incase;
  volatile uint64_t resume;   // next enumeration index for a fresh child
  volatile int more;
};
Shared* g_sh = nullptr;
long g_last_tick = -1;
int g_stale = 0;
int g_hang_s = 40;
double g_deadline = 0;
uint64_t g_resume = 0;
bool g_stop = false;
std::set<string> g_known;
FILE* g_out = nullptr;
string g_outname;
long g_rss_limit = 2200L << 20;

double Now() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
void OnProf(int) {
  if (!g_sh) return;
  if (g_sh->ticks == g_last_tick) {
    if (++g_stale >= g_hang_s) { g_sh->hang = 1; _exit(78); }
  } else {
    g_last_tick = g_sh->ticks;
    g_stale = 0;
  }
}
string Esc(const string& s) {
  string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r;
}
long Rss() {
  FILE* f = fopen("/proc/self/statm", "r");
  long a = 0, b = 0;
  if (f) { if (fscanf(f, "%ld %ld", &a, &b) != 2) b = 0; fclose(f); }
  return b * 4096;
}
void Flush(Ctx& c) {
  fprintf(g_out, "{\"k\":\"cnt\",\"evals\":%llu,\"transitions\":%llu,\"nontrivial\":%llu,\"cnt\":{", (unsigned long long) c.evals,
          (unsigned long long) c.transitions, (unsigned long long) c.nontrivial);
  bool first = true;
  for (auto& x : c.cnt) { fprintf(g_out, "%s\"%s\":%llu", first ? "" : ",", Esc(x.first).c_str(), (unsigned long long) x.second); first = false; }
  fprintf(g_out, "}}\n");
  for (auto& s : c.samples) fprintf(g_out, "{\"k\":\"sample\",\"s\":\"%s\"}\n", Esc(s).c_str());
  for (auto& s : c.caps) fprintf(g_out, "{\"k\":\"cap\",\"s\":\"%s\"}\n", Esc(s).c_str());
  for (int w = 0; w < 2; w++) {
    FILE* f = fopen((g_outname + (w ? ".oc" : ".st")).c_str(), "ab");
    if (!f) continue;
    for (auto h : w ? c.outcomes : c.states) { uint64_t x = h; fwrite(&x, 8, 1, f); }
    fclose(f);
  }
  fflush(g_out);
}
void Viol(const string& prop, const string& kind, const string& desc, const string& msg) {
  fprintf(g_out, "{\"k\":\"viol\",\"prop\":\"%s\",\"kind\":\"%s\",\"case\":\"%s\",\"msg\":\"%s\"}\n", prop.c_str(), kind.c_str(),
          Esc(desc).c_str(), Esc(msg).c_str());
  fflush(g_out);
}
FILE* g_tr = nullptr;
uint64_t g_tr_case = 0, g_find = 0;   // g_find: case to be named
void TraceCase(uint64_t next) {
  if (!g_trace) return;
  if (!g_tr) g_tr = fopen((g_outname + ".tr").c_str(), "ab");
  if (g_tr && g_tr_case) { uint64_t r[2] = {g_tr_case, g_digest}; fwrite(r, 8, 2, g_tr); fflush(g_tr); }
  g_tr_case = next;
  g_digest = 1469598103934665603ull;
}
}  // namespace

bool g_trace = false;
uint64_t g_digest = 1469598103934665603ull;
void Observe(const void* p, size_t n) {
  if (!g_trace) return;
  const unsigned char* b = (const unsigned char*) p;
  uint64_t h = g_digest ^ (n * 0x9e3779b97f4a7c15ull), v;
  for (; n >= 8; n -= 8, b += 8) { memcpy(&v, b, 8); h = (h ^ v) * 0xff51afd7ed558ccdull; h ^= h >> 32; }
  v = 0;
  memcpy(&v, b, n);
  h = (h ^ v) * 0xc4ceb9fe1a85ec53ull;
  g_digest = h ^ (h >> 29);
}
void Observe(const string& s) { Observe(s.data(), s.size()); }
void ProgressTick() { if (g_sh) g_sh->ticks++; }
void DisableHangTimer() {
  struct itimerval it = {{0, 0}, {0, 0}};
  setitimer(ITIMER_PROF, &it, nullptr);
}

bool Ctx::mine() {
  uint64_t i = gidx++;
  if (g_stop) return false;
  if (i < g_resume) return false;
  return i % (uint64_t) nshards == (uint64_t) shard;
}
void Ctx::begin(const string& d) {
  if (g_trace) {
    uint64_t h = HashStr(d);
    TraceCase(h);
    if (h == g_find) { fprintf(g_out, "{\"k\":\"found\",\"s\":\"%s\"}\n", Esc(d).c_str()); fflush(g_out); }
  }
  ProgressTick();
  if (g_sh) {
    size_t n = d.size() < sizeof(g_sh->cur) - 1 ? d.size() : sizeof(g_sh->cur) - 1;
    memcpy(g_sh->cur, d.data(), n);
    g_sh->cur[n] = 0;
    g_sh->incase = 1;
  }
  evals++;
  if ((evals & 63) == 0) {
    if (g_deadline > 0 && Now() > g_deadline) {
      if (!g_stop) caps.push_back("soft deadline reached");
      g_stop = true;
    }
    if ((evals & 1023) == 0 && Rss() > g_rss_limit && !replay) {
      g_sh->resume = gidx;
      g_sh->more = 1;
      g_stop = true;
    }
  }
}
void Ctx::violation(const string& d, const string& msg) {
  if (memonly) { cnt["functional_violations_ignored"]++; return; }
  Viol(prop, "violation", d, msg);
  if (g_known.count(d)) return;
  static int maxv = getenv("VERIF_MAXV") ? atoi(getenv("VERIF_MAXV")) : 3;
  if (++nviol >= maxv) g_stop = true;
}
bool Ctx::stopped() const { return g_stop; }
void Ctx::state(const string& s) { states.insert(HashStr(s)); }
void Ctx::outcome(const string& s) { outcomes.insert(HashStr(s)); }

int main(int argc, char** argv) {
  Ctx ctx;
  string out = "/dev/stdout", crash, known, rfile;
  double deadline = 0;
  for (int i = 1; i + 1 < argc; i += 2) {
    string k = argv[i], v = argv[i + 1];
    if (k == "--prop") ctx.prop = v;
    else if (k == "--tier") ctx.tier = v;
    else if (k == "--shard") { ctx.shard = atoi(v.c_str()); ctx.nshards = atoi(v.c_str() + v.find('/') + 1); }
    else if (k == "--seed") ctx.seed = strtoull(v.c_str(), 0, 10);
    else if (k == "--out") out = v;
    else if (k == "--known") known = v;
    else if (k == "--mem") { ctx.mem = v != "0"; ctx.memonly = v == "1"; }
    else if (k == "--deadline") deadline = atof(v.c_str());
    else if (k == "--hang") g_hang_s = atoi(v.c_str());
    else if (k == "--rss") g_rss_limit = atol(v.c_str()) << 20;
    else if (k == "--replay") rfile = v;
    else { fprintf(stderr, "bad option %s\n", k.c_str()); return 2; }
  }
  g_trace = getenv("VERIF_TRACE") != nullptr;
  if (getenv("VERIF_TRACE_FIND")) g_find = strtoull(getenv("VERIF_TRACE_FIND"), 0, 10);
  auto it = PropTable().find(ctx.prop);
  if (it == PropTable().end()) { fprintf(stderr, "unknown property %s\n", ctx.prop.c_str()); return 2; }
  g_outname = out;
  g_out = fopen(out.c_str(), "w");
  if (!g_out) { perror(out.c_str()); return 2; }
  if (!known.empty()) {
    FILE* f = fopen(known.c_str(), "r");
    if (f) {
      char* line = nullptr; size_t cap = 0; ssize_t n;
      while ((n = getline(&line, &cap, f)) > 0) { while (n && (line[n - 1] == '\n')) n--; g_known.insert(string(line, n)); }
      free(line);
      fclose(f);
    }
  }
  g_sh = (Shared*) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (g_sh == MAP_FAILED) { perror("mmap"); return 2; }
  if (deadline > 0) g_deadline = Now() + deadline;
  string rcase;
  if (!rfile.empty()) {
    FILE* f = fopen(rfile.c_str(), "r");
    if (!f) { perror(rfile.c_str()); return 2; }
    char buf[4096]; size_t n;
    while ((n = fread(buf, 1, sizeof buf, f)) > 0) rcase.append(buf, n);
    fclose(f);
    while (!rcase.empty() && rcase.back() == '\n') rcase.pop_back();
    ctx.replay = true;
    ctx.replay_case = rcase;
  }
  int rc = 0;
  while (true) {
    g_sh->more = 0; g_sh->hang = 0; g_sh->incase = 0;
    fflush(g_out);
    pid_t pid = fork();
    if (pid == 0) {
      setpgid(0, 0);
      g_resume = g_sh->resume;
      g_ctx = &ctx;
      signal(SIGPIPE, SIG_IGN);
      SilenceLogs();
      struct sigaction sa;
      memset(&sa, 0, sizeof sa);
      sa.sa_handler = OnProf;
      sa.sa_flags = SA_RESTART;
      sigaction(SIGPROF, &sa, nullptr);
      struct itimerval tv = {{1, 0}, {1, 0}};
      setitimer(ITIMER_PROF, &tv, nullptr);
      if (ctx.replay) { ctx.begin(rcase); it->second.replay(ctx, rcase); }
      else it->second.explore(ctx);
      DisableHangTimer();
      TraceCase(0);
      Flush(ctx);
      _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    kill(-pid, SIGKILL);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
      if (g_sh->more) continue;
      break;
    }
    string how = g_sh->hang ? "no progress: the code under test loops without I/O" :
        WIFSIGNALED(st) ? string("code under test died with signal ") + strsignal(WTERMSIG(st)) :
        "code under test ended the process with status " + std::to_string(WEXITSTATUS(st));
    if (!g_sh->incase) { fprintf(g_out, "{\"k\":\"error\",\"msg\":\"%s outside any case\"}\n", Esc(how).c_str()); rc = 2; break; }
    Viol(ctx.prop, g_sh->hang ? "hang" : "crash", g_sh->cur, how);
    break;
  }
  fprintf(g_out, "{\"k\":\"done\"}\n");
  fclose(g_out);
  return rc;
}
