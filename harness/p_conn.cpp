// C37 establishing and ending connections: the real socket functions of the operating system on the loopback interface,
// with every call the library makes to them able to fail.
#include "fam.h"
#include <arpa/inet.h>
#include <errno.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <signal.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <unistd.h>
#include "tcpip/tcpip.h"
#include "util/common.h"

extern "C" {
int __real_socket(int, int, int);
int __real_setsockopt(int, int, int, const void*, socklen_t);
int __real_bind(int, const struct sockaddr*, socklen_t);
int __real_listen(int, int);
int __real_accept(int, struct sockaddr*, socklen_t*);
int __real_accept4(int, struct sockaddr*, socklen_t*, int);
int __real_connect(int, const struct sockaddr*, socklen_t);
int __real_close(int);
struct hostent* __real_gethostbyname(const char*);
int __real_getaddrinfo(const char*, const char*, const struct addrinfo*, struct addrinfo**);
}

namespace {
bool g_in = false;            // inside a call of the library
Chooser* g_ch = nullptr;
int g_faults = 0;             // given in this step
string g_calls;
int g_arrive = 0;             // clients that arrive as soon as the library listens
bool g_leave = false;         // ... and have sent a message and left
int g_arrive_port = 0;
vector<int> g_peers;
bool Has127002();

string Pat(size_t n, int salt) {
  string s(n, 0);
  for (size_t i = 0; i < n; i++) s[i] = (char) (i * 37 + (i >> 8) * 11 + salt * 71 + 3);
  return s;
}
struct sockaddr_in Addr(const char* ip, int port) {
  struct sockaddr_in a;
  memset(&a, 0, sizeof a);
  a.sin_family = AF_INET;
  a.sin_port = htons((uint16_t) port);
  inet_pton(AF_INET, ip, &a.sin_addr);
  return a;
}
bool WaitFor(int fd, short ev, int ms) {
  struct pollfd p = {fd, ev, 0};
  return poll(&p, 1, ms) == 1;
}
void Timeouts(int fd, int sec = 5) {
  struct timeval t = {sec, 0};
  __real_setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &t, sizeof t);
  __real_setsockopt(fd, SOL_SOCKET, SO_SNDTIMEO, &t, sizeof t);
}
string PeerRead(int fd, size_t n) {
  string s(n, 0);
  size_t k = 0;
  while (k < n) { ssize_t r = recv(fd, &s[k], n - k, 0); if (r <= 0) break; k += (size_t) r; }
  s.resize(k);
  return s;
}
bool PeerWrite(int fd, const string& s) {
  size_t k = 0;
  while (k < s.size()) { ssize_t r = send(fd, &s[k], s.size() - k, MSG_NOSIGNAL); if (r <= 0) return false; k += (size_t) r; }
  return true;
}
void Arrive() {
  for (int i = 0; i < g_arrive; i++) {
    int fd = __real_socket(AF_INET, SOCK_STREAM, 0);
    Timeouts(fd, 1);
    struct sockaddr_in a = Addr(i && Has127002() ? "127.0.0.2" : "127.0.0.1", g_arrive_port);   // the server is reached by any address of its host
    if (__real_connect(fd, (struct sockaddr*) &a, sizeof a) < 0) { __real_close(fd); continue; }
    if (g_leave) { PeerWrite(fd, Pat(500, 4)); __real_close(fd); continue; }
    g_peers.push_back(fd);
  }
  g_arrive = 0;
}
void DropPeers() { for (int f : g_peers) __real_close(f); g_peers.clear(); }
// Asks whether this call fails, and how.
int Fault(const char* name, std::initializer_list<int> errs) {
  if (!g_in) return 0;
  g_calls += (g_calls.empty() ? "" : " ") + string(name);
  if (!g_ch) return 0;
  int c = g_ch->choose((int) errs.size() + 1);
  if (c == 0) return 0;
  g_faults++;
  g_calls += "!" + std::to_string(c);
  return errs.begin()[c - 1];
}
}  // namespace

extern "C" {
int __wrap_socket(int d, int t, int p) {
  if (int e = Fault("socket", {EMFILE, EACCES})) { errno = e; return -1; }
  return __real_socket(d, t, p);
}
int __wrap_setsockopt(int s, int l, int o, const void* v, socklen_t n) {
  if (int e = Fault("setsockopt", {ENOPROTOOPT, ENOMEM})) { errno = e; return -1; }
  return __real_setsockopt(s, l, o, v, n);
}
int __wrap_bind(int s, const struct sockaddr* a, socklen_t n) {
  if (int e = Fault("bind", {EADDRINUSE, EACCES})) { errno = e; return -1; }
  return __real_bind(s, a, n);
}
int __wrap_listen(int s, int b) {
  if (int e = Fault("listen", {EADDRINUSE, ENOBUFS})) { errno = e; return -1; }
  int r = __real_listen(s, b);
  if (g_in && r == 0) { bool in = g_in; g_in = false; Arrive(); g_in = in; }
  return r;
}
int __wrap_accept(int s, struct sockaddr* a, socklen_t* n) {
  if (int e = Fault("accept", {EMFILE, ECONNABORTED, EINTR})) { errno = e; return -1; }
  return __real_accept(s, a, n);
}
int __wrap_accept4(int s, struct sockaddr* a, socklen_t* n, int f) {
  if (int e = Fault("accept4", {EMFILE, ECONNABORTED, EINTR})) { errno = e; return -1; }
  return __real_accept4(s, a, n, f);
}
int __wrap_connect(int s, const struct sockaddr* a, socklen_t n) {
  if (int e = Fault("connect", {ECONNREFUSED, ETIMEDOUT, EINTR, ENETUNREACH})) { errno = e; return -1; }
  return __real_connect(s, a, n);
}
int __wrap_close(int s) {
  int e = Fault("close", {EINTR, EIO});
  int r = __real_close(s);   // the descriptor is released in any case
  if (e) { errno = e; return -1; }
  return r;
}
struct hostent* __wrap_gethostbyname(const char* name) {
  if (int e = Fault("gethostbyname", {HOST_NOT_FOUND, TRY_AGAIN})) { h_errno = e; return nullptr; }
  return __real_gethostbyname(name);
}
int __wrap_getaddrinfo(const char* a, const char* b, const struct addrinfo* h, struct addrinfo** r) {
  if (Fault("getaddrinfo", {1, 2})) return EAI_NONAME;
  return __real_getaddrinfo(a, b, h, r);
}
}

namespace {
// Open descriptors and what they are.
std::map<int, std::pair<uint64_t, uint64_t>> Table() {
  std::map<int, std::pair<uint64_t, uint64_t>> t;
  for (int fd = 0; fd < 256; fd++) {
    struct stat st;
    if (fstat(fd, &st) == 0) t[fd] = {(uint64_t) st.st_dev, (uint64_t) st.st_ino};
  }
  return t;
}
string Diff(const std::map<int, std::pair<uint64_t, uint64_t>>& a, const std::map<int, std::pair<uint64_t, uint64_t>>& b) {
  for (auto& p : b) if (!a.count(p.first)) return "descriptor " + std::to_string(p.first) + " stays open";
  for (auto& p : a) {
    if (!b.count(p.first)) return "descriptor " + std::to_string(p.first) + ", which is not the library's, was closed";
    if (b.at(p.first) != p.second) return "descriptor " + std::to_string(p.first) + ", which is not the library's, was replaced";
  }
  return "";
}
// A port nobody uses.
int FreePort(int shard) {
  static int k = 0;
  for (int n = 0; n < 4000; n++) {
    int port = 12000 + (shard % 16) * 1000 + (k++ + (getpid() % 7) * 131) % 1000;
    int fd = __real_socket(AF_INET, SOCK_STREAM, 0), one = 1;
    struct sockaddr_in a = Addr("0.0.0.0", port);
    __real_setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
    int r = __real_bind(fd, (struct sockaddr*) &a, sizeof a);
    __real_close(fd);
    if (r == 0) return port;
  }
  return -1;
}
int Listener(const char* ip, int port) {
  int fd = __real_socket(AF_INET, SOCK_STREAM, 0), one = 1;
  __real_setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
  struct sockaddr_in a = Addr(ip, port);
  if (__real_bind(fd, (struct sockaddr*) &a, sizeof a) < 0 || __real_listen(fd, 5) < 0) { __real_close(fd); return -1; }
  Timeouts(fd);
  return fd;
}
int AcceptOn(int l, int ms) {
  if (!WaitFor(l, POLLIN, ms)) return -1;
  int fd = __real_accept(l, nullptr, nullptr);
  if (fd >= 0) Timeouts(fd);
  return fd;
}
// A call of the library; one that never returns ends the process (SIGALRM).
template <class F> int Lib(F f) { alarm(10); g_in = true; int r = f(); g_in = false; alarm(0); return r; }

// Both directions of an established connection.
string Talk(int fd, int peer, int salt) {
  Timeouts(fd);
  string m = Pat(1000, salt), b(1000, 0);
  if (Lib([&] { return SendData(fd, m.data(), 1000); }) != SUCCESS) return "sending fails on the connection";
  if (PeerRead(peer, 1000) != m) return "a message sent on the connection does not arrive at the peer";
  m = Pat(1000, salt + 1);
  if (!PeerWrite(peer, m)) return "the peer cannot send on the connection";
  if (Lib([&] { return RecvData(fd, &b[0], 1000); }) != SUCCESS || b != m) return "a message of the peer is not received from the connection";
  return "";
}
bool Gone(int peer) { char c; ssize_t r = recv(peer, &c, 1, 0); return r == 0 || (r < 0 && errno == ECONNRESET); }

bool Has127002() {
  static int h = -1;
  if (h < 0) { int fd = Listener("127.0.0.2", 0); h = fd >= 0; if (fd >= 0) __real_close(fd); }
  return h;
}
bool HasLocalhost() {
  static int h = -1;
  if (h < 0) {
    h = 0;
    struct hostent* e = __real_gethostbyname("localhost");
    if (e && e->h_addrtype == AF_INET && memcmp(e->h_addr, "\x7f\0\0\1", 4) == 0) h = 1;
  }
  return h;
}

// One step of a history; empty if it went as it should.
string Step(Ctx& x, char op, int port) {
  auto before = Table();
  g_faults = 0;
  string e, out;
  bool failed = false;
  bool must_fail = false;
  switch (op) {
    case 'S': {   // a client arrives, both talk, the server closes
      g_arrive = 1; g_leave = false; g_arrive_port = port;
      int fd = Lib([&] { return ServerInit(port); });
      failed = fd == FAILURE;
      if (failed) break;
      if (g_peers.size() != 1) { e = "a connection is reported that no client made"; break; }
      e = Talk(fd, g_peers[0], 1);
      if (!e.empty()) break;
      Lib([&] { return ServerClose(fd); });
      if (!Gone(g_peers[0])) e = "the connection is still open after it was closed";
      break;
    }
    case 's': {   // the client has sent a message and left
      g_arrive = 1; g_leave = true; g_arrive_port = port;
      int fd = Lib([&] { return ServerInit(port); });
      failed = fd == FAILURE;
      if (failed) break;
      Timeouts(fd);
      string b(500, 0);
      char c = 0;
      if (Lib([&] { return RecvData(fd, &b[0], 500); }) != SUCCESS || b != Pat(500, 4)) e = "what the client sent before it left is not received";
      else if (Lib([&] { return RecvData(fd, &c, 1); }) == SUCCESS) e = "data received that nobody sent";
      else {
        string m = Pat(4096, 2);
        int r = SUCCESS;
        for (int i = 0; i < 400 && r == SUCCESS; i++) { r = Lib([&] { return SendData(fd, m.data(), 4096); }); if (i < 3) usleep(500); }
        if (r == SUCCESS) e = "sending to a client that has left never fails";
      }
      Lib([&] { return ServerClose(fd); });
      break;
    }
    case 'W': {   // two clients, accepted one after the other
      g_arrive = 2; g_leave = false; g_arrive_port = port;
      if (Lib([&] { return ServerOpenSocket(port); }) == FAILURE) { failed = true; break; }
      int a = Lib([&] { return ServerWaitForClient(); });
      int b = a == FAILURE ? FAILURE : Lib([&] { return ServerWaitForClient(); });
      failed = a == FAILURE || b == FAILURE;
      if (!failed) {
        if (g_peers.size() != 2 || a == b) { e = "two connections are reported that two clients did not make"; break; }
        e = Talk(a, g_peers[0], 3);
        if (e.empty()) e = Talk(b, g_peers[1], 5);
      }
      if (a != FAILURE) Lib([&] { return ClientClose(a); });
      Lib([&] { return ServerClose(b); });
      break;
    }
    case 'B': {   // the port is in use
      int l = Listener("0.0.0.0", port);
      int fd = Lib([&] { return ServerInit(port); });
      failed = fd == FAILURE;
      must_fail = true;
      __real_close(l);
      break;
    }
    case 'C': case 'L': case 'G': {   // a client by address, by name, by another address of this host
      const char* host = op == 'C' ? "127.0.0.1" : op == 'L' ? "localhost" : "127.0.0.2";
      int l = Listener(op == 'G' ? "127.0.0.2" : "127.0.0.1", port), l2 = op == 'G' ? Listener("127.0.0.1", port) : -1;
      int fd = Lib([&] { return ClientInit(host, port); });
      failed = fd == FAILURE;
      if (!failed) {
        int p = AcceptOn(l, 2000);
        if (p < 0) e = "a connection is reported that did not reach the server";
        else {
          e = Talk(fd, p, 7);
          Lib([&] { return ClientClose(fd); });
          if (e.empty() && !Gone(p)) e = "the connection is still open after it was closed";
          __real_close(p);
        }
      }
      __real_close(l);
      if (l2 >= 0) __real_close(l2);
      break;
    }
    case 'c': {   // the server leaves after it accepted
      int l = Listener("127.0.0.1", port);
      int fd = Lib([&] { return ClientInit("127.0.0.1", port); });
      failed = fd == FAILURE;
      if (!failed) {
        int p = AcceptOn(l, 2000);
        if (p < 0) e = "a connection is reported that did not reach the server";
        else {
          PeerWrite(p, Pat(300, 8));
          __real_close(p);
          Timeouts(fd);
          string b(300, 0), m = Pat(4096, 9);
          char c = 0;
          if (Lib([&] { return RecvData(fd, &b[0], 300); }) != SUCCESS || b != Pat(300, 8)) e = "what the server sent before it left is not received";
          else if (Lib([&] { return RecvData(fd, &c, 1); }) == SUCCESS) e = "data received that nobody sent";
          else {
            int r = SUCCESS;
            for (int i = 0; i < 400 && r == SUCCESS; i++) { r = Lib([&] { return SendData(fd, m.data(), 4096); }); if (i < 3) usleep(500); }
            if (r == SUCCESS) e = "sending to a server that has left never fails";
          }
          Lib([&] { return ClientClose(fd); });
        }
      }
      __real_close(l);
      break;
    }
    case 'R': {   // nobody listens
      int fd = Lib([&] { return ClientInit("127.0.0.1", port); });
      failed = fd == FAILURE;
      must_fail = true;
      break;
    }
    case 'P': case 'p': case 'N': case 'n': {   // ports that do not exist
      int bad = op == 'P' || op == 'p' ? port + 65536 : port - 65536;
      must_fail = true;
      if (op == 'P' || op == 'N') {
        g_arrive = 1; g_leave = false; g_arrive_port = port;
        failed = Lib([&] { return ServerInit(bad); }) == FAILURE;
      } else {
        int l = Listener("127.0.0.1", port);
        failed = Lib([&] { return ClientInit("127.0.0.1", bad); }) == FAILURE;
        __real_close(l);
      }
      break;
    }
  }
  g_arrive = 0;
  DropPeers();
  x.outcome(string(1, op) + (failed ? "f" : "o") + std::to_string(g_faults) + g_calls);
  if (e.empty() && failed && !must_fail && !g_faults) e = "failure is reported although nothing failed";
  if (e.empty() && !failed && must_fail) e = "success is reported for a connection that cannot be";
  if (e.empty()) e = Diff(before, Table());
  return e;
}

void History(Ctx& x, const string& steps, bool nostdin, Chooser* ch, const string& d) {
  static int keep = -1;
  if (keep < 0) { keep = fcntl(0, F_DUPFD, 900); if (keep < 0) keep = open("/dev/null", O_RDONLY); }
  if (nostdin) __real_close(0);
  int port = FreePort(x.shard);
  if (port < 0) { if (x.caps.empty()) x.caps.push_back("no free port"); return; }
  signal(SIGALRM, SIG_DFL);
  signal(SIGPIPE, SIG_DFL);   // as in the programs
  g_ch = ch;
  string e;
  for (size_t i = 0; i < steps.size() && e.empty(); i++) {
    g_calls.clear();
    // with no descriptor 0, what the connection calls return may be 0
    e = Step(x, steps[i], port);
    if (!e.empty()) e = "step " + std::to_string(i + 1) + " (" + steps[i] + "; calls: " + g_calls + "): " + e;
    x.transitions++;
  }
  g_ch = nullptr;
  for (auto& p : Table()) { struct stat st; if (p.first > 2 && p.first < 256 && fstat(p.first, &st) == 0 && S_ISSOCK(st.st_mode) && !e.empty()) __real_close(p.first); }
  if (nostdin) { __real_close(0); dup2(keep, 0); }
  if (!e.empty()) x.violation(d, e);
}
string Desc(const string& steps, bool nostdin, const Chooser& c) {
  string d = "conn:h=" + steps + ";in=" + std::to_string(nostdin) + ";ch=";
  for (size_t i = 0, f = 0; i < c.prefix.size(); i++) if (c.prefix[i]) d += (f++ ? "." : "") + std::to_string(i) + ":" + std::to_string(c.prefix[i]);
  return d;
}
bool Usable(char op) { return op == 'L' ? HasLocalhost() : op == 'G' ? Has127002() : true; }

void C37(Ctx& x) {
  const string ops = "SsWBCLGcRPpNn";
  vector<string> hs;
  int depth = x.thorough() ? 4 : 3;
  vector<string> cur = {""};
  for (int k = 1; k <= depth; k++) {
    vector<string> nx;
    for (auto& h : cur) for (char o : ops) if (Usable(o)) nx.push_back(h + o);
    for (auto& h : nx) hs.push_back(h);
    cur = nx;
  }
  for (auto& h : hs) for (int in = 0; in < (h.size() < 3 ? 2 : 1); in++) {
    if (!x.mine()) continue;
    int bound = h.size() == 1 ? 4 : h.size() == 2 ? 2 : x.thorough() && h.size() == 3 ? 2 : 1;
    bool capped = false;
    ExploreChoices(bound, 400000, [&](Chooser& c) {
      string d = Desc(h, in, c);
      x.begin(d);
      x.state(d);
      History(x, h, in, &c, d);
      if ((x.evals & 255) == 3) x.sample(d + " -> " + g_calls);
      return !x.stopped();
    }, &capped);
    if (capped) x.caps.push_back("execution cap for history " + h);
  }
}
void C37R(Ctx& x, const string& c) {
  KV k(c.substr(5));
  Chooser ch;
  string s = k.get("ch");
  if (!s.empty()) for (auto& f : Split(s, '.')) {
    auto q = Split(f, ':');
    size_t i = atoi(q[0].c_str());
    if (ch.prefix.size() <= i) ch.prefix.resize(i + 1, 0);
    ch.prefix[i] = atoi(q[1].c_str());
  }
  x.begin(c);
  History(x, k.get("h"), k.geti("in"), &ch, c);
}
PropReg r37("C37", C37, C37R);
}  // namespace
