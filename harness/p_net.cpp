// C16 transport, C17 broken connections, C18 schedules and buffering.
#include "fam.h"
#include <errno.h>
#include <openssl/bn.h>
#include "crypto/BN.h"
#include "tcpip/tcpip.h"
#include "util/common.h"

namespace {
string Pat(size_t n, int salt = 0) {
  string s(n, 0);
  for (size_t i = 0; i < n; i++) s[i] = (char) (i * 131 + (i >> 8) * 17 + salt * 29 + 1);
  return s;
}
// Answers of the operating system at one I/O point, as alternatives:
// 0: everything possible; 1..possible-1: that many bytes; then failures.
enum { F_EOF, F_EPIPE, F_RESET, F_INTR, F_AGAIN, F_N };
struct OsModel {
  Chooser* ch = nullptr;
  int faults = 0;          // failing answers given
  bool permanent = false;
  int perm_kind = 0;
  int transient = 0;
  size_t frag_limit = 64;  // at most this many fragment alternatives
  IoAnswer Give(int k, bool w) {
    faults++;
    switch (k) {
      case F_EOF: return {0, 0, false};
      case F_EPIPE: return {-1, w ? EPIPE : ECONNRESET, false};
      case F_RESET: return {-1, ECONNRESET, false};
      case F_INTR: return {-1, EINTR, false};
      default: return {-1, EAGAIN, false};
    }
  }
  IoAnswer operator()(const IoPoint& p) {
    if (permanent) return Give(perm_kind, p.is_write);
    size_t nf = p.possible < frag_limit ? p.possible : frag_limit;
    int nfault = transient < 2 ? (int) F_N : (int) F_INTR;
    int c = ch->choose((int) nf + nfault);
    if (c == 0) return {(long) p.possible, 0, false};
    if (c < (int) nf) return {(long) c, 0, false};
    int k = c - (int) nf;
    if (k == F_EOF || k == F_EPIPE || k == F_RESET) { permanent = true; perm_kind = k; } else transient++;
    return Give(k, p.is_write);
  }
};

// kind 0: send `len` bytes; 1: receive `len` of `len`+extra bytes; 2: the stream ends after `len`-short bytes
void OneSided(Ctx& x, const string& d, int kind, int len, int extra, Chooser& ch) {
  const size_t G = 32;
  string data = Pat(len > 0 ? len : 0, kind), buf(G + (len > 0 ? len : 0) + G, (char) 0xC5);
  Net net;
  net.max_ops = 20000 + 4l * len;
  OsModel os;
  os.ch = &ch;
  net.answer = [&](const IoPoint& p) { return os(p); };
  int r = 99;
  if (kind == 0) {
    RunOne(&net, 0, [&] { r = SendData(kFdA, data.data(), len); });
  } else {
    string stream = kind == 1 ? data + Pat(extra, 9) : data.substr(0, len - extra);
    net.q[1] = stream;
    net.fin[1] = true;
    RunOne(&net, 0, [&] { r = RecvData(kFdA, &buf[G], len); });
  }
  x.transitions += net.gops;
  string e;
  if (net.livelock) e = "the call never returns: it keeps retrying a connection that has ended";
  else if (net.deadlock) e = "the call blocks although the connection has ended";
  else if (net.bad_io) e = "I/O request outside the buffer (negative length or wrong descriptor)";
  else if (kind == 0) {
    if (net.sent[0].size() > data.size() || data.compare(0, net.sent[0].size(), net.sent[0]) != 0) e = "bytes on the connection are not a prefix of the buffer: " + HexOf(net.sent[0]).substr(0, 80);
    else if (r == SUCCESS && net.sent[0] != data) e = "success reported with " + std::to_string(net.sent[0].size()) + " of " + std::to_string(len) + " bytes sent";
    else if (r != SUCCESS && !os.faults) e = "failure reported although the transport never failed";
  } else {
    for (size_t i = 0; i < G; i++) if (buf[i] != (char) 0xC5 || buf[G + len + i] != (char) 0xC5) e = "memory outside the buffer was written";
    if (e.empty()) {
      size_t got = net.head[1] ? net.head[1] : net.q[1].empty() ? (kind == 1 ? (size_t) len + extra : (size_t) len - extra) : 0;
      if (r == SUCCESS && kind == 2) e = "success reported although the connection ended early";
      else if (r == SUCCESS && (buf.compare(G, len, data) != 0 || got != (size_t) len)) e = "success reported with wrong or missing bytes (" + std::to_string(got) + " of " + std::to_string(len) + " consumed)";
      else if (got > (size_t) len) e = "more bytes consumed than requested";
      else if (r != SUCCESS && !os.faults && kind == 1) e = "failure reported although the transport never failed";
    }
  }
  x.outcome(std::to_string(kind) + ":" + std::to_string(r) + ":" + std::to_string(net.gops) + ":" + std::to_string(os.faults));
  if (!e.empty()) x.violation(d, e);
}
string ChStr(const Chooser& c) { string s; for (auto& p : c.pts) s += (s.empty() ? "" : ".") + std::to_string(p.alt); return s; }
vector<int> ChVec(const string& s) { vector<int> v; if (!s.empty()) for (auto& f : Split(s, '.')) v.push_back(atoi(f.c_str())); return v; }
string OneDesc(int kind, int len, int extra, const string& ch) { return "one:k=" + std::to_string(kind) + ";len=" + std::to_string(len) + ";extra=" + std::to_string(extra) + ";ch=" + ch; }
void OneCase(Ctx& x, int kind, int len, int extra, int bound) {
  if (!x.mine()) return;
  bool capped = false;
  ExploreChoices(bound, 400000, [&](Chooser& c) {
    string pre = OneDesc(kind, len, extra, "");
    for (size_t i = 0; i < c.prefix.size(); i++) pre += (i ? "." : "") + std::to_string(c.prefix[i]);
    x.begin(pre);
    x.state(pre);
    OneSided(x, pre, kind, len, extra, c);
    if ((x.evals & 2047) == 3) x.sample(pre);
    return !x.stopped();
  }, &capped);
  if (capped) x.caps.push_back("execution cap for " + OneDesc(kind, len, extra, ""));
}
// Two parties exchange messages through a small buffer that fragments at will.
// msgs: lengths, direction alternates per `dirs` bit.
void Exchange(Ctx& x, const vector<int>& lens, int dirs, size_t cap, int frag) {
  string d = "ex:dirs=" + std::to_string(dirs) + ";cap=" + std::to_string((long) cap) + ";frag=" + std::to_string(frag) + ";lens=";
  for (size_t i = 0; i < lens.size(); i++) d += (i ? "." : "") + std::to_string(lens[i]);
  x.begin(d);
  x.state(d);
  Net net;
  net.cap = cap;
  net.keep_transcript = false;
  net.max_ops = 8000000;
  static const int fr[] = {0, 1, 2, 3, 7, 16, 1000, 4095, 65536};
  if (frag) net.answer = [&](const IoPoint& p) { long f = fr[frag % 9]; if (frag >= 9) f = 1 + (p.gidx * 7 + p.pidx * 3) % (frag == 9 ? 5 : 977); return IoAnswer{f < (long) p.possible ? f : (long) p.possible, 0, false}; };
  bool bad[2] = {false, false};
  auto body = [&](int me) {
    int fd = me ? kFdB : kFdA;
    for (size_t k = 0; k < lens.size(); k++) {
      string m = Pat(lens[k], (int) k);
      if ((int) (dirs >> k & 1) == me) { if (SendData(fd, m.data(), lens[k]) != SUCCESS) { bad[me] = true; return; } }
      else {
        string b(lens[k] + 16, (char) 0x77);
        if (RecvData(fd, &b[8], lens[k]) != SUCCESS || b.compare(8, lens[k], m) != 0 || b.substr(0, 8) != string(8, 0x77) || b.substr(8 + lens[k]) != string(8, 0x77)) { bad[me] = true; return; }
      }
    }
  };
  RunTwo(&net, [&] { body(0); }, [&] { body(1); });
  x.transitions += net.gops;
  if (net.livelock || net.deadlock || bad[0] || bad[1] || net.bad_io) x.violation(d, net.deadlock || net.livelock ? "the exchange does not finish" : "a message was not delivered intact");
}
// A big number across a fragmenting or failing transport.
void BnOne(Ctx& x, int nbytes, Chooser& ch, const string& d) {
  BIGNUM *a = BN_new(), *b = BN_new();
  string v = Pat(nbytes, 5);
  BN_bin2bn((const unsigned char*) v.data(), nbytes, a);
  BN_set_word(b, 77);
  Net net;
  net.max_ops = 20000;
  OsModel os;
  os.ch = &ch;
  os.frag_limit = 3;
  net.answer = [&](const IoPoint& p) { return os(p); };
  int rs = 99, rr = 99;
  RunTwo(&net, [&] { rs = SendBN(kFdA, a); }, [&] { rr = RecvBN(kFdB, b); });
  x.transitions += net.gops;
  string e;
  if (net.livelock || net.deadlock || net.threw[0] || net.threw[1]) e = "big-number transfer does not finish";
  else if (rr == SUCCESS && BN_cmp(a, b) != 0) e = "received big number differs from the sent one although success was reported";
  else if (!os.faults && (rs != SUCCESS || rr != SUCCESS)) e = "big-number transfer fails although the transport never failed";
  else if (rs == SUCCESS && os.permanent && net.sent[0].size() < 4u + nbytes) e = "big-number send reports success with bytes missing";
  x.outcome(std::to_string(rs) + "/" + std::to_string(rr));
  if (!e.empty()) x.violation(d, e);
  BN_free(a); BN_free(b);
}
void BnCase(Ctx& x, int n, int bound) {
  if (!x.mine()) return;
  bool capped;
  ExploreChoices(bound, 200000, [&](Chooser& c) {
    string pre = "bn:n=" + std::to_string(n) + ";ch=";
    for (size_t i = 0; i < c.prefix.size(); i++) pre += (i ? "." : "") + std::to_string(c.prefix[i]);
    x.begin(pre);
    x.state(pre);
    BnOne(x, n, c, pre);
    return !x.stopped();
  }, &capped);
  if (capped) x.caps.push_back("execution cap for big numbers");
}
void C16(Ctx& x) {
  int full = x.thorough() ? 9 : 7;
  for (int len = 1; len <= full; len++) {
    OneCase(x, 0, len, 0, 1000);
    for (int extra = 0; extra <= 2; extra++) OneCase(x, 1, len, extra, 1000);
    for (int sh = 1; sh <= len; sh++) OneCase(x, 2, len, sh, 1000);
  }
  for (int len : {-2147483647, -5, -1, 0}) { OneCase(x, 0, len, 0, 2); }
  for (int len = full + 1; len <= 40; len++) {
    OneCase(x, 0, len, 0, x.thorough() ? 3 : 2);
    OneCase(x, 1, len, 3, x.thorough() ? 3 : 2);
    OneCase(x, 2, len, 1, 2);
  }
  for (int len : {127, 128, 255, 256, 257, 4095, 4096, 4097, 65535, 65536, 65537, 1 << 20}) {
    OneCase(x, 0, len, 0, len < 70000 ? 1 : 1);
    OneCase(x, 1, len, 1, 1);
    OneCase(x, 2, len, 1, 1);
    OneCase(x, 2, len, len / 2 + 1, 1);
  }
  for (int len : {(1 << 20) + 1, (1 << 22) + 3, (1 << 24) + 1}) { OneCase(x, 0, len, 0, 0); OneCase(x, 1, len, 1, 0); OneCase(x, 2, len, 1, 0); }
  for (size_t cap : {(size_t) 1, (size_t) 2, (size_t) 3, (size_t) 16, (size_t) 17, (size_t) 4096, (size_t) -1}) for (int frag = 0; frag < 11; frag++) {
    for (int dirs = 0; dirs < 16; dirs++) for (int v = 0; v < 6; v++) {
      static const int ls[6][4] = {{1, 1, 1, 1}, {4, 16, 8, 2}, {16, 48, 8, 48}, {0, 5, 0, 7}, {33, 1, 64, 3}, {3, 100, 2, 300}};
      if (x.mine()) Exchange(x, vector<int>(ls[v], ls[v] + 4), dirs, cap, frag);
    }
    if (cap >= 16 && (frag == 0 || frag > 3)) for (int dirs = 0; dirs < 4; dirs++) if (x.mine()) Exchange(x, {70000, 65537}, dirs, cap, frag);
  }
  for (int n : {0, 1, 2, 3, 15, 16, 17, 127, 128, 129}) BnCase(x, n, x.thorough() ? 4 : 3);
}
void C16R(Ctx& x, const string& c) {
  KV k(c.substr(c.find(':') + 1));
  Chooser ch;
  ch.prefix = ChVec(k.get("ch"));
  if (c.compare(0, 4, "one:") == 0) OneSided(x, c, k.geti("k"), k.geti("len"), k.geti("extra"), ch);
  else if (c.compare(0, 3, "bn:") == 0) BnOne(x, k.geti("n"), ch, c);
  else Exchange(x, ChVec(k.get("lens")), k.geti("dirs"), (size_t) k.geti("cap"), k.geti("frag"));
}
PropReg r16("C16", C16, C16R);

// ------------------------------------------------------------------ sessions under faults and schedules
// The pool of other modules plus sessions through the OT extension and with several batches of labels.
const vector<Session>& Pool() {
  static vector<Session> v;
  if (!v.empty()) return v;
  v = SessionPool();
  for (int low = 0; low < 2; low++) {
    Session s;
    s.c = WideCircuit(130, false);
    s.cc = low ? 2 : 1; s.lowmem = low; s.no_ot = false; s.seed = 4; s.mask = BitsHex(Pattern(130, 4));
    s.in.g_in = Pattern(130 * s.cc, 6); s.in.e_in = Pattern(130 * s.cc, 5);
    v.push_back(s);
  }
  // evaluator and garbler initial values, base OT, registers
  for (int m = 0; m < 4; m++) {
    Session s;
    Circuit c;
    c.pi = 1; c.gi = 3; c.ei = 3; c.gin = 2; c.ein = 2; c.pin = 1;
    c.D.assign(7, 0); c.I.assign(7, 0);
    for (int i = 0; i < 7; i++) { c.I[i] = i; }
    c.g = {{c.Q(1), c.Q(4), 8}, {c.Q(2), c.E(0), 14}, {c.Q(5), c.G(0), 11}, {c.G(1), c.E(1), 1}, {c.Q(0), c.E(1), 8}};
    for (int i = 0; i < 7; i++) c.D[i] = i < 5 ? c.W(i) : c.Q(i - 1);
    c.out = {c.W(0), c.W(1), c.W(2), c.W(3), c.W(4), c.Q(6)};
    s.c = c; s.cc = 3; s.in = MakeInputs(c, 3, 0x5DA3C96Eull); s.lowmem = m & 1; s.no_ot = !(m & 2); s.mask = "15"; s.seed = 4 + m;
    v.push_back(s);
  }
  return v;
}
bool IsExt(const Session& s) { return s.c.ein > 128 && !s.no_ot; }

// fault kinds at one I/O operation of one party
enum { K_CUT, K_CUT1, K_CUTL, K_RESET, K_EOF, K_EINTR, K_DROP, K_NUM };
void FaultRun(Ctx& x, int id, int party, long op, int kind, long* nops) {
  const Session& s = Pool()[id];
  string d = "fault:s=" + std::to_string(id) + ";p=" + std::to_string(party) + ";op=" + std::to_string(op) + ";k=" + std::to_string(kind);
  x.begin(d);
  Net net;
  net.keep_transcript = false;
  net.max_ops = 300000;
  bool fired = false, sticky = false;
  net.answer = [&](const IoPoint& p) -> IoAnswer {
    if (sticky && p.party == party) return kind == K_EOF && !p.is_write ? IoAnswer{0, 0, false} : IoAnswer{-1, kind == K_EOF ? EPIPE : ECONNRESET, false};
    if (fired || p.party != party || p.pidx != op) return {(long) p.possible, 0, false};
    fired = true;
    switch (kind) {
      case K_CUT: return {-1, p.is_write ? EPIPE : ECONNRESET, true};
      case K_CUT1: return {1, 0, true};
      case K_CUTL: return {p.possible > 1 ? (long) p.possible - 1 : 1, 0, true};
      case K_RESET: sticky = true; return {-1, ECONNRESET, false};
      case K_EOF: sticky = true; return p.is_write ? IoAnswer{-1, EPIPE, false} : IoAnswer{0, 0, false};
      case K_EINTR: return {-1, EINTR, false};
      default:  // reset that also discards what is in flight
        net.q[0].clear(); net.q[1].clear(); net.head[0] = net.head[1] = 0;
        return {-1, ECONNRESET, true};
    }
  };
  SessResult r = RunSession(s, &net);
  if (nops) *nops = net.pops[party];
  x.transitions += net.gops;
  RefTrace t = RefRun(s.c, s.in, s.cc, s.period);
  string e;
  if (net.livelock) e = "a party never terminates after the connection failed";
  else if (net.deadlock) e = "a party blocks forever after the connection failed";
  else if (net.threw[0] || net.threw[1]) e = "exception escaped: " + net.what[0] + net.what[1];
  else {
    if (r.ra == 0 && NormOut(r.oa, s.mode) != ExpectOut(s, t, true)) e = "garbler reports success with output " + NormOut(r.oa, s.mode) + ", correct is " + ExpectOut(s, t, true);
    if (r.rb == 0 && NormOut(r.ob, s.mode) != ExpectOut(s, t, false)) e += "evaluator reports success with output " + NormOut(r.ob, s.mode) + ", correct is " + ExpectOut(s, t, false);
    if (e.empty() && !fired && op >= 0 && (r.ra || r.rb)) e = "failure reported although the connection never failed";
  }
  x.outcome(std::to_string(r.ra) + std::to_string(r.rb) + r.oa + r.ob);
  if (fired) x.state(d);
  if (fired && x.evals % 1999 == 11) x.sample(d + " -> " + std::to_string(r.ra) + "/" + std::to_string(r.rb));
  if (!e.empty()) x.violation(d, e);
}
void C17(Ctx& x) {
  int n = (int) Pool().size();
  for (int id = 0; id < n; id++) {
    bool ext = IsExt(Pool()[id]);
    // operation counts from a faultless run (every shard)
    long nops[2];
    for (int p = 0; p < 2; p++) {
      Net net;
      net.keep_transcript = false;
      x.begin("fault:s=" + std::to_string(id) + ";p=0;op=-1;k=0");
      RunSession(Pool()[id], &net);
      nops[0] = net.pops[0]; nops[1] = net.pops[1];
    }
    for (int p = 0; p < 2; p++) for (long op = 0; op < nops[p]; op++) for (int k = 0; k < K_NUM; k++) {
      if (ext && !x.thorough() && (k == K_CUTL || k == K_EINTR || k == K_DROP)) continue;
      if (ext && !x.thorough() && op > 60 && op + 700 < nops[p] && op % 7 != k) continue;
      if (x.mine()) FaultRun(x, id, p, op, k, nullptr);
    }
  }
}
void C17R(Ctx& x, const string& c) {
  KV k(c.substr(6));
  FaultRun(x, k.geti("s"), k.geti("p"), k.geti("op"), k.geti("k"), nullptr);
}
PropReg r17("C17", C17, C17R);

// ------------------------------------------------------------------ schedules
struct Ref { SessResult r; string sent[2]; bool ok = false; };
Ref& RefOf(int id) {
  static std::map<int, Ref> m;
  Ref& f = m[id];
  if (!f.ok) {
    Net net;
    f.r = RunSession(Pool()[id], &net);
    f.sent[0] = net.sent[0]; f.sent[1] = net.sent[1];
    f.ok = true;
  }
  return f;
}
// frag: 0 none, 1: every transfer one byte, 2: alternative choice at each operation (costs one deviation)
void SchedRun(Ctx& x, int id, long cap, int frag, Chooser& ch, const string& d) {
  const Session& s = Pool()[id];
  Ref& ref = RefOf(id);
  Net net;
  net.cap = cap < 0 ? (size_t) -1 : (size_t) cap;
  net.max_ops = 3000000;
  uint64_t h0 = HashStr(d.substr(0, d.find(";ch=")));
  net.pick = [&](int, int cur) {
    uint64_t st[4] = {(uint64_t) net.pops[0], (uint64_t) net.pops[1], net.leftover(0), net.leftover(1)};
    x.states.insert(Hash64(st, sizeof st, h0));
    return ch.choose(2) ? 1 - cur : cur;
  };
  if (frag == 1) net.answer = [&](const IoPoint&) { return IoAnswer{1, 0, false}; };
  if (frag == 2) net.answer = [&](const IoPoint& p) {
    int c = p.possible > 1 ? ch.choose(p.possible > 2 ? 3 : 2) : 0;
    return IoAnswer{c == 0 ? (long) p.possible : c == 1 ? 1 : (long) p.possible - 1, 0, false};
  };
  SessResult r = RunSession(s, &net);
  x.transitions += net.gops;
  string e = CheckSession(s, r, net);
  if (e.empty()) for (int p = 0; p < 2; p++) if (net.sent[p] != ref.sent[p]) { size_t q = 0; while (q < net.sent[p].size() && q < ref.sent[p].size() && net.sent[p][q] == ref.sent[p][q]) q++; e = "first difference at byte " + std::to_string(q) + ": the bytes " + (p ? "evaluator to garbler" : "garbler to evaluator") + " depend on the schedule (" + std::to_string(net.sent[p].size()) + " bytes, " + std::to_string(ref.sent[p].size()) + " in the reference run)";}
  x.outcome(std::to_string(net.switches) + ":" + std::to_string(net.max_inflight[0]));
  if (!e.empty()) x.violation(d, e);
}
void SchedCase(Ctx& x, int id, long cap, int frag, int bound, int sub, int nsub) {
  if (!x.mine()) return;
  bool capped;
  long idx = 0;
  ExploreChoices(bound, 300000, [&](Chooser& c) {
    (void) idx;
    string d = "sch:s=" + std::to_string(id) + ";cap=" + std::to_string(cap) + ";frag=" + std::to_string(frag) + ";ch=";
    // schedules are mostly zeros: written as position:alternative
    for (size_t i = 0, f = 0; i < c.prefix.size(); i++) if (c.prefix[i]) d += (f++ ? "." : "") + std::to_string(i) + ":" + std::to_string(c.prefix[i]);
    x.begin(d);
    SchedRun(x, id, cap, frag, c, d);
    if ((x.evals & 8191) == 9) x.sample(d);
    return !x.stopped();
  }, &capped);
  (void) sub; (void) nsub;
  if (capped) x.caps.push_back("schedule cap for session " + std::to_string(id) + " capacity " + std::to_string(cap));
}
void C18(Ctx& x) {
  int n = (int) Pool().size();
  vector<long> caps = {-1, 1, 2, 3, 4, 7, 8, 15, 16, 17, 31, 32, 33, 47, 48, 49, 64, 100, 128};
  if (!x.thorough()) caps = {-1, 1, 2, 3, 8, 16, 17, 48, 64};
  for (int id = 0; id < n; id++) {
    bool ext = IsExt(Pool()[id]);
    Net net;
    RunSession(Pool()[id], &net);
    long ops = net.gops;
    for (long c : caps) for (int frag = 0; frag < 3; frag++) {
      int b;
      if (ext) b = 0;
      else if (frag == 1 || (c > 0 && c < 16)) b = ops < 120 && (c == 3 || frag == 1) ? 1 : 0;
      else b = frag == 0 ? (ops < 300 ? 2 : 1) : (ops < 60 ? 2 : ops < 700 ? 1 : 0);
      if (c > 0 && c != 16 && b > 1) b = 1;
      if (x.thorough() && (c < 0 || c >= 16)) b++;
      SchedCase(x, id, c, frag, b, 0, 1);
    }
  }
}
void C18R(Ctx& x, const string& c) {
  KV k(c.substr(4));
  Chooser ch;
  string s = k.get("ch");
  if (!s.empty()) for (auto& f : Split(s, '.')) {
    auto q = Split(f, ':');
    size_t i = atoi(q[0].c_str());
    if (ch.prefix.size() <= i) ch.prefix.resize(i + 1, 0);
    ch.prefix[i] = atoi(q[1].c_str());
  }
  SchedRun(x, k.geti("s"), k.geti("cap"), k.geti("frag"), ch, c);
}
PropReg r18("C18", C18, C18R);
}  // namespace
