#include "gc.h"
#include <algorithm>
#include <fcntl.h>
#include <iostream>
#include <unistd.h>
#include "garbled_circuit/garbled_circuit.h"
#include "crypto/OT_extension.h"
#include "util/log.h"
#include "util/common.h"
#undef ERROR
#undef INFO

const int kTypes[11] = {8, 4, 7, 11, 14, 13, 1, 2, 6, 9, 12};

// The model's gate semantics, written independently of the code under test:
// truth tables as (b,a) -> output bit of the documented gate.
bool RefOp(int type, bool a, bool b) {
  switch (type) {
    case 8: return a & b;          // AND
    case 4: return a & !b;         // ANDN
    case 7: return !(a & b);       // NAND
    case 11: return !(a & !b);     // NANDN
    case 14: return a | b;         // OR
    case 13: return a | !b;        // ORN
    case 1: return !(a | b);       // NOR
    case 2: return !(a | !b);      // NORN
    case 6: return a ^ b;          // XOR
    case 9: return !(a ^ b);       // XNOR
    case 12: return !a;            // NOT
  }
  abort();
}

string Circuit::scd() const {
  string s;
  int64_t h[10] = {pi, gi, ei, pin, gin, ein, dff(), (int64_t) out.size(), term, (int64_t) g.size()};
  for (int i = 0; i < 10; i++) s += (i ? " " : "") + std::to_string(h[i]);
  s += "\n";
  for (auto& x : g) s += std::to_string(x.a) + " ";
  s += "\n";
  for (auto& x : g) s += std::to_string(x.type == 12 ? -1 : x.b) + " ";
  s += "\n";
  for (auto& x : g) s += std::to_string(x.type) + " ";
  s += "\n";
  for (auto x : out) s += std::to_string(x) + " ";
  s += "\n";
  for (auto x : D) s += std::to_string(x) + " ";
  s += "\n";
  for (auto x : I) s += std::to_string(x) + " ";
  s += "\n";
  return s;
}
string Circuit::enc() const {
  string s;
  int h[7] = {pi, gi, ei, pin, gin, ein, (int) term};
  for (int i = 0; i < 7; i++) s += (i ? "," : "") + std::to_string(h[i]);
  s += "/";
  for (size_t i = 0; i < g.size(); i++) s += (i ? "," : "") + std::to_string(g[i].type) + ":" + std::to_string(g[i].a) + ":" + std::to_string(g[i].b);
  s += "/";
  for (size_t i = 0; i < out.size(); i++) s += (i ? "," : "") + std::to_string(out[i]);
  s += "/";
  for (size_t i = 0; i < D.size(); i++) s += (i ? "," : "") + std::to_string(D[i]) + ":" + std::to_string(I[i]);
  return s;
}
bool Circuit::dec(const string& s, Circuit* c) {
  auto f = Split(s, '/');
  if (f.size() != 4) return false;
  auto h = Split(f[0], ',');
  if (h.size() != 7) return false;
  c->pi = atoi(h[0].c_str()); c->gi = atoi(h[1].c_str()); c->ei = atoi(h[2].c_str());
  c->pin = atoi(h[3].c_str()); c->gin = atoi(h[4].c_str()); c->ein = atoi(h[5].c_str());
  c->term = atoll(h[6].c_str());
  if (!f[1].empty()) for (auto& x : Split(f[1], ',')) {
    auto y = Split(x, ':');
    c->g.push_back({atoll(y[1].c_str()), atoll(y[2].c_str()), atoi(y[0].c_str())});
  }
  if (!f[2].empty()) for (auto& x : Split(f[2], ',')) c->out.push_back(atoll(x.c_str()));
  if (!f[3].empty()) for (auto& x : Split(f[3], ',')) {
    auto y = Split(x, ':');
    c->D.push_back(atoll(y[0].c_str()));
    c->I.push_back(atoll(y[1].c_str()));
  }
  return true;
}

RefTrace RefRun(const Circuit& c, const Inputs& in, int cc, int period, bool keep_wires) {
  RefTrace t;
  Bits w(c.wires(), 0);
  auto bit = [](const Bits& b, size_t i) -> uint8_t { return i < b.size() ? b[i] : 0; };
  auto val = [&](int64_t i) -> uint8_t { return i == kC0 ? 0 : i == kC1 ? 1 : w[i]; };
  for (int cid = 0; cid < cc; cid++) {
    Bits q(c.dff());
    for (int i = 0; i < c.dff(); i++) {
      if (cid == 0) {
        int64_t x = c.I[i];
        q[i] = x == kC0 ? 0 : x == kC1 ? 1 : x < c.pi ? bit(in.p_init, x)
               : x < c.pi + c.gi ? bit(in.g_init, x - c.pi) : bit(in.e_init, x - c.pi - c.gi);
      } else {
        q[i] = val(c.D[i]);
      }
    }
    for (int i = 0; i < c.dff(); i++) w[c.Q(i)] = q[i];
    t.regs.push_back(string(q.begin(), q.end()));
    for (int i = 0; i < c.pi; i++) w[i] = bit(in.p_init, i);
    for (int i = 0; i < c.pin; i++) w[c.P(i)] = bit(in.p_in, (size_t) cid * c.pin + i);
    for (int i = 0; i < c.gin; i++) w[c.G(i)] = bit(in.g_in, (size_t) cid * c.gin + i);
    for (int i = 0; i < c.ein; i++) w[c.E(i)] = bit(in.e_in, (size_t) cid * c.ein + i);
    for (size_t i = 0; i < c.g.size(); i++)
      w[c.W(i)] = RefOp(c.g[i].type, val(c.g[i].a), c.g[i].type == 12 ? 0 : val(c.g[i].b));
    Bits o(c.out.size());
    for (size_t i = 0; i < c.out.size(); i++) o[i] = val(c.out[i]);
    t.outs.push_back(o);
    if (keep_wires) t.wires.push_back(w);
    t.cycles = cid + 1;
    if (period != 0 && c.term != 0 && cid % period == 0 && val(c.term)) break;
  }
  return t;
}

string BitsHex(const Bits& b) {
  string s;
  for (size_t i = 0; i < b.size(); i += 4) {
    int v = 0;
    for (int k = 0; k < 4; k++) if (i + k < b.size() && b[i + k]) v |= 1 << k;
    s += "0123456789ABCDEF"[v];
  }
  std::reverse(s.begin(), s.end());
  return s.empty() ? "0" : s;
}
Bits HexBits(const string& h, size_t n) {
  Bits b(n, 0);
  size_t L = h.size();
  for (size_t i = 0; i < n && i / 4 < L; i++) {
    char c = h[L - 1 - i / 4];
    int v = c >= '0' && c <= '9' ? c - '0' : (c | 32) - 'a' + 10;
    b[i] = (v >> (i % 4)) & 1;
  }
  return b;
}
string NormHex(const string& h) {
  string s;
  for (char c : h) {
    if (!isxdigit((unsigned char) c)) return "?" + h;
    if (s.empty() && c == '0') continue;
    s += (char) toupper(c);
  }
  return s.empty() ? "0" : s;
}
string NormOut(const string& o, int mode) {
  if (mode != 1) return NormHex(o);
  string r;
  auto l = Split(o, '\n');
  for (size_t i = 0; i < l.size(); i++) r += (i ? "|" : "") + NormHex(l[i]);
  return r;
}
string ExpectOut(const Session& s, const RefTrace& t, bool alice) {
  size_t no = s.c.out.size();
  Bits m = HexBits(s.mask, no);
  auto owned = [&](int cid) {
    Bits b(no);
    for (size_t i = 0; i < no; i++) b[i] = (m[i] == (alice ? 1 : 0)) ? t.outs[cid][i] : 0;
    return b;
  };
  if (s.mode == 0) {
    Bits all;
    for (int k = 0; k < t.cycles; k++) { Bits b = owned(k); all.insert(all.end(), b.begin(), b.end()); }
    return NormHex(BitsHex(all));
  }
  if (s.mode == 1) {
    string r;
    for (int k = 0; k < t.cycles; k++) r += (k ? "|" : "") + NormHex(BitsHex(owned(k)));
    return r;
  }
  return NormHex(BitsHex(owned(t.cycles - 1)));
}

string Session::enc() const {
  KV k;
  k.set("c", c.enc());
  k.set("in", BitsHex(in.p_init) + "," + BitsHex(in.g_init) + "," + BitsHex(in.e_init) + "," + BitsHex(in.p_in) + "," + BitsHex(in.g_in) + "," + BitsHex(in.e_in));
  k.set("cc", cc); k.set("mask", mask); k.set("per", period); k.set("mode", mode);
  k.set("noot", no_ot); k.set("low", lowmem); k.set("seed", (long long) seed); k.set("fill", fill);
  return k.str();
}
bool Session::dec(const string& s, Session* o) {
  KV k(s);
  if (!Circuit::dec(k.get("c"), &o->c)) return false;
  auto f = Split(k.get("in"), ',');
  if (f.size() != 6) return false;
  o->cc = k.geti("cc", 1);
  o->in.p_init = HexBits(f[0], o->c.pi); o->in.g_init = HexBits(f[1], o->c.gi); o->in.e_init = HexBits(f[2], o->c.ei);
  o->in.p_in = HexBits(f[3], (size_t) o->cc * o->c.pin);
  o->in.g_in = HexBits(f[4], (size_t) o->cc * o->c.gin);
  o->in.e_in = HexBits(f[5], (size_t) o->cc * o->c.ein);
  o->mask = k.get("mask", "0"); o->period = k.geti("per"); o->mode = k.geti("mode");
  o->no_ot = k.geti("noot", 1); o->lowmem = k.geti("low"); o->seed = k.geti("seed", 1); o->fill = k.geti("fill", -1);
  return true;
}

string WriteScdFile(const Circuit& c, bool with_map) {
  static string last_scd, last_path;
  string path = ScratchDir() + "/c.scd";
  string t = c.scd();
  if (t != last_scd) {
    FILE* f = fopen(path.c_str(), "w");
    if (!f) { perror(path.c_str()); exit(2); }
    fwrite(t.data(), 1, t.size(), f);
    fclose(f);
    last_scd = t;
    last_path = path;
  }
  if (with_map) {
    FILE* f = fopen((path + ".map").c_str(), "w");
    string m;
    for (int i = 0; i < c.dff(); i++) m += "Q" + std::to_string(i) + " " + std::to_string(c.Q(i)) + "\n";
    for (size_t i = 0; i < c.g.size(); i++) m += "w" + std::to_string(i) + " " + std::to_string(c.W(i)) + "\n";
    m += "terminate " + std::to_string(c.term) + "\n";
    fwrite(m.data(), 1, m.size(), f);
    fclose(f);
  }
  return path;
}

SessResult RunSession(const Session& s, Net* net) {
  SessResult r;
  int fill0 = g_heap_fill;
  g_heap_fill = -1;
  string path = WriteScdFile(s.c);
  string h[6] = {BitsHex(s.in.p_init), BitsHex(s.in.g_init), BitsHex(s.in.e_init), BitsHex(s.in.p_in), BitsHex(s.in.g_in), BitsHex(s.in.e_in)};
  SeedEnv(s.seed);
  g_heap_fill = s.fill;
  RunTwo(net,
    [&] { r.ra = GarbleStr(path, h[0], h[3], h[1], h[4], s.cc, s.mask, s.period, (OutputMode) s.mode, s.no_ot, s.lowmem, &r.oa, kFdA); },
    [&] { r.rb = EvaluateStr(path, h[0], h[3], h[2], h[5], s.cc, s.mask, s.period, (OutputMode) s.mode, s.no_ot, s.lowmem, &r.ob, kFdB); });
  g_heap_fill = fill0;
  Observe(std::to_string(r.ra) + " " + std::to_string(r.rb) + " " + r.oa + " " + r.ob);
  return r;
}

string CheckSession(const Session& s, const SessResult& r, const Net& net, bool ca, bool cb) {
  if (net.livelock) return "session does not finish (I/O horizon exceeded)";
  if (net.deadlock) return "session deadlocks";
  if (net.threw[0]) return "garbler threw: " + net.what[0];
  if (net.threw[1]) return "evaluator threw: " + net.what[1];
  if (r.ra != 0) return "garbler reports failure on a valid session";
  if (r.rb != 0) return "evaluator reports failure on a valid session";
  if (net.bad_io) return "invalid I/O request on the connection";
  RefTrace t = RefRun(s.c, s.in, s.cc, s.period);
  if (ca) {
    string e = ExpectOut(s, t, true), g = NormOut(r.oa, s.mode);
    if (e != g) return "garbler output " + g + " expected " + e;
  }
  if (cb) {
    string e = ExpectOut(s, t, false), g = NormOut(r.ob, s.mode);
    if (e != g) return "evaluator output " + g + " expected " + e;
  }
  if (net.leftover(0) || net.leftover(1)) return "unread bytes left on the connection after the session";
  return "";
}

void SilenceLogs() {
  static char a0[] = "mc", a1[] = "--log2std";
  char* av[] = {a0, a1, nullptr};
  LogInitial(2, av);
  std::cout.setstate(std::ios::failbit);
  std::cerr.setstate(std::ios::failbit);
  HashInit();
}

Inputs MakeInputs(const Circuit& c, int cc, uint64_t code) {
  Inputs in;
  auto take = [&](Bits& b, size_t n) {
    b.resize(n);
    for (size_t i = 0; i < n; i++) { b[i] = code & 1; code >>= 1; }
  };
  take(in.p_init, c.pi); take(in.g_init, c.gi); take(in.e_init, c.ei);
  take(in.p_in, (size_t) c.pin * cc); take(in.g_in, (size_t) c.gin * cc); take(in.e_in, (size_t) c.ein * cc);
  return in;
}

// The documented format of a circuit file, read independently; false if the text is not
// a circuit (wrong counts, unknown gates, wires out of range or read before they are set).
bool ParseScd(const string& text, Circuit* c) {
  vector<int64_t> v;
  const char* p = text.c_str();
  char* e;
  while (true) {
    long long n = strtoll(p, &e, 10);
    if (e == p) break;
    v.push_back(n);
    p = e;
  }
  if (v.size() < 10) return false;
  int64_t nd = v[6], no = v[7], ng = v[9];
  if (nd < 0 || no < 0 || ng < 0 || (int64_t) v.size() != 10 + 3 * ng + no + 2 * nd) return false;
  *c = Circuit();
  c->pi = v[0]; c->gi = v[1]; c->ei = v[2]; c->pin = v[3]; c->gin = v[4]; c->ein = v[5];
  c->term = v[8];
  size_t o = 10;
  for (int64_t i = 0; i < ng; i++) c->g.push_back({v[o + i], v[o + ng + i], (int) v[o + 2 * ng + i]});
  o += 3 * ng;
  for (int64_t i = 0; i < no; i++) c->out.push_back(v[o + i]);
  o += no;
  for (int64_t i = 0; i < nd; i++) { c->D.push_back(v[o + i]); c->I.push_back(v[o + nd + i]); }
  // well-formedness: gates in evaluation order, all references in range
  int64_t ninit = c->pi + c->gi + c->ei;
  for (int64_t i = 0; i < ng; i++) {
    bool known = false;
    for (int t : kTypes) known |= t == c->g[i].type;
    if (!known) return false;
    for (int k = 0; k < 2; k++) {
      int64_t w = k ? c->g[i].b : c->g[i].a;
      if (k && c->g[i].type == 12) continue;
      if (w == kC0 || w == kC1) continue;
      if (w < ninit || w >= c->W((int) i)) return false;
    }
  }
  for (auto w : c->out) if (w < ninit || w >= c->wires()) return false;
  for (auto w : c->D) if (w != kC0 && w != kC1 && (w < ninit || w >= c->wires())) return false;
  for (auto w : c->I) if (w != kC0 && w != kC1 && (w < 0 || w >= ninit)) return false;
  return c->term == 0 || (c->term >= ninit && c->term < c->wires());
}
