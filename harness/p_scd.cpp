// C06 plaintext evaluator, C07/C08/C09 translators and circuit files, C28 (plaintext part).
#include <malloc.h>
#include "fam.h"
#include <algorithm>
#include <unistd.h>
#include "garbled_circuit/garbled_circuit.h"
#include "scd/scd.h"
#include "scd/scd_evaluator.h"
#include "scd/v_2_scd.h"
#include "util/common.h"

namespace {
void WriteFile(const string& p, const string& t) {
  FILE* f = fopen(p.c_str(), "w");
  if (!f) { perror(p.c_str()); exit(2); }
  fwrite(t.data(), 1, t.size(), f);
  fclose(f);
}
string ReadFile(const string& p) {
  string r;
  FILE* f = fopen(p.c_str(), "r");
  if (!f) return r;
  char b[65536];
  size_t n;
  while ((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n);
  fclose(f);
  return r;
}
// All outputs, as a party owning every bit would see them.
int Translate(bool bristol, const string& in, const string& map, const string& out) {
  int rc = bristol ? Bris2SCD(in, map, out) : Verilog2SCD(in, map, out);
  if (g_trace) Observe(std::to_string(rc) + " " + ReadFile(out) + " " + ReadFile(map));
  return rc;
}
string ExpectAll(const Session& s, const RefTrace& t) {
  Session q = s;
  q.mask = BitsHex(Bits(s.c.out.size(), 1));
  return ExpectOut(q, t, true);
}
// ---------------------------------------------------------------- plaintext evaluation
struct Plain { int rc = 99; string out = "5A", csv, what; };
Plain RunPlain(const Session& s) {
  Plain r;
  int fill0 = g_heap_fill;
  g_heap_fill = -1;
  string path = WriteScdFile(s.c, true);
  unlink((path + ".csv").c_str());
  g_heap_fill = s.fill;
  try {
    r.rc = EvalauatePlaintextStr(path, BitsHex(s.in.p_init), BitsHex(s.in.g_init), BitsHex(s.in.e_init), BitsHex(s.in.p_in), BitsHex(s.in.g_in),
                                 BitsHex(s.in.e_in), s.cc, s.period, (OutputMode) s.mode, &r.out);
  } catch (std::exception& e) { r.what = e.what(); }
  g_heap_fill = fill0;
  r.csv = ReadFile(path + ".csv");
  Observe(std::to_string(r.rc) + " " + r.out + " " + r.csv);
  return r;
}
string CheckPlain(const Session& s, const Plain& r, const RefTrace& t) {
  if (!r.what.empty()) return "exception escaped: " + r.what;
  if (r.rc != 0) return "plaintext evaluator reports failure";
  string e = ExpectAll(s, t), g = NormOut(r.out, s.mode);
  if (e != g) return "plaintext output " + g + " expected " + e;
  // dump: header, then one line per completed cycle
  auto lines = Split(r.csv, '\n');
  bool early = t.cycles < s.cc;
  bool term_last = s.period && s.c.term && (t.cycles - 1) % s.period == 0 && t.wires.back()[s.c.term];
  int full = t.cycles - (term_last ? 1 : 0);
  (void) early;
  size_t nw = s.c.dff() + s.c.g.size();
  size_t ln = 1;
  for (int k = 0; k < full; k++, ln++) {
    if (ln >= lines.size()) return "wire dump misses cycle " + std::to_string(k);
    auto f = Split(lines[ln], ',');
    if (f.size() < nw + 1) return "wire dump of cycle " + std::to_string(k) + " lists " + std::to_string(f.size()) + " values, expected " + std::to_string(nw + 1);
    if (atoi(f[0].c_str()) != k) return "wire dump cycle number " + f[0] + " expected " + std::to_string(k);
    for (size_t i = 0; i < nw; i++) {
      int64_t w = i < (size_t) s.c.dff() ? s.c.Q((int) i) : s.c.W((int) (i - s.c.dff()));
      if (atoi(f[i + 1].c_str()) != t.wires[k][w]) return "wire dump of cycle " + std::to_string(k) + " wire " + std::to_string(w) + " is " + f[i + 1] + " expected " + std::to_string(t.wires[k][w]);
    }
  }
  return "";
}
bool PlainCheck(Ctx& x, const Session& s) {
  if (SkipLarge(x, s)) return true;
  string d = "pt:" + s.enc();
  x.begin(d);
  Plain r = RunPlain(s);
  RefTrace t = RefRun(s.c, s.in, s.cc, s.period, true);
  string e = CheckPlain(s, r, t);
  CountModel(x, s, t);
  x.outcome(r.out);
  if ((x.evals & 4095) == 7) x.sample(d.substr(0, 300) + " -> " + r.out.substr(0, 60));
  if (!e.empty()) { x.violation(d, e); return false; }
  return true;
}
void PlainReplay(Ctx& x, const string& c) {
  Session s;
  if (c.compare(0, 3, "pt:") || !Session::dec(c.substr(3), &s)) { fprintf(stderr, "bad case\n"); exit(2); }
  PlainCheck(x, s);
}
void SeqPlain(Ctx& x, int level) {
  FamSeq(level, [&](const Circuit& c) {
    if (!x.mine()) return;
    Session s;
    s.c = c;
    int ni = c.pi + c.gi + c.ei, n = c.pin + c.gin + c.ein;
    s.cc = 6;
    for (int iv = 0; iv < 1 << ni; iv++) {
      uint64_t code = iv;
      for (int k = 0; k < n * 6 && ni + k < 64; k++) code |= (uint64_t) ((0x9D2C5680A7B3C1E5ull >> ((k * 5 + iv + x.gidx) % 64)) & 1) << (ni + k);
      s.in = MakeInputs(c, s.cc, code);
      s.mode = (int) ((x.gidx + iv) % 3);
      PlainCheck(x, s);
    }
  });
}
void C06(Ctx& x) {
  auto comb = [&](const Circuit& c) {
    if (!x.mine()) return;
    Session s;
    s.c = c;
    s.in = AllAssignments(c, &s.cc);
    s.mode = (int) (x.gidx % 3);
    PlainCheck(x, s);
  };
  FamOne(comb);
  FamTwo(!x.thorough(), comb);
  if (x.thorough()) FamThree(0, comb);
  SeqPlain(x, x.thorough() ? 1 : 0);
  Circuit c;
  for (int kind = 0; TermCircuit(kind, &c); kind++) for (int cc = 1; cc <= 4; cc++) for (int per = 0; per <= 3; per++) {
    int n = 3 * cc + 1;
    if (n > (x.thorough() ? 13 : 10)) n = x.thorough() ? 13 : 10;
    for (uint64_t v = 0; v < (1ull << n); v++) {
      if (!x.mine()) continue;
      Session s;
      s.c = c; s.cc = cc; s.period = per; s.mode = (int) (v % 3);
      s.in = MakeInputs(c, cc, v * 0x11 + (v << 9));
      PlainCheck(x, s);
    }
  }
  for (int w : {1, 2, 3, 4, 5, 7, 8, 9, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 300}) for (int pub = 0; pub < 2; pub++) for (int cc = 1; cc <= 3; cc++)
    for (int kind = 0; kind < 7; kind++) for (int mode = 0; mode < 3; mode++) {
      if (!x.mine()) continue;
      Session s;
      s.c = WideCircuit(w, pub);
      s.cc = cc; s.mode = mode;
      size_t k = (size_t) w * cc - 1;
      s.in.g_in = Pattern((size_t) w * cc, kind, k);
      s.in.e_in = Pattern((size_t) w * cc, (kind + 3) % 7, k);
      s.in.p_in = Pattern((size_t) s.c.pin * cc, (kind + 5) % 7, k);
      PlainCheck(x, s);
    }
  for (int n : {86, 258, 1100, 22000, 66000}) for (int salt = 0; salt < (n > 2000 ? 1 : 3); salt++) for (int mode = 0; mode < 3; mode++) if (x.mine()) { Session s = BigSession(n, 3, salt); s.mode = mode; PlainCheck(x, s); }
  for (int n : {130, 300, 33000, 70000}) for (int mode = 0; mode < 3; mode++) if (x.mine()) { Session s = SparseSession(n, n < 1000 ? 300 : 3, mode); s.mode = mode; PlainCheck(x, s); }
  for (int cc : {255, 256, 257, 300, 70000}) for (int salt = 0; salt < (cc > 2000 ? 1 : 4); salt++) for (int mode = 0; mode < 3; mode++) if (mode != 1 || cc < 5000) if (x.mine()) { Session s = LongSession(cc, salt); s.mode = mode; PlainCheck(x, s); }
  for (int v : {5, 254, 255, 256, 257, 299, 300, 509}) for (int per : {0, 1, 3, 7, 100, 255, 256, 257, 290, 400}) for (int mode = 0; mode < 3; mode++) if (x.mine()) { Session s = CountSession(9, v, per, 0, 305); s.mode = mode; PlainCheck(x, s); }
  for (int per : {0, 1, 65535, 65536, 65537}) for (int v : {65535, 65536, 65537}) if (x.mine()) { Session s = CountSession(17, v, per, 0, 65545); s.mode = 2; PlainCheck(x, s); }
  for (int n : {1000, 40000, 70000}) {
    if (!x.mine()) continue;
    Session s;
    s.c = ChainCircuit(n, 1);
    s.cc = n > 30000 ? 2 : 8;
    s.in.p_in = Pattern(2 * s.cc, 6); s.in.g_in = Pattern(3 * s.cc, 7); s.in.e_in = Pattern(3 * s.cc, 8);
    PlainCheck(x, s);
  }
  if (x.mine()) {
    Session s;
    s.c = PackedGrid(2, 2, 2, true);
    s.in = AllAssignments(s.c, &s.cc);
    PlainCheck(x, s);
  }
}
PropReg r06("C06", C06, PlainReplay);
void C28P(Ctx& x) {
  SeqPlain(x, x.thorough() ? 1 : 0);
  for (int n : {1, 2, 3, 8, 9, 33, 64, 65, 129}) for (int kind = 0; kind < 4; kind++) {
    if (!x.mine()) continue;
    Circuit c;
    int third = n / 3;
    c.pi = third; c.gi = third; c.ei = n - 2 * third; c.gin = 1;
    c.D.assign(n, 0); c.I.assign(n, 0);
    for (int i = 0; i < n; i++) { c.I[i] = kind == 2 ? (i % 3 ? kC1 : kC0) : i; c.D[i] = kind == 3 ? c.Q((i * 2 + 1) % n) : i ? c.Q(i - 1) : kind == 1 ? c.Q(n - 1) : c.G(0); }
    c.g = {{c.Q(n - 1), c.G(0), 6}};
    c.out = {c.W(0), c.Q(0), c.Q(n / 2)};
    Session s;
    s.c = c; s.cc = n + 3;
    s.in.p_init = Pattern(c.pi, 6); s.in.g_init = Pattern(c.gi, 7); s.in.e_init = Pattern(c.ei, 8); s.in.g_in = Pattern(s.cc, 9 + kind);
    PlainCheck(x, s);
  }
}
PropReg r28p("C28P", C28P, PlainReplay);

// ---------------------------------------------------------------- circuit files
// ---------------------------------------------------------------- netlists
// A structural netlist, kept as syntax; the model simulates it by name.
struct Cell { string type; vector<std::pair<string, string>> pins; };  // pins: name -> net
struct Netlist {
  int w[6] = {-1, -1, -1, -1, -1, -1};  // widths of p_init g_init e_init p_input g_input e_input; -1 absent, 0 scalar
  int o = 0;                            // width of o; 0: scalar
  bool term = false;
  vector<Cell> cells;                   // "assign" has pins {lhs, rhs}
  vector<int> order;                    // order in which cells are written (empty: as listed)
  int style = 0;
};
const char* kPort[6] = {"p_init", "g_init", "e_init", "p_input", "g_input", "e_input"};
int Bits6(const Netlist& n, int p) { return n.w[p] < 0 ? 0 : n.w[p] == 0 ? 1 : n.w[p]; }
string Text(const Netlist& n) {
  string nl = n.style == 3 ? "\r\n" : "\n", s;
  auto range = [&](int w) { return w > 0 ? (n.style == 2 ? " [" : "[") + std::to_string(w - 1) + ":0] " : string(); };
  s += "// netlist" + nl + nl + "module m ( clk, rst";
  for (int p = 0; p < 6; p++) if (n.w[p] >= 0) s += string(", ") + kPort[p];
  s += string(", o") + (n.term ? ", terminate" : "") + " );" + nl;
  if (n.style == 1) s += "input clk, rst;" + nl;
  for (int p = 0; p < 6; p++) if (n.w[p] >= 0) s += "  input " + range(n.w[p]) + kPort[p] + ";" + nl;
  if (n.style != 1) s += "  input clk, rst;" + nl;
  s += "  output " + range(n.o) + "o;" + nl;
  if (n.term) s += "  output terminate;" + nl;
  s += "  wire   n1, n2, n3, n4, n5;" + nl + nl;
  vector<int> ord = n.order;
  if (ord.empty()) for (size_t i = 0; i < n.cells.size(); i++) ord.push_back((int) i);
  int u = 0;
  for (int i : ord) {
    const Cell& c = n.cells[i];
    u++;
    auto net = [&](const string& w) -> string {
      size_t b = w.find('[');
      return n.style == 2 && b != string::npos ? w.substr(0, b) + " " + w.substr(b) : w;
    };
    if (c.type == "assign") { s += "  assign " + c.pins[0].first + " = " + c.pins[0].second + ";" + nl; continue; }
    s += "  " + c.type + " U" + std::to_string(u) + " ( ";
    for (size_t k = 0; k < c.pins.size(); k++) {
      if (k) s += n.style == 1 ? "," + nl + "        " : ", ";
      s += "." + c.pins[k].first + "(" + net(c.pins[k].second) + ")";
    }
    if (c.type == "DFF") s += n.style == 1 ? ", .CLK(clk), .RST(rst)" : "";
    s += " );" + nl;
  }
  return s + nl + "endmodule" + nl;
}
// Model: values of every net in every cycle.
typedef std::map<string, int> Env;
string Pin(const Cell& c, const string& n) { for (auto& p : c.pins) if (p.first == n) return p.second; return ""; }
struct NlTrace { vector<Bits> outs; vector<Bits> terms; vector<Env> env; };
NlTrace Simulate(const Netlist& n, const Inputs& in, int cc) {
  NlTrace t;
  std::map<string, int> state;
  const Bits* src[6] = {&in.p_init, &in.g_init, &in.e_init, &in.p_in, &in.g_in, &in.e_in};
  for (int cid = 0; cid < cc; cid++) {
    Env e;
    e["1'b0"] = 0; e["1'b1"] = 1;
    for (int p = 0; p < 6; p++) {
      int b = Bits6(n, p);
      for (int i = 0; i < b; i++) {
        int v = (*src[p])[(p < 3 ? 0 : (size_t) cid * b) + i];
        e[string(kPort[p]) + "[" + std::to_string(i) + "]"] = v;
        if (b == 1) e[kPort[p]] = v;
      }
    }
    for (auto& c : n.cells) if (c.type == "DFF") {
      string q = Pin(c, "Q");
      e[q] = cid == 0 ? e.at(Pin(c, "I")) : state.at(q);
    }
    bool more = true;
    while (more) {
      more = false;
      bool progress = false;
      for (auto& c : n.cells) {
        if (c.type == "DFF") continue;
        if (c.type == "assign") {
          if (e.count(c.pins[0].first)) continue;
          if (!e.count(c.pins[0].second)) { more = true; continue; }
          e[c.pins[0].first] = e[c.pins[0].second];
          progress = true;
          continue;
        }
        vector<int> a;
        bool ready = true, done = true;
        for (auto& p : c.pins) {
          bool outp = p.first == "Z" || p.first == "F" || p.first == "SUM" || p.first == "COUT";
          if (outp) { if (!e.count(p.second)) done = false; }
          else if (!e.count(p.second)) ready = false;
        }
        if (done) continue;
        if (!ready) { more = true; continue; }
        auto g = [&](const char* k) { return e.at(Pin(c, k)); };
        if (c.type == "MUX") e[Pin(c, "F")] = g("SEL") ? g("IN1") : g("IN0");
        else if (c.type == "HADDER" || c.type == "FADDER") {
          int sum = g("IN0") + g("IN1") + (c.type == "FADDER" ? g("CIN") : 0);
          if (Pin(c, "SUM") != "") e[Pin(c, "SUM")] = sum & 1;
          if (Pin(c, "COUT") != "") e[Pin(c, "COUT")] = sum >> 1;
        } else if (c.type == "IV") e[Pin(c, "Z")] = !g("A");
        else {
          static const std::map<string, int> ty = {{"AND", 8}, {"ANDN", 4}, {"NAND", 7}, {"NANDN", 11}, {"OR", 14}, {"ORN", 13}, {"NOR", 1}, {"NORN", 2}, {"XOR", 6}, {"XNOR", 9}};
          e[Pin(c, "Z")] = RefOp(ty.at(c.type), g("A"), g("B"));
        }
        progress = true;
      }
      if (more && !progress) { fprintf(stderr, "harness netlist is cyclic\n"); exit(2); }
    }
    for (auto& c : n.cells) if (c.type == "DFF") state[Pin(c, "Q")] = e.at(Pin(c, "D"));
    Bits o;
    for (int i = 0; i < (n.o ? n.o : 1); i++) o.push_back(e.count("o[" + std::to_string(i) + "]") ? e["o[" + std::to_string(i) + "]"] : e.at("o"));
    t.outs.push_back(o);
    t.terms.push_back({(uint8_t) (n.term ? e.at("terminate") : 0)});
    t.env.push_back(e);
  }
  return t;
}
string NlEnc(const Netlist& n) {
  string s;
  for (int p = 0; p < 6; p++) s += std::to_string(n.w[p]) + ",";
  s += std::to_string(n.o) + "," + std::to_string(n.term) + "," + std::to_string(n.style) + "/";
  for (size_t i = 0; i < n.cells.size(); i++) {
    s += (i ? "|" : "") + n.cells[i].type;
    for (auto& p : n.cells[i].pins) s += " " + p.first + "~" + p.second;
  }
  s += "/";
  for (size_t i = 0; i < n.order.size(); i++) s += (i ? "," : "") + std::to_string(n.order[i]);
  return s;
}
bool NlDec(const string& s, Netlist* n) {
  auto f = Split(s, '/');
  if (f.size() != 3) return false;
  auto h = Split(f[0], ',');
  if (h.size() != 9) return false;
  for (int p = 0; p < 6; p++) n->w[p] = atoi(h[p].c_str());
  n->o = atoi(h[6].c_str()); n->term = atoi(h[7].c_str()); n->style = atoi(h[8].c_str());
  if (!f[1].empty()) for (auto& c : Split(f[1], '|')) {
    auto t = Split(c, ' ');
    Cell q;
    q.type = t[0];
    for (size_t i = 1; i < t.size(); i++) { size_t e = t[i].find('~'); q.pins.push_back({t[i].substr(0, e), t[i].substr(e + 1)}); }
    n->cells.push_back(q);
  }
  if (!f[2].empty()) for (auto& o : Split(f[2], ',')) n->order.push_back(atoi(o.c_str()));
  return true;
}
// Translates, reads the text of the result back independently, and compares with the model.
// maps: additionally compare every named wire (C09).
void NlCheck(Ctx& x, const Netlist& n, bool maps, const char* tag) {
  string d = string(tag) + ":" + NlEnc(n);
  x.begin(d);
  string vf = ScratchDir() + "/n.v", sf = ScratchDir() + "/n.scd";
  WriteFile(vf, Text(n));
  unlink(sf.c_str());
  unlink((sf + ".map").c_str());
  int rc = 99;
  string what;
  try { rc = Translate(false, vf, sf + ".map", sf); } catch (std::exception& e) { what = e.what(); }
  if (!what.empty()) { x.violation(d, "exception escaped: " + what); return; }
  if (rc != 0) { x.violation(d, "translation of a supported netlist fails"); return; }
  Circuit c;
  if (!ParseScd(ReadFile(sf), &c)) { x.violation(d, "the circuit file is malformed or not in evaluation order"); return; }
  int have[6] = {c.pi, c.gi, c.ei, c.pin, c.gin, c.ein};
  for (int p = 0; p < 6; p++) if (have[p] != Bits6(n, p)) { x.violation(d, string("port ") + kPort[p] + " has " + std::to_string(have[p]) + " bits in the circuit, " + std::to_string(Bits6(n, p)) + " in the netlist"); return; }
  if ((int) c.out.size() != (n.o ? n.o : 1)) { x.violation(d, "number of outputs differs"); return; }
  if (n.term != (c.term != 0)) { x.violation(d, n.term ? "the terminate signal is lost" : "a terminate signal appeared"); return; }
  vector<std::pair<string, int64_t>> names;
  if (maps) {
    for (auto& l : Split(ReadFile(sf + ".map"), '\n')) {
      auto f = Split(l, ' ');
      if (f.size() == 2) names.push_back({f[0], atoll(f[1].c_str())});
    }
  }
  // input histories: complete for few bits, patterns otherwise
  bool seq = c.dff() > 0;
  int ni = c.pi + c.gi + c.ei, nn = c.pin + c.gin + c.ein;
  vector<std::pair<Inputs, int>> hist;
  if (!seq && nn <= 10 && ni <= 8) {
    Inputs in;
    int cc;
    in = AllAssignments(c, &cc);
    in.p_init = Bits(c.pi, 1); in.g_init = Bits(c.gi, 0); in.e_init = Bits(c.ei, 1);
    hist.push_back({in, cc});
  } else {
    int cc = seq ? (nn > 64 ? 3 : 6) : 4;
    int tot = ni + nn * cc, all = 1;
    for (int i = 0; i < ni && i < 6; i++) all *= 2;
    for (int k = 0; k < all + 4; k++) {
      Inputs in = MakeInputs(c, cc, 0);
      Bits* b[6] = {&in.p_init, &in.g_init, &in.e_init, &in.p_in, &in.g_in, &in.e_in};
      int pos = 0;
      for (int p = 0; p < 6; p++) for (auto& v : *b[p]) {
        size_t h = (size_t) pos * 64 + k;
        v = k >= all && pos % 4 == k - all ? 1 : p < 3 && pos < 6 ? k >> pos & 1 : (Hash64(&h, sizeof h) >> 9) & 1;
        pos++;
      }
      hist.push_back({in, cc});
    }
    (void) tot;
  }
  for (auto& h : hist) {
    NlTrace m = Simulate(n, h.first, h.second);
    RefTrace t = RefRun(c, h.first, h.second, 0, true);
    x.transitions += h.second;
    for (int k = 0; k < h.second; k++) {
      x.state(d + t.regs[k] + std::to_string(k));
      if (t.outs[k] != m.outs[k]) { x.violation(d, "cycle " + std::to_string(k) + ": circuit outputs " + BitsHex(t.outs[k]) + ", netlist " + BitsHex(m.outs[k])); return; }
      if (n.term && t.wires[k][c.term] != m.terms[k][0]) { x.violation(d, "cycle " + std::to_string(k) + ": terminate signal differs from the netlist"); return; }
      for (auto& nm : names) {
        if (nm.first == "terminate" || !m.env[k].count(nm.first)) continue;
        if (nm.second < 0 || nm.second >= c.wires() || t.wires[k][nm.second] != m.env[k][nm.first]) { x.violation(d, "map file: " + nm.first + " is not wire " + std::to_string(nm.second)); return; }
      }
      x.outcome(BitsHex(t.outs[k]));
    }
  }
  if (maps) {  // every gate and register is named
    std::set<int64_t> named;
    for (auto& nm : names) named.insert(nm.second);
    for (int i = 0; i < c.dff(); i++) if (!named.count(c.Q(i))) { x.violation(d, "map file does not name register " + std::to_string(i)); return; }
    for (size_t i = 0; i < c.g.size(); i++) if (!named.count(c.W((int) i))) { x.violation(d, "map file does not name gate " + std::to_string(i)); return; }
    for (auto& cell : n.cells) for (auto& p : cell.pins) if (p.first == "Z" || p.first == "Q" || p.first == "F" || p.first == "SUM" || p.first == "COUT") {
      bool f = false;
      for (auto& nm : names) f |= nm.first == p.second;
      if (!f) { x.violation(d, "map file does not name " + p.second); return; }
    }
    if (n.term) {
      bool ok = false;
      for (auto& nm : names) ok |= nm.first == "terminate" && nm.second == c.term;
      if (!ok) { x.violation(d, "map file has no entry for the terminate signal"); return; }
    }
  }
  if (x.evals % 1999 == 3) x.sample(d.substr(0, 300));
}
const char* kTwoIn[10] = {"AND", "ANDN", "NAND", "NANDN", "OR", "ORN", "NOR", "NORN", "XOR", "XNOR"};
Cell Two(const string& t, const string& a, const string& b, const string& z) { return {t, {{"A", a}, {"B", b}, {"Z", z}}}; }
// cell kinds with up to three inputs; `in` supplies them, outputs z (and y)
vector<Cell> Kinds(const vector<string>& in, const string& z, const string& y) {
  vector<Cell> v;
  for (auto t : kTwoIn) v.push_back(Two(t, in[0], in[1], z));
  v.push_back({"IV", {{"A", in[0]}, {"Z", z}}});
  v.push_back({"MUX", {{"IN0", in[0]}, {"IN1", in[1]}, {"SEL", in[2]}, {"F", z}}});
  v.push_back({"HADDER", {{"IN0", in[0]}, {"IN1", in[1]}, {"SUM", z}, {"COUT", y}}});
  v.push_back({"HADDER", {{"IN0", in[0]}, {"IN1", in[1]}, {"COUT", z}, {"SUM", y}}});
  v.push_back({"HADDER", {{"IN0", in[0]}, {"IN1", in[1]}, {"SUM", z}}});
  v.push_back({"HADDER", {{"IN0", in[0]}, {"IN1", in[1]}, {"COUT", z}}});
  v.push_back({"FADDER", {{"IN0", in[0]}, {"IN1", in[1]}, {"CIN", in[2]}, {"SUM", z}, {"COUT", y}}});
  v.push_back({"FADDER", {{"CIN", in[2]}, {"COUT", z}, {"IN1", in[1]}, {"IN0", in[0]}, {"SUM", y}}});
  v.push_back({"FADDER", {{"IN0", in[0]}, {"IN1", in[1]}, {"CIN", in[2]}, {"SUM", z}}});
  v.push_back({"FADDER", {{"IN0", in[0]}, {"IN1", in[1]}, {"CIN", in[2]}, {"COUT", z}}});
  return v;
}
bool HasPin(const Cell& c, const string& net) { for (auto& p : c.pins) if (p.second == net) return true; return false; }
typedef std::function<void(const Netlist&)> NlFn;
void NlFamilies(bool deep, const NlFn& f) {
  // A: one cell, every pin to every source
  const vector<string> src = {"1'b0", "1'b1", "p_input[0]", "g_input[0]", "g_input[1]", "e_input[0]"};
  for (int style = 0; style < 4; style++)
  for (auto& a : src) for (auto& b : src) for (auto& c : src) for (auto cell : Kinds({a, b, c}, "o[0]", "o[1]")) {
    bool third = cell.type == "MUX" || cell.type == "FADDER";
    if (!third && c != src[0]) continue;
    if (cell.type == "IV" && b != src[0]) continue;
    Netlist n;
    n.style = style;
    n.w[3] = 1; n.w[4] = 2; n.w[5] = 1;
    n.o = 2;
    n.cells = {cell};
    if (!HasPin(cell, "o[1]")) n.cells.push_back(Two("XOR", "g_input[1]", "e_input[0]", "o[1]"));
    if (style && &a != &src[style] && (third || &b != &src[3])) continue;
    f(n);
  }
  // B: two dependent cells of every pair of kinds, both orders
  {
    auto k1 = Kinds({"g_input[0]", "e_input[0]", "p_input[0]"}, "n1", "n2");
    for (auto& c1 : k1) for (int pin = 0; pin < 3; pin++) {
      vector<string> in = {"e_input[1]", "g_input[1]", "e_input[0]"};
      in[pin] = "n1";
      for (auto& c2 : Kinds(in, "o[0]", "n3")) {
        if (!HasPin(c2, "n1")) continue;
        for (int rev = 0; rev < 2; rev++) {
          Netlist n;
          n.w[3] = 1; n.w[4] = 2; n.w[5] = 2;
          n.o = 1;
          n.cells = {c1, c2};
          if (rev) n.order = {1, 0};
          f(n);
        }
      }
    }
  }
  // C: a register with every cell kind around it
  const vector<string> isrc = {"1'b0", "1'b1", "p_init[0]", "g_init[0]", "g_init[1]", "e_init[0]"};
  for (auto& I : isrc) for (int dsel = 0; dsel < 7; dsel++) for (auto& c1 : Kinds({"q1", "g_input[0]", "e_input[0]"}, "n1", "n2")) for (int ord = 0; ord < 4; ord++) {
    static const char* ds[7] = {"n1", "q1", "g_input[0]", "e_input[0]", "p_input[0]", "1'b0", "1'b1"};
    Netlist n;
    n.w[0] = 1; n.w[1] = 2; n.w[2] = 1; n.w[3] = 1; n.w[4] = 1; n.w[5] = 1;
    n.o = 2;
    n.style = ord;
    n.cells = {{"DFF", {{"D", ds[dsel]}, {"I", I}, {"Q", "q1"}}}, c1, {"assign", {{"o[0]", "n1"}}}, {"assign", {{"o[1]", "q1"}}}};
    if (ord == 1) n.order = {3, 2, 1, 0};
    if (ord == 2) n.order = {2, 0, 3, 1};
    if (ord == 3) n.order = {1, 3, 0, 2};
    f(n);
  }
  // two registers exchanging values, all statement orders, terminate signal
  {
    vector<int> perm = {0, 1, 2, 3, 4};
    do for (int v = 0; v < 8; v++) {
      Netlist n;
      n.w[1] = 2; n.w[2] = 2; n.w[4] = 1; n.w[5] = 1;
      n.o = 2;
      n.term = v & 4;
      n.cells = {{"DFF", {{"D", v & 1 ? "q2" : "n1"}, {"I", "e_init[1]"}, {"Q", "q1"}}}, {"DFF", {{"D", "q1"}, {"I", v & 2 ? "g_init[0]" : "1'b1"}, {"Q", "q2"}}},
                 Two(v & 2 ? "NAND" : "XOR", "q2", "g_input[0]", "n1"), Two("ORN", "n1", "e_input[0]", "o[0]"), Two("ANDN", "q1", "n1", "o[1]")};
      if (n.term) n.cells.push_back({"assign", {{"terminate", v & 1 ? "n1" : "o[1]"}}});
      n.order = perm;
      if (n.term) n.order.insert(n.order.begin() + v % 3, 5);
      f(n);
    } while (std::next_permutation(perm.begin(), perm.end()));
  }
  // D: every set of ports, every width around the word sizes, every bit wired through
  for (int set = 1; set < 64; set++) for (int w : {0, 1, 2, 3}) {
    Netlist n;
    int nb = 0;
    if (!(set & 56)) continue;
    for (int p = 0; p < 6; p++) if (set >> p & 1) { n.w[p] = w == 3 ? 1 + (p + set) % 4 : w; }
    vector<string> bits, inits;
    for (int p = 0; p < 6; p++) for (int i = 0; i < Bits6(n, p); i++) (p < 3 ? inits : bits).push_back(n.w[p] == 0 ? kPort[p] : string(kPort[p]) + "[" + std::to_string(i) + "]");
    for (size_t i = 0; i < inits.size(); i++) { n.cells.push_back({"DFF", {{"D", bits[i % bits.size()]}, {"I", inits[i]}, {"Q", "q" + std::to_string(i)}}}); bits.push_back("q" + std::to_string(i)); }
    nb = (int) bits.size();
    n.o = nb;
    for (int rev = 0; rev < 3; rev++) {
      Netlist m = n;
      for (int i = 0; i < nb; i++) {
        int j = rev ? nb - 1 - i : i;
        if (rev < 2) m.cells.push_back({"assign", {{"o[" + std::to_string(j) + "]", bits[i]}}});
        else m.cells.push_back(Two("XOR", bits[i], bits[(i + 1) % nb], "o[" + std::to_string(i) + "]"));
      }
      f(m);
    }
  }
  for (int w : {4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 1000}) for (int v = 0; v < 3; v++) {
    Netlist n;
    n.w[4] = w; n.w[5] = v == 2 ? w : 1; if (v == 1) n.w[3] = w;
    n.o = w;
    for (int i = 0; i < w; i++) {
      string a = "g_input[" + std::to_string(i) + "]", b = v == 2 ? "e_input[" + std::to_string(w - 1 - i) + "]" : v == 1 ? "p_input[" + std::to_string(i) + "]" : "e_input[0]";
      n.cells.push_back(Two(kTwoIn[i % 10], a, b, "o[" + std::to_string(i) + "]"));
    }
    f(n);
  }
  // scalar ports
  for (int v = 0; v < 4; v++) for (auto t : kTwoIn) {
    Netlist n;
    n.w[3] = n.w[4] = n.w[5] = 0;
    n.o = v & 1;
    string a = v & 2 ? "g_input[0]" : "g_input", b = v & 2 ? "e_input" : "p_input", o = n.o ? "o[0]" : "o";
    n.cells = {Two(t, a, "e_input", "n1"), Two("XOR", "n1", b, o)};
    f(n);
  }
  // E: assignments: constants, inputs, nets, chains, all statement orders
  {
    const vector<string> rhs = {"1'b0", "1'b1", "g_input[0]", "e_input[0]", "p_input[0]", "n1", "q1", "o[1]"};
    for (auto& r : rhs) for (auto& r2 : rhs) {
      vector<int> perm = {0, 1, 2, 3, 4};
      do {
        Netlist n;
        n.w[3] = 1; n.w[4] = 1; n.w[5] = 1; n.w[1] = 1;
        n.o = 3;
        n.cells = {Two("NAND", "g_input[0]", "e_input[0]", "n1"), {"DFF", {{"D", "n1"}, {"I", "g_init[0]"}, {"Q", "q1"}}}, Two("OR", "q1", "p_input[0]", "o[1]"),
                   {"assign", {{"o[0]", r}}}, {"assign", {{"n4", r2}}}, Two("XNOR", "n4", "g_input[0]", "o[2]")};
        n.order = perm;
        n.order.insert(n.order.begin() + (perm[0] + perm[1]) % 6, 5);
        f(n);
      } while (std::next_permutation(perm.begin(), perm.end()));
      // chains of assignments in every order
      vector<int> p3 = {0, 1, 2};
      do {
        Netlist n;
        n.w[3] = 1; n.w[4] = 1; n.w[5] = 1; n.w[1] = 1;
        n.o = 3;
        n.cells = {{"assign", {{"n5", r}}}, {"assign", {{"n4", "n5"}}}, {"assign", {{"o[0]", "n4"}}}, Two("AND", "n4", "e_input[0]", "o[1]"), Two("NOR", r2 == "o[1]" ? "n5" : r2, "n5", "o[2]")};
        if (r == "o[1]") continue;
        if (r == "n1" || r2 == "n1") n.cells.push_back(Two("XOR", "g_input[0]", "e_input[0]", "n1"));
        if (r == "q1" || r2 == "q1") n.cells.push_back({"DFF", {{"D", "o[2]"}, {"I", "g_init[0]"}, {"Q", "q1"}}});
        n.order = p3;
        for (int i = 3; i < (int) n.cells.size(); i++) n.order.insert(n.order.begin() + (i * 2) % n.order.size(), i);
        f(n);
      } while (std::next_permutation(p3.begin(), p3.end()));
    }
  }
  // terminate signal from every kind of driver
  for (auto t : kTwoIn) for (int v = 0; v < 5; v++) {
    Netlist n;
    n.w[1] = 1; n.w[3] = 1; n.w[4] = 1; n.w[5] = 1;
    n.o = 1; n.term = true;
    n.cells = {Two(t, "g_input[0]", v == 1 ? "p_input[0]" : "e_input[0]", "o[0]")};
    if (v == 0) n.cells.push_back(Two(t, "o[0]", "p_input[0]", "terminate"));
    if (v == 1) n.cells.push_back({"assign", {{"terminate", "o[0]"}}});
    if (v == 2) n.cells.push_back({"assign", {{"terminate", "p_input[0]"}}});
    if (v == 3) n.cells.push_back({"DFF", {{"D", "o[0]"}, {"I", "g_init[0]"}, {"Q", "terminate"}}});
    if (v == 4) n.cells.push_back({"assign", {{"terminate", "1'b1"}}});
    f(n);
    std::reverse(n.cells.begin(), n.cells.end());
    f(n);
  }
  // F: long chains and adders written in several orders
  for (int w : {2, 3, 8, 16, 33, 64, 130}) for (int v = 0; v < 8; v++) {
    Netlist n;
    n.w[4] = w; n.w[5] = w;
    n.o = w + 1;
    string c = v & 4 ? "1'b1" : "1'b0";
    for (int i = 0; i < w; i++) {
      string a = "g_input[" + std::to_string(i) + "]", b = "e_input[" + std::to_string(i) + "]", co = i == w - 1 ? "o[" + std::to_string(w) + "]" : "c" + std::to_string(i);
      if (v & 1) n.cells.push_back({"FADDER", {{"IN0", a}, {"IN1", b}, {"CIN", c}, {"SUM", "o[" + std::to_string(i) + "]"}, {"COUT", co}}});
      else {
        string k = std::to_string(i);
        n.cells.push_back({"HADDER", {{"IN0", a}, {"IN1", b}, {"SUM", "s" + k}, {"COUT", "d" + k}}});
        n.cells.push_back({"HADDER", {{"IN0", "s" + k}, {"IN1", c}, {"SUM", "o[" + k + "]"}, {"COUT", "e" + k}}});
        n.cells.push_back(Two("OR", "d" + k, "e" + k, co));
      }
      c = co;
    }
    int m = (int) n.cells.size();
    for (int i = 0; i < m; i++) n.order.push_back(v & 2 ? m - 1 - i : (int) (((long) i * 7) % m));
    std::sort(n.order.begin(), n.order.end());
    if (v & 2) std::reverse(n.order.begin(), n.order.end());
    else for (int i = 0; i + 1 < m; i += 2) std::swap(n.order[i], n.order[(i * 5 + 3) % m]);
    f(n);
  }
  // register files: shift registers and counters of several lengths
  for (int w : {2, 3, 8, 17, 40}) for (int v = 0; v < 4; v++) {
    Netlist n;
    n.w[4] = 1; n.w[5] = 1; n.w[v & 1 ? 1 : 2] = w;
    n.o = w;
    string carry = "g_input[0]";
    for (int i = 0; i < w; i++) {
      string k = std::to_string(i), ip = v & 1 ? "g_init[" + k + "]" : "e_init[" + k + "]";
      if (v & 2) {
        n.cells.push_back({"DFF", {{"D", i ? "q" + std::to_string(i - 1) : "e_input[0]"}, {"I", ip}, {"Q", "q" + k}}});
        n.cells.push_back(Two("XOR", "q" + k, "g_input[0]", "o[" + k + "]"));
      } else {
        n.cells.push_back({"HADDER", {{"IN0", "o[" + k + "]"}, {"IN1", carry}, {"SUM", "s" + k}, {"COUT", "c" + k}}});
        n.cells.push_back({"DFF", {{"D", "s" + k}, {"I", ip}, {"Q", "o[" + k + "]"}}});
        carry = "c" + k;
      }
    }
    f(n);
    int m = (int) n.cells.size();
    for (int i = 0; i < m; i++) n.order.push_back(m - 1 - i);
    f(n);
  }
  if (deep) {  // three dependent cells
    for (auto& c1 : Kinds({"g_input[0]", "e_input[0]", "p_input[0]"}, "n1", "n2")) for (auto& c2 : Kinds({"n1", "g_input[1]", "e_input[1]"}, "n3", "n4")) for (auto& c3 : Kinds({"n3", "n1", "e_input[0]"}, "o[0]", "n5")) {
      vector<int> p = {0, 1, 2};
      do {
        Netlist n;
        n.w[3] = 1; n.w[4] = 2; n.w[5] = 2; n.o = 1;
        n.cells = {c1, c2, c3};
        n.order = p;
        f(n);
      } while (std::next_permutation(p.begin(), p.end()));
    }
  }
}
// Deep netlists: n cells, each reading the one before through a given pin, written in order or reversed.
// Returns 0 if the netlist was translated and computes the right values.
void DeepNet(Ctx& x, int n, int k, int r) {
  string d = "deep:n=" + std::to_string(n) + ";k=" + std::to_string(k) + ";r=" + std::to_string(r);
  x.begin(d);
  const int T = 16;
  vector<string> cell(n);
  auto net = [&](int i) -> string {
    if (i < 0) return "g_input[0]";
    for (int t = 0; t < T; t++) if (i == (int) ((int64_t) n * (t + 1) / T) - 1) return "o[" + std::to_string(t) + "]";
    return "w" + std::to_string(i);
  };
  static const char* ty[6] = {"XOR", "NAND", "XNOR", "ORN", "XOR", "ANDN"};
  for (int i = 0; i < n; i++) {
    string a = net(i - 1), b = i % 3 == 0 ? "g_input[1]" : i % 3 == 1 ? "e_input[0]" : "e_input[1]", o = net(i), u = " U" + std::to_string(i);
    switch (k) {
      case 0: cell[i] = string(ty[i % 6]) + u + " ( .A(" + a + "), .B(" + b + "), .Z(" + o + ") );"; break;
      case 1: cell[i] = string(ty[i % 6]) + u + " ( .A(" + b + "), .B(" + a + "), .Z(" + o + ") );"; break;
      case 2: cell[i] = "MUX" + u + " ( .IN0(" + b + "), .IN1(e_input[0]), .SEL(" + a + "), .F(" + o + ") );"; break;
      case 3: cell[i] = "MUX" + u + " ( .IN0(" + a + "), .IN1(g_input[0]), .SEL(" + b + "), .F(" + o + ") );"; break;
      case 4: cell[i] = "FADDER" + u + " ( .IN0(" + b + "), .IN1(g_input[0]), .CIN(" + a + "), .COUT(" + o + ") );"; break;
      case 5: cell[i] = "IV" + u + " ( .A(" + a + "), .Z(" + o + ") );"; break;
      case 6: cell[i] = "DFF" + u + " ( .D(" + a + "), .I(1'b" + (i % 7 == 2 ? "1" : "0") + "), .CLK(clk), .RST(rst), .Q(" + o + ") );"; break;
    }
  }
  if (r) std::reverse(cell.begin(), cell.end());
  string t = "module m ( clk, rst, g_input, e_input, o );\n  input [1:0] g_input;\n  input [1:0] e_input;\n  input clk, rst;\n  output [15:0] o;\n";
  for (auto& l : cell) t += "  " + l + "\n";
  t += "endmodule\n";
  string vf = ScratchDir() + "/d.v", sf = ScratchDir() + "/d.scd";
  WriteFile(vf, t);
  unlink(sf.c_str());
  int rc = 99;
  string what;
  try { rc = Translate(false, vf, sf + ".map", sf); } catch (std::exception& e) { what = e.what(); }
  if (!what.empty()) { x.violation(d, "exception escaped: " + what); return; }
  if (rc != 0) { x.violation(d, "translation of a supported netlist fails"); return; }
  Circuit c;
  if (!ParseScd(ReadFile(sf), &c)) { x.violation(d, "the circuit file is malformed or not in evaluation order"); return; }
  if (c.gin != 2 || c.ein != 2 || (int) c.out.size() != T || c.pi || c.gi || c.ei || c.pin || c.term || c.dff() != (k == 6 ? n : 0)) { x.violation(d, "ports or registers differ from the netlist"); return; }
  int cc = 16;
  Inputs in;
  for (int q = 0; q < cc; q++) for (int i = 0; i < 2; i++) { in.g_in.push_back(q >> i & 1); in.e_in.push_back(q >> (2 + i) & 1); }
  RefTrace rt = RefRun(c, in, cc, 0);
  Bits reg(n), v(n);
  for (int i = 0; i < n; i++) reg[i] = i % 7 == 2;
  for (int q = 0; q < cc; q++) {
    int g0 = q & 1, g1 = q >> 1 & 1, e0 = q >> 2 & 1, e1 = q >> 3 & 1;
    static const std::map<string, int> code = {{"XOR", 6}, {"NAND", 7}, {"XNOR", 9}, {"ORN", 13}, {"ANDN", 4}};
    int tc[6];
    for (int i = 0; i < 6; i++) tc[i] = code.at(ty[i]);
    if (k == 6) v = reg;
    else for (int i = 0; i < n; i++) {
      int a = i ? v[i - 1] : g0, b = i % 3 == 0 ? g1 : i % 3 == 1 ? e0 : e1;
      v[i] = k == 0 ? RefOp(tc[i % 6], a, b) : k == 1 ? RefOp(tc[i % 6], b, a) : k == 2 ? (a ? e0 : b) : k == 3 ? (b ? g0 : a) : k == 4 ? (a + b + g0 > 1) : !a;
    }
    Bits o;
    for (int j = 0; j < T; j++) o.push_back(v[(size_t) ((int64_t) n * (j + 1) / T) - 1]);
    if (o != rt.outs[q]) { x.violation(d, "cycle " + std::to_string(q) + ": circuit " + BitsHex(rt.outs[q]) + " netlist " + BitsHex(o)); return; }
    x.outcome(BitsHex(o));
    for (int i = n - 1; i >= 0; i--) reg[i] = i ? reg[i - 1] : g0;
  }
  x.state(d);
  x.transitions += cc;
}
// Ports, registers and outputs of n bits; r: which end the bits of a port start from.
void WideNet(Ctx& x, int n, int k) {
  string d = "wide:n=" + std::to_string(n) + ";k=" + std::to_string(k);
  x.begin(d);
  string N = "[" + std::to_string(n - 1) + ":0] ";
  string t = "module m ( clk, rst, p_init, g_init, e_init, p_input, g_input, e_input, o );\n";
  for (auto p : {"p_init", "g_init", "e_init", "p_input", "g_input", "e_input"}) t += "  input " + N + p + ";\n";
  t += "  output " + N + "o;\n  input clk, rst;\n";
  // o[i] = Q[i] ^ (g[i] op e[n-1-i]) ^ p[(i+k) % n];  Q[i] starts from the init bits in turn and then takes o[i+1]
  static const char* init[3] = {"p_init", "g_init", "e_init"};
  static const char* op[3] = {"AND", "OR", "XOR"};
  auto B = [](const char* p, int i) { return string(p) + "[" + std::to_string(i) + "]"; };
  vector<string> cells;
  for (int i = 0; i < n; i++) {
    string u = std::to_string(i);
    cells.push_back("  " + string(op[(i + k) % 3]) + " A" + u + " ( .A(" + B("g_input", i) + "), .B(" + B("e_input", n - 1 - i) + "), .Z(" + B("m", i) + ") );\n");
    cells.push_back("  XOR B" + u + " ( .A(" + B("m", i) + "), .B(" + B("p_input", (i + k) % n) + "), .Z(" + B("y", i) + ") );\n");
    cells.push_back("  XOR C" + u + " ( .A(" + B("y", i) + "), .B(" + B("q", i) + "), .Z(" + B("o", i) + ") );\n");
    cells.push_back("  DFF D" + u + " ( .D(" + B("o", (i + 1) % n) + "), .CLK(clk), .RST(rst), .I(" + B(init[(i + k) % 3], n - 1 - i) + "), .Q(" + B("q", i) + ") );\n");
  }
  for (auto& c : cells) t += c;
  t += "endmodule\n";
  string vf = ScratchDir() + "/w.v", sf = ScratchDir() + "/w.scd";
  WriteFile(vf, t);
  unlink(sf.c_str());
  int rc = 99;
  string what;
  try { rc = Translate(false, vf, sf + ".map", sf); } catch (std::exception& e) { what = e.what(); }
  if (!what.empty()) { x.violation(d, "exception escaped: " + what); return; }
  if (rc != 0) { x.violation(d, "translation of a supported netlist fails"); return; }
  Circuit c;
  if (!ParseScd(ReadFile(sf), &c)) { x.violation(d, "the circuit file is malformed or not in evaluation order"); return; }
  for (int w : {c.pi, c.gi, c.ei, c.pin, c.gin, c.ein, (int) c.out.size(), c.dff()}) if (w != n) { x.violation(d, "ports or registers differ from the netlist"); return; }
  if (c.term) { x.violation(d, "a terminate signal appears"); return; }
  Inputs in;
  int cc = 3;
  in.p_init = Pattern(n, 6); in.g_init = Pattern(n, 7); in.e_init = Pattern(n, 8);
  in.p_in = Pattern((size_t) n * cc, 9); in.g_in = Pattern((size_t) n * cc, 10); in.e_in = Pattern((size_t) n * cc, 11);
  RefTrace rt = RefRun(c, in, cc, 0);
  Bits q(n), o(n);
  for (int i = 0; i < n; i++) { auto& s = (i + k) % 3 == 0 ? in.p_init : (i + k) % 3 == 1 ? in.g_init : in.e_init; q[i] = s[n - 1 - i]; }
  for (int y = 0; y < cc; y++) {
    size_t b = (size_t) y * n;
    for (int i = 0; i < n; i++) {
      int g = in.g_in[b + i], e = in.e_in[b + n - 1 - i], h = (i + k) % 3;
      o[i] = q[i] ^ in.p_in[b + (i + k) % n] ^ (h == 0 ? g & e : h == 1 ? g | e : g ^ e);
    }
    if (o != rt.outs[y]) { x.violation(d, "cycle " + std::to_string(y) + ": the circuit's outputs differ from the netlist's"); return; }
    for (int i = 0; i < n; i++) q[i] = o[(i + 1) % n];
    x.outcome(BitsHex(o).substr(0, 64));
  }
  x.state(d);
  x.transitions += cc;
}
void Deep(Ctx& x, bool thorough) {
  for (int n : {255, 256, 257, 1023, 1025, 2500, 30000, 66000}) for (int k = 0; k < 3; k++) if ((n < 5000 || (k == 1 && !x.mem)) && x.mine()) WideNet(x, n, k);
  for (int k = 0; k < 7; k++) for (int r = 0; r < 2; r++) for (int n : {16, 17, 1000, 30000, 200000}) {
    if (x.mem && n > 2000 && (n > 30000 || k % 3)) continue;
    if (n > 30000 && (!r || k == 6)) continue;   // the sort takes quadratic time on these
    (void) thorough;
    if (x.mine()) DeepNet(x, n, k, r);
  }
}
void C07(Ctx& x) { Deep(x, x.thorough()); NlFamilies(x.thorough(), [&](const Netlist& n) { if (x.mine()) NlCheck(x, n, false, "v"); }); }
void C07R(Ctx& x, const string& c) {
  if (c.compare(0, 5, "deep:") == 0) { KV k(c.substr(5)); DeepNet(x, (int) k.geti("n"), (int) k.geti("k"), (int) k.geti("r")); return; }
  if (c.compare(0, 5, "wide:") == 0) { KV k(c.substr(5)); WideNet(x, (int) k.geti("n"), (int) k.geti("k")); return; }
  Netlist n;
  if (!NlDec(c.substr(2), &n)) exit(2);
  NlCheck(x, n, false, "v");
}
PropReg r07("C07", C07, C07R);

// ---------------------------------------------------------------- Bristol
struct BG { int a, b, o, t; };  // t 0 XOR 1 AND 2 INV
struct Bris { int gin, ein, out, wires; vector<BG> g; };
string BEnc(const Bris& b) {
  string s = std::to_string(b.gin) + "," + std::to_string(b.ein) + "," + std::to_string(b.out) + "," + std::to_string(b.wires);
  for (auto& g : b.g) s += "/" + std::to_string(g.t) + "," + std::to_string(g.a) + "," + std::to_string(g.b) + "," + std::to_string(g.o);
  return s;
}
string BrisText(const Bris& b, int style) {
  string t = std::to_string(b.g.size()) + " " + std::to_string(b.wires) + "\n" + std::to_string(b.gin) + " " + std::to_string(b.ein) + (style ? "   " : " ") + std::to_string(b.out) + "\n\n";
  static const char* nm[3] = {"XOR", "AND", "INV"};
  for (auto& g : b.g) t += g.t == 2 ? "1 1 " + std::to_string(g.a) + " " + std::to_string(g.o) + " INV\n" : "2 1 " + std::to_string(g.a) + " " + std::to_string(g.b) + " " + std::to_string(g.o) + " " + nm[g.t] + "\n";
  if (style == 1) t += "\n";
  return t;
}
void BrisCheck(Ctx& x, const Bris& b, int style) {
  string d = "b" + std::to_string(style) + ":" + BEnc(b);
  x.begin(d);
  string t = BrisText(b, style);
  string vf = ScratchDir() + "/b.txt", sf = ScratchDir() + "/b.scd";
  WriteFile(vf, t);
  unlink(sf.c_str());
  int rc = 99;
  string what;
  try { rc = Translate(true, vf, sf + ".map", sf); } catch (std::exception& e) { what = e.what(); }
  if (!what.empty()) { x.violation(d, "exception escaped: " + what); return; }
  if (rc != 0) { x.violation(d, "translation of a Bristol circuit fails"); return; }
  Circuit c;
  if (!ParseScd(ReadFile(sf), &c)) { x.violation(d, "the circuit file is malformed or not in evaluation order"); return; }
  if (c.gin != b.gin || c.ein != b.ein || (int) c.out.size() != b.out || c.pi || c.gi || c.ei || c.pin || c.dff() || c.term) { x.violation(d, "inputs or outputs differ from the Bristol circuit"); return; }
  int n = b.gin + b.ein;
  int cc = n <= 8 ? 1 << n : 40;
  Inputs in;
  for (int k = 0; k < cc; k++) for (int i = 0; i < n; i++) {
    size_t h = (size_t) k * 1000 + i;
    uint8_t v = n <= 8 ? k >> i & 1 : k == 0 ? 0 : k == 1 ? 1 : k < 20 ? i % 19 == k - 2 : (Hash64(&h, sizeof h) >> 5) & 1;
    (i < b.gin ? in.g_in : in.e_in).push_back(v);
  }
  RefTrace t2 = RefRun(c, in, cc, 0);
  for (int k = 0; k < cc; k++) {
    vector<int> w(b.wires, -1);
    for (int i = 0; i < n; i++) w[i] = i < b.gin ? in.g_in[(size_t) k * b.gin + i] : in.e_in[(size_t) k * b.ein + i - b.gin];
    size_t left = b.g.size();
    vector<bool> done(b.g.size(), false);
    while (left) {
      size_t l0 = left;
      for (size_t i = 0; i < b.g.size(); i++) {
        auto& g = b.g[i];
        if (done[i] || w[g.a] < 0 || (g.t != 2 && w[g.b] < 0)) continue;
        w[g.o] = g.t == 0 ? w[g.a] ^ w[g.b] : g.t == 1 ? w[g.a] & w[g.b] : !w[g.a];
        done[i] = true;
        left--;
      }
      if (left == l0) { fprintf(stderr, "cyclic bristol case\n"); exit(2); }
    }
    Bits o;
    for (int i = 0; i < b.out; i++) o.push_back(w[b.wires - b.out + i]);
    if (o != t2.outs[k]) { x.violation(d, "input " + std::to_string(k) + ": circuit outputs " + BitsHex(t2.outs[k]) + " Bristol circuit " + BitsHex(o)); return; }
    x.outcome(BitsHex(o));
  }
  x.transitions += cc;
  x.state(d);
  if (x.evals % 1999 == 3) x.sample(d.substr(0, 200));
}
void BrisFam(bool deep, const std::function<void(const Bris&, int)>& f) {
  // all circuits of up to 3 gates over three inputs split every way; outputs are the last wires
  for (int gi = 0; gi <= 3; gi++) {
    int n = 3;
    auto ops = [&](int k) { vector<BG> v; for (int t = 0; t < 3; t++) for (int a = 0; a < k; a++) for (int b = 0; b < k; b++) { if (t == 2 && b) continue; v.push_back({a, b, 0, t}); } return v; };
    for (auto g1 : ops(n)) {
      g1.o = n;
      f({gi, n - gi, 1, n + 1, {g1}}, gi % 2);
      for (auto g2 : ops(n + 1)) {
        g2.o = n + 1;
        f({gi, n - gi, 1, n + 2, {g1, g2}}, 0);
        f({gi, n - gi, 2, n + 2, {g2, g1}}, 1);
        if (deep || ((g1.a + g2.b) % 3 == gi % 3 && g1.a <= g1.b)) for (auto g3 : ops(n + 2)) {
          g3.o = n + 2;
          if (!deep && g3.a > g3.b && g3.t != 2) continue;
          f({gi, n - gi, 1 + (g3.a % 3), n + 3, {g1, g2, g3}}, 0);
        }
      }
    }
  }
  // adders and comparators of several widths, gates in file order and reversed
  for (int w : {1, 2, 3, 8, 31, 32, 33, 64, 65, 128, 200, 300, 1100, 22000}) for (int v = 0; v < 4; v++) {
    if (w > 5000 && (v & 2)) continue;
    Bris b;
    b.gin = w; b.ein = v & 1 ? w : w; b.out = w;
    int nx = 2 * w;
    vector<int> sum;
    int carry = -1;
    for (int i = 0; i < w; i++) {
      int x = nx++;
      b.g.push_back({i, w + i, x, 0});
      if (carry < 0) { int c = nx++; b.g.push_back({i, w + i, c, 1}); carry = c; sum.push_back(x); continue; }
      int s = nx++; b.g.push_back({x, carry, s, 0});
      int t = nx++; b.g.push_back({x, carry, t, 1});
      int u = nx++; b.g.push_back({i, w + i, u, 1});
      int c = nx++; b.g.push_back({t, u, c, 0});
      carry = c;
      sum.push_back(s);
    }
    for (int i = 0; i < w; i++) { int o = nx++; b.g.push_back({sum[i], i ? sum[i - 1] : carry, o, v & 2 ? 0 : 1}); }
    b.wires = nx;
    if (v & 2) std::reverse(b.g.begin(), b.g.end());
    f(b, v & 1);
  }
}
// more inputs and outputs than two bytes count
void WideBris(const std::function<void(const Bris&, int)>& f) {
  for (int n : {1030, 33000, 66000}) for (int v = 0; v < 2; v++) {
    Bris b;
    b.gin = v ? n / 2 : n; b.ein = n; b.out = n;
    for (int i = 0; i < n; i++) b.g.push_back({v ? i : n - 1 - i, v ? b.gin + i / 2 : n + i, b.gin + n + i, (i + v) % 3 % 2});
    b.wires = b.gin + 2 * n;
    f(b, v);
  }
}
// long chains of gates, wires numbered in order; the gates in order or reversed
void DeepBris(Ctx& x, int n, int k, int r) {
  string d = "deep:n=" + std::to_string(n) + ";k=" + std::to_string(k) + ";r=" + std::to_string(r);
  x.begin(d);
  const int out = 70;
  vector<BG> g(n);
  for (int i = 0; i < n; i++) {
    int a = i == 0 ? 0 : i + 3, b = i * 7 % 4, t = k == 2 ? 2 : i % 5 == 1 ? 1 : i % 11 == 3 ? 2 : 0;
    g[i] = {k == 1 && t != 2 ? b : a, k == 1 ? a : b, i + 4, t};
  }
  string t = std::to_string(n) + " " + std::to_string(n + 4) + "\n2 2 " + std::to_string(out) + "\n\n";
  static const char* nm[2] = {"XOR", "AND"};
  for (int j = 0; j < n; j++) {
    auto& q = g[r ? n - 1 - j : j];
    t += q.t == 2 ? "1 1 " + std::to_string(q.a) + " " + std::to_string(q.o) + " INV\n" : "2 1 " + std::to_string(q.a) + " " + std::to_string(q.b) + " " + std::to_string(q.o) + " " + nm[q.t] + "\n";
  }
  string vf = ScratchDir() + "/d.txt", sf = ScratchDir() + "/d.scd";
  WriteFile(vf, t);
  unlink(sf.c_str());
  int rc = 99;
  string what;
  try { rc = Translate(true, vf, sf + ".map", sf); } catch (std::exception& e) { what = e.what(); }
  if (!what.empty()) { x.violation(d, "exception escaped: " + what); return; }
  if (rc != 0) { x.violation(d, "translation of a Bristol circuit fails"); return; }
  Circuit c;
  if (!ParseScd(ReadFile(sf), &c)) { x.violation(d, "the circuit file is malformed or not in evaluation order"); return; }
  if (c.gin != 2 || c.ein != 2 || (int) c.out.size() != out || c.pi || c.gi || c.ei || c.pin || c.dff() || c.term) { x.violation(d, "inputs or outputs differ from the Bristol circuit"); return; }
  Inputs in;
  for (int q = 0; q < 16; q++) for (int i = 0; i < 2; i++) { in.g_in.push_back(q >> i & 1); in.e_in.push_back(q >> (2 + i) & 1); }
  RefTrace rt = RefRun(c, in, 16, 0);
  for (int q = 0; q < 16; q++) {
    Bits w(n + 4);
    for (int i = 0; i < 4; i++) w[i] = q >> i & 1;
    for (auto& e : g) w[e.o] = e.t == 0 ? w[e.a] ^ w[e.b] : e.t == 1 ? w[e.a] & w[e.b] : !w[e.a];
    Bits o(w.end() - out, w.end());
    if (o != rt.outs[q]) { x.violation(d, "input " + std::to_string(q) + ": circuit outputs " + BitsHex(rt.outs[q]) + " Bristol circuit " + BitsHex(o)); return; }
    x.outcome(BitsHex(o));
  }
  x.state(d);
  x.transitions += 16;
}
void C08(Ctx& x) {
  for (int k = 0; k < 3; k++) for (int r = 0; r < 2; r++) for (int n : {100, 1000, 30000, 70000, 200000}) if (n <= (x.mem ? 30000 : r ? 200000 : k == 0 ? 70000 : 30000) && x.mine()) DeepBris(x, n, k, r);
  WideBris([&](const Bris& b, int s) { if ((!x.mem || b.out < 5000) && x.mine()) BrisCheck(x, b, s); });
  BrisFam(x.thorough(), [&](const Bris& b, int s) { if ((!x.mem || b.out < 5000) && x.mine()) BrisCheck(x, b, s); });
}
Bris BDec(const string& c) {
  Bris b;
  auto f = Split(c, '/');
  auto h = Split(f[0], ',');
  b.gin = atoi(h[0].c_str()); b.ein = atoi(h[1].c_str()); b.out = atoi(h[2].c_str()); b.wires = atoi(h[3].c_str());
  for (size_t i = 1; i < f.size(); i++) { auto g = Split(f[i], ','); b.g.push_back({atoi(g[1].c_str()), atoi(g[2].c_str()), atoi(g[3].c_str()), atoi(g[0].c_str())}); }
  return b;
}
void C08R(Ctx& x, const string& c) {
  if (c.compare(0, 5, "deep:") == 0) { KV k(c.substr(5)); DeepBris(x, (int) k.geti("n"), (int) k.geti("k"), (int) k.geti("r")); return; }
  BrisCheck(x, BDec(c.substr(3)), c[1] - '0');
}
PropReg r08("C08", C08, C08R);

// ---------------------------------------------------------------- C09: write, read back
// `perm`: the order in which the gates are stored before scheduling
void RoundTrip(Ctx& x, const Circuit& c, int perm, const char* tag) {
  string d = string(tag) + ":" + std::to_string(perm) + ":" + c.enc();
  x.begin(d);
  ReadCircuit r;
  r.p_init_size = c.pi; r.g_init_size = c.gi; r.e_init_size = c.ei;
  r.p_input_size = c.pin; r.g_input_size = c.gin; r.e_input_size = c.ein;
  r.dff_size = c.dff(); r.gate_size = c.g.size(); r.output_size = c.out.size();
  r.terminate_id = c.term;
  size_t n = c.g.size();
  r.gate_list.resize(n);
  r.task_schedule.resize(n);
  for (size_t i = 0; i < n; i++) {
    size_t j = perm == 0 ? i : perm == 1 ? n - 1 - i : (i + perm) % n;
    r.task_schedule[i] = j;
    r.gate_list[j].input[0] = c.g[i].a;
    r.gate_list[j].input[1] = c.g[i].type == 12 ? -1 : c.g[i].b;
    r.gate_list[j].type = c.g[i].type;
    r.gate_list[j].output = c.W((int) i);
  }
  r.dff_list.resize(c.dff());
  for (int i = 0; i < c.dff(); i++) { r.dff_list[i].input[0] = c.D[i]; r.dff_list[i].input[1] = c.I[i]; r.dff_list[i].output = c.Q(i); }
  r.output_list.assign(c.out.begin(), c.out.end());
  string p = ScratchDir() + "/rt.scd";
  if (WriteSCD(r, p) != 0) { x.violation(d, "writing the circuit fails"); return; }
  GarbledCircuit g;
  memset((void*) &g, 0xA5, sizeof g);
  if (ReadSCD(p, &g) != 0) { x.violation(d, "reading the circuit back fails"); return; }
  string e;
  auto eq = [&](const char* what, int64_t a, int64_t b) { if (a != b && e.empty()) e = string(what) + " is " + std::to_string(a) + " expected " + std::to_string(b); };
  eq("p_init", g.p_init_size, c.pi); eq("g_init", g.g_init_size, c.gi); eq("e_init", g.e_init_size, c.ei);
  eq("p_input", g.p_input_size, c.pin); eq("g_input", g.g_input_size, c.gin); eq("e_input", g.e_input_size, c.ein);
  eq("registers", g.dff_size, c.dff()); eq("outputs", g.output_size, c.out.size()); eq("terminate", g.terminate_id, c.term); eq("gates", g.gate_size, n);
  if (e.empty()) for (size_t i = 0; i < n; i++) {
    eq("gate input 0", g.garbledGates[i].input0, c.g[i].a);
    eq("gate input 1", g.garbledGates[i].input1, c.g[i].type == 12 ? -1 : c.g[i].b);
    eq("gate type", g.garbledGates[i].type, c.g[i].type);
    eq("gate output", g.garbledGates[i].output, c.W((int) i));
  }
  if (e.empty()) for (size_t i = 0; i < c.out.size(); i++) eq("output", g.outputs[i], c.out[i]);
  if (e.empty()) for (int i = 0; i < c.dff(); i++) { eq("register input", g.D[i], c.D[i]); eq("register initial value", g.I[i], c.I[i]); }
  if (e.empty()) {  // and the text is the documented format
    Circuit c2;
    if (!ParseScd(ReadFile(p), &c2)) e = "the file is not in the documented format";
  }
  x.state(d);
  x.transitions += n + c.dff() + c.out.size();
  x.outcome(c.enc().substr(0, 40));
  if (!e.empty()) x.violation(d, e);
  free(g.garbledGates);
  if (!c.out.empty()) free(g.outputs);
  if (c.dff()) { delete[] g.D; delete[] g.I; }
}
void C09(Ctx& x) {
  auto rt = [&](const Circuit& c) { if (x.mine()) RoundTrip(x, c, (int) (x.gidx / x.nshards % 3), "rt"); };
  FamOne(rt);
  FamTwo(!x.thorough(), rt);
  FamSeq(x.thorough() ? 1 : 0, rt);
  Circuit c;
  for (int k = 0; TermCircuit(k, &c); k++) rt(c);
  for (int w : {1, 7, 64, 129, 300}) { rt(WideCircuit(w, true)); rt(WideCircuit(w, false)); }
  for (int n : {1000, 40000, 70000}) rt(ChainCircuit(n, 3));
  for (int n : {86, 1100, 22000, 66000}) rt(BigCircuit(n));
  rt(PackedGrid(2, 2, 2, true));
  for (int set = 0; set < 64; set++) for (int w : {1, 3, 1000, 70000}) {  // header fields one by one
    Circuit q;
    q.pi = set & 1 ? w : 0; q.gi = set & 2 ? w + 1 : 0; q.ei = set & 4 ? w + 2 : 0; q.pin = set & 8 ? w + 3 : 0; q.gin = set & 16 ? w + 4 : 0; q.ein = set & 32 ? w + 5 : 0;
    if (q.wires() == 0) continue;
    int64_t lo = q.pi + q.gi + q.ei;
    q.g = {{q.wires() > lo ? lo : kC1, q.wires() > lo ? q.wires() - 1 : kC0, 8}};
    q.out = {q.W(0), q.wires() - 1 > lo ? lo : q.W(0)};
    q.term = q.W(0);
    if (set & 7) { q.D = {q.W(0) + 1, kC1}; q.I = {kC0, q.pi + q.gi + q.ei - 1}; q.g[0].b = q.Q(1); q.out = {q.W(0), q.Q(0)}; q.term = q.Q(0); q.D[0] = q.W(0); }
    rt(q);
  }
  NlFamilies(false, [&](const Netlist& n) { if (x.mine()) NlCheck(x, n, true, "m"); });
}
void C09R(Ctx& x, const string& c) {
  if (c[0] == 'm') { Netlist n; if (!NlDec(c.substr(2), &n)) exit(2); NlCheck(x, n, true, "m"); return; }
  Circuit q;
  size_t p = c.find(':', 3);
  Circuit::dec(c.substr(p + 1), &q);
  RoundTrip(x, q, atoi(c.substr(3).c_str()), "rt");
}
PropReg r09("C09", C09, C09R);

// ------------------------------------------------------------------ C27, plaintext evaluator and translators
// Everything a call leaves behind must be the same whatever freshly allocated memory contained.
const int kFills[4] = {0x00, 0xFF, 0xAA, 0x01};
void Filled(int k, const std::function<void()>& f) {
  int fill0 = g_heap_fill;
  g_heap_fill = kFills[k];
  mallopt(M_PERTURB, kFills[k] ^ 0xff ? kFills[k] ^ 0xff : 1);
  f();
  mallopt(M_PERTURB, 0);
  g_heap_fill = fill0;
}
void MemPlain(Ctx& x, const Session& s0) {
  string d = "pm:" + s0.enc();
  x.begin(d);
  Plain ref;
  for (int k = 0; k < 4; k++) {
    Session s = s0;
    s.fill = kFills[k];
    Plain r;
    mallopt(M_PERTURB, kFills[k] ^ 0xff ? kFills[k] ^ 0xff : 1);
    r = RunPlain(s);
    mallopt(M_PERTURB, 0);
    x.transitions++;
    if (!k) ref = r;
    else if (r.rc != ref.rc || r.what != ref.what) { x.violation(d, "plaintext evaluation succeeds or fails depending on uninitialised memory"); return; }
    else if (r.out != ref.out) { x.violation(d, "plaintext result depends on uninitialised memory: " + ref.out.substr(0, 200) + " and " + r.out.substr(0, 200)); return; }
    else if (r.csv != ref.csv) { x.violation(d, "wire dump depends on uninitialised memory"); return; }
  }
  x.state(d);
  x.outcome(ref.out);
}
void MemTranslate(Ctx& x, const string& d, const string& text, bool bristol) {
  x.begin(d);
  string vf = ScratchDir() + "/m.in", sf = ScratchDir() + "/m.scd", ref;
  WriteFile(vf, text);
  for (int k = 0; k < 4; k++) {
    unlink(sf.c_str());
    unlink((sf + ".map").c_str());
    int rc = 99;
    string what;
    Filled(k, [&] {
      try { rc = Translate(bristol, vf, sf + ".map", sf); } catch (std::exception& e) { what = e.what(); }
    });
    x.transitions++;
    string r = std::to_string(rc) + what + "\n" + ReadFile(sf) + "\n" + ReadFile(sf + ".map");
    if (!k) ref = r;
    else if (r != ref) { x.violation(d, "the translation depends on uninitialised memory"); return; }
  }
  x.state(d);
  uint64_t h = Hash64(ref.data(), ref.size());
  x.outcome(std::to_string(h));
}
void C27P(Ctx& x) {
  Circuit c;
  for (int kind = 0; TermCircuit(kind, &c); kind++) for (int cc = 1; cc <= (x.thorough() ? 6 : 4); cc++) for (int per = 0; per <= 3; per++) for (int mode = 0; mode < 3; mode++)
    for (int v = 0; v < (x.thorough() ? 16 : 4); v++) {
      if (!x.mine()) continue;
      Session s;
      s.c = c; s.cc = cc; s.period = per; s.mode = mode;
      s.in = MakeInputs(c, cc, v * 0x9E3779B97F4A7C15ull >> 3);
      MemPlain(x, s);
    }
  for (int k1 = 0; k1 < kKinds; k1++) for (int k2 = 0; k2 < kKinds; k2++) {
    if (!x.mine()) continue;
    Session s = KindSession(KindCircuit({k1, k2}), k1 * 5 + k2);
    s.mode = (k1 + k2) % 3;
    MemPlain(x, s);
  }
  FamOne([&](const Circuit& q) {
    if (!x.mine()) return;
    Session s;
    s.c = q;
    s.in = AllAssignments(q, &s.cc);
    MemPlain(x, s);
  });
  if (x.thorough()) FamTwo(true, [&](const Circuit& q) {
    if (!x.mine()) return;
    Session s;
    s.c = q;
    s.in = AllAssignments(q, &s.cc);
    MemPlain(x, s);
  });
  FamSeq(0, [&](const Circuit& q) {
    if (!x.mine()) return;
    Session s = Hist(q, 4, x.gidx);
    s.mode = (int) (x.gidx / x.nshards % 3);
    MemPlain(x, s);
  });
  for (int w : {1, 7, 8, 9, 33, 128, 129, 200}) {
    if (!x.mine()) continue;
    MemPlain(x, Hist(WideCircuit(w, true), 2, w));
  }
  NlFamilies(x.thorough(), [&](const Netlist& n) { if (x.mine()) MemTranslate(x, "pmv:" + NlEnc(n), Text(n), false); });
  BrisFam(false, [&](const Bris& b, int s) { if (x.mine()) MemTranslate(x, "pmb" + std::to_string(s) + ":" + BEnc(b), BrisText(b, s), true); });
}
void C27PR(Ctx& x, const string& c) {
  Session s;
  Netlist n;
  if (c.compare(0, 3, "pmb") == 0) return MemTranslate(x, c, BrisText(BDec(c.substr(5)), c[3] - '0'), true);
  if (c.compare(0, 4, "pmv:") == 0 && NlDec(c.substr(4), &n)) return MemTranslate(x, c, Text(n), false);
  if (c.compare(0, 3, "pm:") || !Session::dec(c.substr(3), &s)) { fprintf(stderr, "bad case\n"); exit(2); }
  MemPlain(x, s);
}
PropReg r27p("C27P", C27P, C27PR);

}  // namespace
