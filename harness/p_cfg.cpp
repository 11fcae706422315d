// C31: requests that cannot be carried out are refused.
#include "fam.h"
#include <unistd.h>
#include "garbled_circuit/garbled_circuit.h"
#include "scd/scd_evaluator.h"
#include "scd/v_2_scd.h"
#include "scd/scd.h"
#include "util/common.h"

namespace {
struct Req { string path, pinit, pin, init, in, mask; uint64_t cc = 2; int64_t per = 0; int mode = 0; bool no_ot = true, low = false; };
Circuit Base(bool term) {
  Circuit c;
  c.pi = 4; c.gi = 4; c.ei = 4; c.pin = 4; c.gin = 4; c.ein = 4;
  for (int i = 0; i < 12; i++) { c.D.push_back(0); c.I.push_back(i); }
  for (int i = 0; i < 4; i++) c.g.push_back({c.G(i), c.E(i), 8});
  for (int i = 0; i < 4; i++) c.g.push_back({c.W(i), c.P(i), 6});
  for (int i = 0; i < 4; i++) c.out.push_back(c.W(4 + i));
  for (int i = 0; i < 12; i++) c.D[i] = c.W(i % 8);
  if (term) c.term = c.W(7);
  return c;
}
const char* kFaults[] = {"ok", "cycles0", "nofile", "dir", "period_noterm", "hex_pinit", "hex_pin", "hex_init", "hex_in", "hex_mask"};
const char* kBadHex[] = {"g", "0x1F", "1F ", " 1", "-1", "+1", "1_0", "12G4", "1.0", "zz", "1\n2"};

// one case: fault f (bad string k) in party p (0 garbler, 1 evaluator, 2 both), option bits o
void Refuse(Ctx& x, int f, int k, int p, int o) {
  string d = "req:f=" + std::to_string(f) + ";k=" + std::to_string(k) + ";p=" + std::to_string(p) + ";o=" + std::to_string(o);
  x.begin(d);
  x.state(d);
  bool term = o & 8;
  if (f == 4) term = false;
  Circuit c = Base(term);
  Req r[2];
  for (int i = 0; i < 2; i++) {
    Req& q = r[i];
    q.path = WriteScdFile(c);
    q.pinit = "A"; q.pin = "3C"; q.init = i ? "5" : "6"; q.in = i ? "9C" : "F7"; q.mask = "3";
    q.no_ot = !(o & 1); q.low = o & 2; q.cc = o & 4 ? 3 : 2; q.per = term ? 1 + (o & 1) : 0;
    q.mode = o % 3;
    if (p != 2 && p != i) continue;
    switch (f) {
      case 1: q.cc = 0; break;
      case 2: q.path = ScratchDir() + "/missing.scd"; break;
      case 3: q.path = ScratchDir(); break;
      case 4: q.per = 1 + k; break;
      case 5: q.pinit = kBadHex[k]; break;
      case 6: q.pin = kBadHex[k]; break;
      case 7: q.init = kBadHex[k]; break;
      case 8: q.in = kBadHex[k]; break;
      case 9: q.mask = kBadHex[k]; break;
    }
  }
  SeedEnv(4);
  int ra = 99, rb = 99;
  string oa, ob;
  Net net;
  net.keep_transcript = false;
  RunTwo(&net,
    [&] { Req& q = r[0]; ra = GarbleStr(q.path, q.pinit, q.pin, q.init, q.in, q.cc, q.mask, q.per, (OutputMode) q.mode, q.no_ot, q.low, &oa, kFdA); },
    [&] { Req& q = r[1]; rb = EvaluateStr(q.path, q.pinit, q.pin, q.init, q.in, q.cc, q.mask, q.per, (OutputMode) q.mode, q.no_ot, q.low, &ob, kFdB); });
  x.transitions += net.gops;
  x.outcome(std::to_string(ra) + "/" + std::to_string(rb));
  if (x.evals % 211 == 5) x.sample(d + " (" + kFaults[f] + ") -> " + std::to_string(ra) + "/" + std::to_string(rb));
  string e;
  if (net.livelock || net.deadlock) e = "the session does not finish";
  else if (net.threw[0] || net.threw[1]) e = "exception escaped: " + net.what[0] + net.what[1];
  else if (f == 0) { if (ra || rb) e = "valid request refused"; }
  else {
    if ((p == 0 || p == 2) && ra == 0) e = "garbler accepts the invalid request";
    if ((p == 1 || p == 2) && rb == 0) e = "evaluator accepts the invalid request";
    if (p != 2 && f != 9 && (p == 0 ? rb : ra) == 0) e = "the other party reports success although this one refused";
  }
  if (!e.empty()) x.violation(d, string(kFaults[f]) + ": " + e);
}
// plaintext evaluator
void RefusePlain(Ctx& x, int f, int k) {
  string d = "plain:f=" + std::to_string(f) + ";k=" + std::to_string(k);
  x.begin(d);
  x.state(d);
  Circuit c = Base(false);
  string path = WriteScdFile(c, true);
  string v[6] = {"1", "2", "3", "4", "5", "6"}, o;
  int64_t per = 0;
  if (f < 6) v[f] = kBadHex[k];
  else if (f == 6) path = ScratchDir() + "/missing.scd";
  else if (f == 7) per = 1 + k;
  else if (f == 8) path = ScratchDir();
  int rc = 99;
  string what;
  try { rc = EvalauatePlaintextStr(path, v[0], v[1], v[2], v[3], v[4], v[5], 2, per, OutputMode::consecutive, &o); } catch (std::exception& e) { what = e.what(); }
  x.outcome(std::to_string(rc));
  bool want_ok = f == 9;
  if (!what.empty()) x.violation(d, "exception escaped: " + what);
  else if (want_ok ? rc != 0 : rc == 0) x.violation(d, want_ok ? "valid request refused" : "plaintext evaluator accepts the invalid request");
}
// netlists with combinational loops of every length through every cell kind
const char* kCells[] = {"AND", "XOR", "IV", "MUX", "HADDER", "FADDER", "ASSIGN"};
void Loop(Ctx& x, int len, int cell, int where, int extra) {
  string d = "loop:len=" + std::to_string(len) + ";cell=" + std::to_string(cell) + ";pin=" + std::to_string(where) + ";extra=" + std::to_string(extra);
  x.begin(d);
  x.state(d);
  string v = "module m ( g_input, e_input, o );\n  input [1:0] g_input;\n  input [1:0] e_input;\n  output [1:0] o;\n  wire";
  for (int i = 0; i < len; i++) v += string(i ? ", " : " ") + "n" + std::to_string(i);
  v += ";\n";
  for (int i = 0; i < len; i++) {
    string in = "n" + std::to_string((i + len - 1) % len), out = "n" + std::to_string(i), u = "U" + std::to_string(i);
    if (extra == 2 && i == 0) in = "g_input[0]";  // loop broken: valid netlist
    string a[3] = {"g_input[0]", "e_input[1]", "g_input[1]"};
    int kind = i == 0 ? cell : 0;
    a[kind == 2 || kind == 6 ? 0 : where % (kind == 3 || kind == 5 ? 3 : 2)] = in;
    switch (kind) {
      case 0: v += "  AND " + u + " ( .A(" + a[0] + "), .B(" + a[1] + "), .Z(" + out + ") );\n"; break;
      case 1: v += "  XOR " + u + " ( .A(" + a[0] + "), .B(" + a[1] + "), .Z(" + out + ") );\n"; break;
      case 2: v += "  IV " + u + " ( .A(" + a[0] + "), .Z(" + out + ") );\n"; break;
      case 3: v += "  MUX " + u + " ( .IN0(" + a[0] + "), .IN1(" + a[1] + "), .SEL(" + a[2] + "), .F(" + out + ") );\n"; break;
      case 4: v += "  HADDER " + u + " ( .IN0(" + a[0] + "), .IN1(" + a[1] + "), .COUT(" + out + "), .SUM(o[1]) );\n"; break;
      case 5: v += "  FADDER " + u + " ( .IN0(" + a[0] + "), .IN1(" + a[1] + "), .CIN(" + a[2] + "), .COUT(" + out + "), .SUM(o[1]) );\n"; break;
    }
  }
  if (cell != 4 && cell != 5) v += "  OR UO ( .A(g_input[1]), .B(e_input[0]), .Z(o[1]) );\n";
  if (extra == 1) v += "  NAND UX ( .A(n0), .B(e_input[0]), .Z(o[0]) );\n"; else v += "  XOR UX ( .A(n" + std::to_string(len - 1) + "), .B(e_input[0]), .Z(o[0]) );\n";
  v += "endmodule\n";
  string vf = ScratchDir() + "/l.v", sf = ScratchDir() + "/l.scd";
  unlink(sf.c_str());
  FILE* f = fopen(vf.c_str(), "w"); fwrite(v.data(), 1, v.size(), f); fclose(f);
  int rc = 99;
  string what;
  try { rc = Verilog2SCD(vf, sf + ".map", sf); } catch (std::exception& e) { what = e.what(); }
  x.outcome(std::to_string(rc));
  if (!what.empty()) x.violation(d, "exception escaped: " + what);
  else if (extra == 2 ? rc != 0 : rc == 0) x.violation(d, extra == 2 ? "acyclic netlist refused" : "netlist with a combinational loop accepted");
  else if (x.evals % 97 == 1) x.sample(d + " -> " + std::to_string(rc));
}

// ---------------------------------------------------------------- netlists that describe no circuit
struct Pin { const char* name; bool out; };
struct CellKind { const char* type; vector<Pin> pins; };
const vector<CellKind>& Cells() {
  static vector<CellKind> v;
  if (v.empty()) {
    for (const char* t : {"AND", "ANDN", "NAND", "NANDN", "OR", "ORN", "NOR", "NORN", "XOR", "XNOR"}) v.push_back({t, {{"A", false}, {"B", false}, {"Z", true}}});
    v.push_back({"IV", {{"A", false}, {"Z", true}}});
    v.push_back({"DFF", {{"D", false}, {"I", false}, {"Q", true}}});
    v.push_back({"MUX", {{"IN0", false}, {"IN1", false}, {"SEL", false}, {"F", true}}});
    v.push_back({"HADDER", {{"IN0", false}, {"IN1", false}, {"SUM", true}, {"COUT", true}}});
    v.push_back({"FADDER", {{"IN0", false}, {"IN1", false}, {"CIN", false}, {"SUM", true}, {"COUT", true}}});
  }
  return v;
}
// the circuit around the cell under test; stmt is placed first (0), between (1) or last (2)
string Around(const string& stmt, int place, const string& use, const string& pre = "") {
  string s[3] = {place == 0 ? stmt : "", place == 1 ? stmt : "", place == 2 ? stmt : ""};
  return "module m ( clk, rst, g_init, e_init, p_input, g_input, e_input, o, terminate );\n  input clk, rst;\n  input [1:0] g_init;\n  input [1:0] e_init;\n  input [1:0] p_input;\n"
         "  input [1:0] g_input;\n  input [1:0] e_input;\n  output [1:0] o;\n  output terminate;\n  wire n1, n2, n3, q1, q2, x1, x2;\n" + s[0] +
         "  AND U1 ( .A(g_input[0]), .B(e_input[0]), .Z(n1) );\n  DFF R1 ( .D(n1), .CLK(clk), .RST(rst), .I(e_init[1]), .Q(q1) );\n" + s[1] +
         "  XOR U2 ( .A(q1), .B(g_input[1]), .Z(n2) );\n  IV U3 ( .A(n2), .Z(n3) );\n" + pre +
         "  OR U4 ( .A(n3), .B(" + use + "), .Z(o[0]) );\n  NAND U5 ( .A(e_input[1]), .B(" + use + "), .Z(o[1]) );\n  AND U6 ( .A(p_input[0]), .B(p_input[1]), .Z(terminate) );\n" + s[2] + "endmodule\n";
}
int Translate(const string& text, string* what, bool bris = false) {
  string vf = ScratchDir() + "/b.v", sf = ScratchDir() + "/b.scd";
  unlink(sf.c_str());
  FILE* f = fopen(vf.c_str(), "w"); fwrite(text.data(), 1, text.size(), f); fclose(f);
  int rc = 99;
  try { rc = bris ? Bris2SCD(vf, sf + ".map", sf) : Verilog2SCD(vf, sf + ".map", sf); } catch (std::exception& e) { *what = e.what(); }
  return rc;
}
void Judge(Ctx& x, const string& d, int rc, const string& what, bool ok, const string& text) {
  x.outcome(std::to_string(rc));
  x.transitions++;
  if (!what.empty()) x.violation(d, "exception escaped: " + what);
  else if (ok ? rc != 0 : rc == 0) x.violation(d, string(ok ? "valid netlist refused: " : "netlist that describes no circuit accepted: ") + text);
  else if (x.evals % 97 == 1) x.sample(d + " -> " + std::to_string(rc));
}
// cell kind k, pin p, fault m: 0 none, 1 pin left out, 2 pin empty, 3 undriven wire, 4 unknown pin added, 5 unknown cell, 6 the pin reads an init port (flip-flop I: reads a wire), 7 the output is driven twice
void Nl(Ctx& x, int k, int p, int m, int place) {
  const CellKind& c = Cells()[k];
  int np = c.pins.size();
  if (p >= np) return;
  bool isout = c.pins[p].out, two = c.pins[np - 2].out;
  if ((m == 3 || m == 6) && isout) return;
  if (m == 7 && !isout) return;
  if ((m == 0 || m == 5) && p) return;
  string d = "nl:k=" + std::to_string(k) + ";p=" + std::to_string(p) + ";m=" + std::to_string(m) + ";l=" + std::to_string(place);
  x.begin(d);
  x.state(d);
  bool isI = string(c.pins[p].name) == "I", ok = m == 0;
  string st = string("  ") + (m == 5 ? "BUFX" : c.type) + " T1 ( ";
  const char* src[3] = {"g_input[1]", "e_input[0]", "p_input[0]"};
  int nin = 0, nout = 0;
  string use = "x1";
  for (int i = 0; i < np; i++) {
    string w = c.pins[i].out ? string(nout++ ? "x2" : "x1") : src[nin++ % 3];
    if (string(c.pins[i].name) == "I") w = "g_init[0]";
    if (i == p) {
      if (m == 1) continue;
      if (m == 2) w = "";
      if (m == 3) w = "nowhere";
      if (m == 6) w = isI ? "g_input[0]" : "g_init[1]";
      if (m == 4) st += ".QN(x2), ";
    }
    st += string(".") + c.pins[i].name + "(" + w + ")" + (i + 1 < np ? ", " : " ");
  }
  if (st.substr(st.size() - 2) == ", ") st = st.substr(0, st.size() - 2) + " ";
  st += ");\n";
  if ((m == 1 || m == 2) && isout && two && p == np - 2) { ok = false; }               // x1 undriven although used
  if ((m == 1 || m == 2) && isout && two && p == np - 1) ok = true;                     // the second output of an adder may stay open
  if (m == 7) st += "  XOR T2 ( .A(g_input[0]), .B(p_input[1]), .Z(" + string(two && p == np - 1 ? "x2" : "x1") + ") );\n";
  string t = Around(st, place, use);
  string what;
  int rc = Translate(t, &what);
  Judge(x, d, rc, what, ok, st);
}
// statements that belong to no circuit
struct Odd { const char* stmt; const char* use; bool ok; };
const Odd kOdd[] = {
  {"", "n1", true}, {"", "x1", false}, {"  assign x1 = n1;\n", "x1", true}, {"  assign x1 = x2;\n", "x1", false}, {"  assign x1 = x2;\n  assign x2 = x1;\n", "x1", false},
  {"  assign x1 = nowhere;\n", "n1", true}, {"  IV T1 ( .A(n1), .Z(x1) );\n  assign x2 = x1;\n", "x2", true}, {"  assign x1 = 1'b1;\n", "x1", true},
  {"  AND T1 ( .A(g_input[2]), .B(n1), .Z(x1) );\n", "x1", false}, {"  AND T1 ( .A(p_input), .B(n1), .Z(x1) );\n", "x1", false}, {"  AND T1 ( .A(g_input[-1]), .B(n1), .Z(x1) );\n", "x1", false},
  {"  input [1:0] h_input;\n", "n1", false}, {"  output [1:0] r;\n", "n1", false}, {"  output [1:0] terminate;\n", "n1", false},
  {"  AND T1 ( .A(1'bx), .B(n1), .Z(x1) );\n", "x1", false}, {"  AND T1 ( .A(1'b1), .B(n1), .Z(x1) );\n", "x1", true},
  {"  assign x1 = g_init[0];\n", "x1", false}, {"  assign x1 = e_init[1];\n", "n1", true},
  {"  DFF T1 ( .D(n1), .CLK(clk), .RST(rst), .I(n1), .Q(x1) );\n", "x1", false}, {"  DFF T1 ( .D(n1), .CLK(clk), .RST(rst), .I(q1), .Q(x1) );\n", "x1", false},
  {"  DFF T1 ( .D(n1), .CLK(clk), .RST(rst), .I(1'b1), .Q(x1) );\n", "x1", true}, {"  DFF T1 ( .D(g_init[0]), .CLK(clk), .RST(rst), .I(1'b1), .Q(x1) );\n", "x1", false},
  {"  assign x2 = g_init[0];\n  DFF T1 ( .D(n1), .CLK(clk), .RST(rst), .I(x2), .Q(x1) );\n", "x1", true},
};
void NlOdd(Ctx& x, int k, int place) {
  string d = "odd:k=" + std::to_string(k) + ";l=" + std::to_string(place);
  x.begin(d);
  x.state(d);
  string what;
  int rc = Translate(Around(kOdd[k].stmt, place, kOdd[k].use), &what);
  Judge(x, d, rc, what, kOdd[k].ok, string(kOdd[k].stmt) + " used: " + kOdd[k].use);
}
// an output that nothing drives: o[bit], terminate
void NlOut(Ctx& x, int k) {
  string d = "undriven:" + std::to_string(k);
  x.begin(d);
  x.state(d);
  string t = Around("", 0, "n1"), from[3] = {".Z(o[0])", ".Z(o[1])", ".Z(terminate)"}, to[3] = {".Z(x1)", ".Z(o[2])", ".Z(x2)"};
  if (k < 3) t.replace(t.find(from[k]), from[k].size(), to[k]);
  if (k == 3 || k == 4) {  // the output is an init port
    t.replace(t.find(from[k == 3 ? 0 : 2]), from[k == 3 ? 0 : 2].size(), ".Z(x1)");
    t.insert(t.find("endmodule"), k == 3 ? "  assign o[0] = g_init[1];\n" : "  assign terminate = e_init[0];\n");
  }
  string what;
  int rc = Translate(t, &what);
  Judge(x, d, rc, what, false, t.substr(t.find("XOR U2")));
}
// a netlist cut after every token
void NlCut(Ctx& x, int n) {
  string t = Around("  FADDER T1 ( .IN0(n1), .IN1(n2), .CIN(q1), .SUM(x1), .COUT(x2) );\n", 1, "x1");
  size_t pos = 0, end = t.find("endmodule");
  for (int i = 0; i < n; i++) {
    pos = t.find_first_of(" (),;\n", pos);
    if (pos == string::npos) return;
    pos = t.find_first_not_of(" (),;\n", pos);
    if (pos == string::npos) return;
  }
  if (pos > end) return;
  string d = "nlcut:" + std::to_string(n);
  x.begin(d);
  x.state(d);
  string what;
  int rc = Translate(t.substr(0, pos), &what);
  Judge(x, d, rc, what, false, "cut at byte " + std::to_string(pos));
}
// Bristol circuits: a small adder, changed or cut
void Bris(Ctx& x, int m, int n) {
  static const char* g[] = {"2 1 0 2 4 XOR", "2 1 0 2 5 AND", "2 1 1 3 6 XOR", "1 1 5 7 INV", "2 1 6 7 8 XOR", "2 1 4 8 9 AND", "2 1 4 5 10 XOR", "2 1 6 9 11 XOR"};
  static const char* repl[] = {"2 1 0 2 4 OR", "2 1 0 2 4 MAND", "2 1 0 12 4 XOR", "2 1 0 200 4 XOR", "2 1 200 0 4 XOR", "2 1 -1 0 4 XOR", "2 1 0 9 4 XOR", "2 1 0 4 4 XOR", "1 1 0 4 AND", "1 1 0 4 XOR",
                               "3 1 0 1 2 4 XOR", "0 1 4 XOR", "2 1 0 2 10 XOR", "2 1 0 2 200 XOR", "2 1 0 2 1 XOR", "2 1 0 2 5 XOR", "", "2 1 0 2 4", "x 1 0 2 4 XOR", "2 1 0 y 4 XOR", "2 1 0 2 z XOR"};
  string head = "8 12\n2 2 2\n\n", t;
  bool ok = false;
  if (m == 0) { t = head; for (auto l : g) t += string(l) + "\n"; ok = true; }
  if (m == 1) {
    if (n >= (int) (sizeof repl / sizeof *repl)) return;
    t = head;
    for (int i = 0; i < 8; i++) t += string(i == 0 ? repl[n] : g[i]) + "\n";
  }
  if (m == 2) {
    string full = head;
    for (auto l : g) full += string(l) + "\n";
    if (n + 4 >= (int) full.size()) return;    // the last token cut short is no gate type either
    t = full.substr(0, n);
  }
  if (m == 3) {
    const char* h[] = {"0 12\n2 2 2\n", "8 0\n2 2 2\n", "8 12\n2 2\n", "", "9 12\n2 2 2\n", "4 12\n2 2 2\n", "8 12\n2 2 9\n", "8 x\n2 2 2\n", "-8 12\n2 2 2\n", "8 12\n20 2 2\n", "8 12\n2 2 20\n"};
    if (n >= 11) return;
    t = h[n];
    for (auto l : g) t += string(l) + "\n";
  }
  string d = "bris:m=" + std::to_string(m) + ";n=" + std::to_string(n);
  x.begin(d);
  x.state(d);
  string what;
  int rc = Translate(t, &what, true);
  Judge(x, d, rc, what, ok, t);
}
void MissingIn(Ctx& x, int k) {
  string d = "missing:" + std::to_string(k);
  x.begin(d);
  x.state(d);
  string m = ScratchDir() + "/none.v", o = ScratchDir() + "/none.scd", bad = ScratchDir() + "/nodir/x.scd", good = ScratchDir() + "/g.v";
  FILE* f = fopen(good.c_str(), "w");
  fputs("module m ( g_input, e_input, o );\n  input [1:0] g_input;\n  input [1:0] e_input;\n  output o;\n  AND U1 ( .A(g_input[0]), .B(e_input[1]), .Z(o) );\nendmodule\n", f);
  fclose(f);
  int rc = 99;
  string what;
  GarbledCircuit gc;
  try {
    if (k == 0) rc = Verilog2SCD(m, o + ".map", o);
    if (k == 1) rc = Verilog2SCD(good, o + ".map", bad);
    if (k == 2) rc = Verilog2SCD(good, o + ".map", o);
    if (k == 3) rc = ReadSCD(m, &gc);
    if (k == 4) rc = ReadSCD(ScratchDir(), &gc);
  } catch (std::exception& e) { what = e.what(); }
  x.outcome(std::to_string(rc));
  if (!what.empty()) x.violation(d, "exception escaped: " + what);
  else if (k == 2 ? rc != 0 : rc == 0) x.violation(d, k == 2 ? "valid translation refused" : "impossible request reported as success");
}
// circuit files cut after every token
void Cut(Ctx& x, int term, int ntok) {
  string d = "cut:term=" + std::to_string(term) + ";n=" + std::to_string(ntok);
  Circuit c = Base(term);
  string t = c.scd();
  size_t pos = 0;
  int k = 0, total = 0;
  bool in = false;
  for (size_t i = 0; i <= t.size(); i++) {
    bool sp = i == t.size() || isspace((unsigned char) t[i]);
    if (!sp && !in) { in = true; total++; }
    if (sp && in) { in = false; if (++k == ntok) pos = i; }
  }
  if (ntok > total) return;
  x.begin(d);
  x.state(d);
  string p = ScratchDir() + "/cut.scd";
  FILE* f = fopen(p.c_str(), "w");
  fwrite(t.data(), 1, ntok == total ? t.size() : pos, f);
  fclose(f);
  f = fopen((p + ".map").c_str(), "w");
  fclose(f);
  string oa, ob, oc;
  int r[3] = {99, 99, 99};
  SeedEnv(4);
  Net net;
  RunTwo(&net, [&] { r[0] = GarbleStr(p, "A", "3C", "5", "33", 2, "1", 0, OutputMode::consecutive, true, false, &oa, kFdA); },
               [&] { r[1] = EvaluateStr(p, "A", "3C", "5", "33", 2, "1", 0, OutputMode::consecutive, true, false, &ob, kFdB); });
  string what;
  try { r[2] = EvalauatePlaintextStr(p, "1", "2", "3", "4", "5", "6", 2, 0, OutputMode::consecutive, &oc); } catch (std::exception& e) { what = e.what(); }
  for (int i = 0; i < 3; i++) {
    const char* who[3] = {"garbler", "evaluator", "plaintext evaluator"};
    x.outcome(std::to_string(r[i]));
    if (ntok == total ? r[i] != 0 : r[i] == 0) x.violation(d, string(who[i]) + (ntok == total ? " refuses a complete circuit file" : " accepts an incomplete circuit file"));
  }
  if (!what.empty() || net.threw[0] || net.threw[1] || net.deadlock || net.livelock) x.violation(d, "exception or hang on an incomplete circuit file " + what + net.what[0] + net.what[1]);
}
// circuit files with one number replaced: refused unless they still are a circuit, and then evaluated like the model
const char* kTok[] = {"-1", "-2", "-3", "-4", "0", "1", "2", "5", "11", "12", "15", "17", "43", "44", "45", "1000000", "99999999999999999999", "x"};
void ScdTok(Ctx& x, int kind, int tok, int rep) {
  string d = "tok:kind=" + std::to_string(kind) + ";n=" + std::to_string(tok) + ";r=" + std::to_string(rep);
  Circuit c = Base(kind & 1);
  if (kind & 2) c.g.push_back({c.W(2), -1, 12}), c.out[1] = c.W(8);
  string t = c.scd(), u;
  vector<string> w;
  for (size_t i = 0; i < t.size(); i++) {
    if (isspace((unsigned char) t[i])) continue;
    size_t e = i;
    while (e < t.size() && !isspace((unsigned char) t[e])) e++;
    w.push_back(t.substr(i, e - i));
    i = e;
  }
  if (tok >= (int) w.size()) return;
  x.begin(d);
  w[tok] = kTok[rep];
  for (auto& s : w) u += s + " ";
  Circuit m;
  bool ok = strcmp(kTok[rep], "x") && rep != 16 && ParseScd(u + "\n", &m);
  if (tok < 10 && ok) {  // other numbers of wires: inputs to match
    if (m.wires() > 4000) return;
  }
  x.state(d);
  string p = ScratchDir() + "/tok.scd";
  FILE* f = fopen(p.c_str(), "w");
  fwrite(u.data(), 1, u.size(), f);
  fclose(f);
  f = fopen((p + ".map").c_str(), "w");
  fclose(f);
  string oa, ob, oc;
  int r[3] = {99, 99, 99};
  SeedEnv(4);
  Net net;
  bool low = tok & 1;
  RunTwo(&net, [&] { r[0] = GarbleStr(p, "A", "3C", "5", "33", 2, "1", 0, OutputMode::consecutive, true, low, &oa, kFdA); },
               [&] { r[1] = EvaluateStr(p, "A", "3C", "5", "33", 2, "1", 0, OutputMode::consecutive, true, low, &ob, kFdB); });
  string what;
  try { r[2] = EvalauatePlaintextStr(p, "1", "2", "3", "4", "5", "6", 2, 0, OutputMode::consecutive, &oc); } catch (std::exception& e) { what = e.what(); }
  static const char* who[3] = {"garbler", "evaluator", "plaintext evaluator"};
  for (int i = 0; i < 3; i++) {
    x.outcome(std::to_string(ok) + std::to_string(r[i]));
    // which inputs a circuit with other port widths needs is not decided here
    if (!ok && r[i] == 0) { x.violation(d, string(who[i]) + " accepts a circuit file that is no circuit: " + u); return; }
    if (ok && tok >= 10 && r[i] != 0) { x.violation(d, string(who[i]) + " refuses a valid circuit file: " + u); return; }
  }
  if (!what.empty() || net.threw[0] || net.threw[1] || net.deadlock || net.livelock) x.violation(d, "exception or hang: " + what + net.what[0] + net.what[1] + ": " + u);
}
void C31(Ctx& x) {
  for (int kind = 0; kind < 4; kind++) for (int n = 0; n < 90; n++) for (int r = 0; r < (int) (sizeof kTok / sizeof *kTok); r++) if (x.mine()) ScdTok(x, kind, n, r);
  for (int term = 0; term < 2; term++) for (int n = 0; n < 120; n++) if (x.mine()) Cut(x, term, n);
  int nb = sizeof kBadHex / sizeof *kBadHex;
  for (int f = 0; f < 10; f++) for (int p = 0; p < 3; p++) for (int o = 0; o < 16; o++) {
    int ks = f >= 5 ? nb : f == 4 ? 3 : 1;
    if (f == 0 && p) continue;
    for (int k = 0; k < ks; k++) if (x.mine()) Refuse(x, f, k, p, o);
  }
  for (int f = 0; f < 10; f++) for (int k = 0; k < (f < 6 ? nb : f == 7 ? 3 : 1); k++) if (x.mine()) RefusePlain(x, f, k);
  for (int len = 1; len <= (x.thorough() ? 60 : 24); len++) for (int cell = 0; cell < 6; cell++) for (int w = 0; w < (cell == 3 || cell == 5 ? 3 : cell == 2 ? 1 : 2); w++)
    for (int e = 0; e < 3; e++) if (x.mine()) Loop(x, len, cell, w, e);
  for (int len : {1000, 300000}) for (int cell : {0, 2, 3}) for (int w = 0; w < 3; w++) for (int e = 0; e < 2; e++) if ((w == 0 || cell) && x.mine()) Loop(x, len, cell, w, e);
  for (int k = 0; k < 5; k++) if (x.mine()) MissingIn(x, k);
  for (int k = 0; k < (int) Cells().size(); k++) for (int p = 0; p < 5; p++) for (int m = 0; m < 8; m++) for (int l = 0; l < 3; l++) if (x.mine()) Nl(x, k, p, m, l);
  for (int k = 0; k < (int) (sizeof kOdd / sizeof *kOdd); k++) for (int l = 0; l < 3; l++) if (x.mine()) NlOdd(x, k, l);
  for (int k = 0; k < 5; k++) if (x.mine()) NlOut(x, k);
  for (int n = 0; n < 200; n++) if (x.mine()) NlCut(x, n);
  for (int m = 0; m < 4; m++) for (int n = 0; n < (m == 2 ? 200 : 30); n++) if ((m || !n) && x.mine()) Bris(x, m, n);
}
void C31R(Ctx& x, const string& c) {
  KV k(c.substr(c.find(':') + 1));
  if (c.compare(0, 4, "req:") == 0) Refuse(x, k.geti("f"), k.geti("k"), k.geti("p"), k.geti("o"));
  else if (c.compare(0, 6, "plain:") == 0) RefusePlain(x, k.geti("f"), k.geti("k"));
  else if (c.compare(0, 5, "loop:") == 0) Loop(x, k.geti("len"), k.geti("cell"), k.geti("pin"), k.geti("extra"));
  else if (c.compare(0, 4, "cut:") == 0) Cut(x, k.geti("term"), k.geti("n"));
  else if (c.compare(0, 3, "nl:") == 0) Nl(x, k.geti("k"), k.geti("p"), k.geti("m"), k.geti("l"));
  else if (c.compare(0, 4, "odd:") == 0) NlOdd(x, k.geti("k"), k.geti("l"));
  else if (c.compare(0, 9, "undriven:") == 0) NlOut(x, atoi(c.c_str() + 9));
  else if (c.compare(0, 6, "nlcut:") == 0) NlCut(x, atoi(c.c_str() + 6));
  else if (c.compare(0, 4, "tok:") == 0) ScdTok(x, k.geti("kind"), k.geti("n"), k.geti("r"));
  else if (c.compare(0, 5, "bris:") == 0) Bris(x, k.geti("m"), k.geti("n"));
  else MissingIn(x, atoi(c.c_str() + 8));
}
PropReg r31("C31", C31, C31R);
}
