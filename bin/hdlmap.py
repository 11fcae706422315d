"""C34: the cell libraries and the technology map that synthesis uses, against the translator's gates; and complete designs
taken through the real translator and evaluator."""
import itertools, os, re, subprocess
import build as B
import cli, vlog
from hdl import Sim, CS, planes, lane, lanes, edge, sg

JOBS = {}


def job(name):
    def d(f):
        JOBS[name] = f
        return f
    return d


PRELUDE = "".join("""
module \\$%s (A, Y);
parameter A_SIGNED = 0; parameter A_WIDTH = 1; parameter Y_WIDTH = 1;
input [A_WIDTH-1:0] A; output [Y_WIDTH-1:0] Y;
wire signed [A_WIDTH-1:0] s;
assign s = A;
generate if (A_SIGNED) assign Y = s; else assign Y = A; endgenerate
endmodule
""" % n for n in ("pos", "bu0")) + """
module \\$mux (A, B, S, Y);
parameter WIDTH = 1;
input [WIDTH-1:0] A, B; input S; output [WIDTH-1:0] Y;
assign Y = S ? B : A;
endmodule
""" + "".join("""
module \\$_%s_ (A, B, Y); input A, B; output Y; assign Y = A %s B; endmodule
""" % x for x in (("AND", "&"), ("XOR", "^"), ("OR", "|"))) + """
module \\$_INV_ (A, Y); input A; output Y; assign Y = ~A; endmodule
module \\$_MUX_ (A, B, S, Y); input A, B, S; output Y; assign Y = S ? B : A; endmodule
"""


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def bshift(f):
    def g(s, a, b, wa, wb, wy):
        w = max(wa, wy)
        return f((sg(a, wa) if s else a) & ((1 << w) - 1), sg(a, wa) if s else a, b, wy)
    return g


BIN = {
    "$lt": lambda a, b: int(a < b), "$le": lambda a, b: int(a <= b), "$gt": lambda a, b: int(a > b), "$ge": lambda a, b: int(a >= b),
    "$eq": lambda a, b: int(a == b), "$ne": lambda a, b: int(a != b), "$eqx": lambda a, b: int(a == b), "$nex": lambda a, b: int(a != b),
    "$sub": lambda a, b: a - b, "$mul": lambda a, b: a * b,
    "$div": lambda a, b: tdiv(a, b), "$mod": lambda a, b: a - b * tdiv(a, b),
}
SHF = {
    "$shl": bshift(lambda u, v, b, wy: v << b if b < 4096 else 0), "$sshl": bshift(lambda u, v, b, wy: v << b if b < 4096 else 0),
    "$shr": bshift(lambda u, v, b, wy: u >> b), "$sshr": bshift(lambda u, v, b, wy: v >> b),
}


def tsim(top, p):
    return Sim(["lib/stdcells_S.v"], top, p, text=PRELUDE, lib=False)


def dims(T, y):
    n = 5 if T else 4
    return itertools.product(range(1, n + 1), range(1, n + 1), y if y else range(1, n + 3))


def big(T):
    return [(8, 8, 8), (16, 16, 16), (32, 32, 32), (31, 33, 40), (64, 64, 64)] + ([(128, 128, 128), (257, 256, 257)] if T else [])


def grid(wa, wb):
    if wa + wb <= 10:
        r = [(a, b) for a in range(1 << wa) for b in range(1 << wb)]
    else:
        r = list(itertools.product(edge(wa, wa > 16), edge(wb, wb > 16)))
    return [list(c) for c in zip(*r)]


@job("techmap_arith")
def _(cx):
    for top, f in BIN.items():
        cmp = top[1:] in ("lt", "le", "gt", "ge", "eq", "ne", "eqx", "nex")
        bw = big(cx.T) if top not in ("$mul", "$div", "$mod") else big(cx.T)[:3] if cx.T else big(0)[:2]
        for s in (0, 1):
            for wa, wb, wy in itertools.chain(dims(cx.T, (1, 3) if cmp else None), bw):
                sim = tsim(top, {"A_SIGNED": s, "B_SIGNED": s, "A_WIDTH": wa, "B_WIDTH": wb, "Y_WIDTH": wy})
                A, Bv = grid(wa, wb)
                if top in ("$div", "$mod"):
                    A, Bv = [list(c) for c in zip(*[r for r in zip(A, Bv) if r[1]])]
                v = (lambda x, w: sg(x, w)) if s else (lambda x, w: x)
                cx.expect(sim, [{"A": A, "B": Bv}], [(0, "Y", [f(v(a, wa), v(b, wb)) for a, b in zip(A, Bv)])], len(A))


@job("techmap_shift")
def _(cx):
    for top, f in SHF.items():
        for s in (0, 1):
            for wa, wb, wy in itertools.chain(dims(cx.T, None), [(8, 3, 8), (8, 5, 8), (16, 5, 16), (32, 6, 32), (33, 8, 40), (64, 7, 64), (7, 12, 9), (1, 9, 6), (12, 3, 5)]):
                sim = tsim(top, {"A_SIGNED": s, "B_SIGNED": 0, "A_WIDTH": wa, "B_WIDTH": wb, "Y_WIDTH": wy})
                if wa > 8:
                    r = [(a, b) for a in edge(wa) for b in range(1 << wb)]
                    A, Bv = [list(c) for c in zip(*r)]
                else:
                    A, Bv = [list(c) for c in zip(*[(a, b) for a in range(1 << wa) for b in range(1 << wb)])]
                cx.expect(sim, [{"A": A, "B": Bv}], [(0, "Y", [f(s, a, b, wa, wb, wy) for a, b in zip(A, Bv)])], len(A))


@job("techmap_misc")
def _(cx):
    for s in (0, 1):
        for wa, wb, wy in itertools.chain(dims(cx.T, None), big(cx.T)):
            sim = tsim("$add", {"A_SIGNED": s, "B_SIGNED": s, "A_WIDTH": wa, "B_WIDTH": wb, "Y_WIDTH": wy})
            A, Bv = grid(wa, wb)
            v = (lambda x, w: sg(x, w)) if s else (lambda x, w: x)
            for c in (0, 1):
                cx.expect(sim, [{"A": A, "B": Bv, "C": [c] * len(A)}], [(0, "Y", [v(a, wa) + v(b, wb) + c for a, b in zip(A, Bv)])], len(A))
        for wa, wy in itertools.product(range(1, 8), range(1, 10)):
            sim = tsim("$neg", {"A_SIGNED": s, "A_WIDTH": wa, "Y_WIDTH": wy})
            A = list(range(1 << wa))
            cx.expect(sim, [{"A": A}], [(0, "Y", [-(sg(a, wa) if s else a) for a in A])], len(A))
    for w in list(range(1, 5)) + [8, 16, 32, 64, 128]:
        sim = tsim("$__alu", {"WIDTH": w})
        A, Bv = grid(w, w)
        m = (1 << w) - 1
        for c in (0, 1):
            h = m >> 1
            cx.expect(sim, [{"A": A, "B": Bv, "Cin": [c] * len(A)}],
                      [(0, "Y", [a + b + c for a, b in zip(A, Bv)]), (0, "Cout", [a + b + c >> w for a, b in zip(A, Bv)]),
                       (0, "Csign", [(a & h) + (b & h) + c >> (w - 1) for a, b in zip(A, Bv)])], len(A))
    sim = tsim("$__fulladd", {})
    r = list(itertools.product((0, 1), repeat=3))
    a, b, c = map(list, zip(*r))
    cx.expect(sim, [{"A": a, "B": b, "C": c}], [(0, "Y", [sum(x) & 1 for x in r]), (0, "X", [sum(x) >> 1 for x in r])], 8)
    for w, n in itertools.product(range(1, 4), range(1, 5)):
        if w * (n + 1) + n > (16 if cx.T else 13):
            continue
        for top in ("$pmux", "$safe_pmux"):
            sim = tsim(top, {"WIDTH": w, "S_WIDTH": n})
            rows = [(a, b, s) for a in range(1 << w) for b in range(1 << w * n) for s in range(1 << n) if top == "$safe_pmux" or s & (s - 1) == 0]
            A, Bv, S = map(list, zip(*rows))
            exp = [b >> w * (s.bit_length() - 1) & (1 << w) - 1 if s and s & (s - 1) == 0 else a for a, b, s in rows]
            cx.expect(sim, [{"A": A, "B": Bv, "S": S}], [(0, "Y", exp)], len(rows))


# ------------------------------------------------------------------ cell libraries
SPEC = {"AND": lambda a, b: a & b, "ANDN": lambda a, b: a & ~b & 1, "NAND": lambda a, b: ~(a & b) & 1, "NANDN": lambda a, b: ~(a & ~b) & 1,
        "OR": lambda a, b: a | b, "ORN": lambda a, b: (a | ~b) & 1, "NOR": lambda a, b: ~(a | b) & 1, "NORN": lambda a, b: ~(a | ~b) & 1,
        "XOR": lambda a, b: a ^ b, "XNOR": lambda a, b: ~(a ^ b) & 1}
CELLS = {n: (("A", "B"), {"Z": f}) for n, f in SPEC.items()}
CELLS["IV"] = (("A",), {"Z": lambda a: 1 - a})
CELLS["MUX"] = (("IN0", "IN1", "SEL"), {"F": lambda a, b, s: b if s else a})
CELLS["HADDER"] = (("IN0", "IN1"), {"SUM": lambda a, b: a ^ b, "COUT": lambda a, b: a & b})
CELLS["FADDER"] = (("IN0", "IN1", "CIN"), {"SUM": lambda a, b, c: a ^ b ^ c, "COUT": lambda a, b, c: a + b + c >> 1})


def liberty(path):
    """groups of a liberty file: (name, args, {attributes}, [groups])"""
    t = open(path).read()
    t = re.sub(r"/\*.*?\*/", " ", t, flags=re.S)
    t = re.sub(r"//[^\n]*", " ", t)
    tok = re.findall(r'"[^"]*"|[\w.\-+]+|[(){}:;,]', t)
    i = 0

    def body():
        nonlocal i
        at, gs = {}, []
        while i < len(tok) and tok[i] != "}":
            if tok[i] == ";":
                i += 1
                continue
            nm = tok[i]
            i += 1
            if tok[i] == ":":
                at[nm] = tok[i + 1].strip('"')
                i += 2
            elif tok[i] == "(":
                j = tok.index(")", i)
                args = [x.strip('"') for x in tok[i + 1:j] if x != ","]
                i = j + 1
                if i < len(tok) and tok[i] == "{":
                    i += 1
                    a, g = body()
                    i += 1
                    gs.append((nm, args, a, g))
            else:
                raise vlog.VErr("liberty: %s near %s" % (path, tok[i - 1:i + 3]))
        return at, gs
    return body()[1]


def libfun(s, env):
    """the boolean expressions of liberty files: ' ! ^ * & space + |"""
    tok = re.findall(r"[A-Za-z_]\w*|[()'!^*&+|01]", s)
    pos = 0

    def prim():
        nonlocal pos
        t = tok[pos]
        pos += 1
        if t == "(":
            v = orx()
            pos += 1
        elif t == "!":
            v = 1 - prim()
        elif t in "01":
            v = int(t)
        else:
            v = env[t]
        while pos < len(tok) and tok[pos] == "'":
            v = 1 - v
            pos += 1
        return v

    def xorx():
        nonlocal pos
        v = prim()
        while pos < len(tok) and tok[pos] == "^":
            pos += 1
            v ^= prim()
        return v

    def andx():
        nonlocal pos
        v = xorx()
        while pos < len(tok) and (tok[pos] in "*&" or re.match(r"\w|\(|!", tok[pos])):
            if tok[pos] in "*&":
                pos += 1
            v &= xorx()
        return v

    def orx():
        nonlocal pos
        v = andx()
        while pos < len(tok) and tok[pos] in "+|":
            pos += 1
            v |= andx()
        return v
    v = orx()
    if pos != len(tok):
        raise vlog.VErr("liberty function " + s)
    return v


def cells_of(path):
    out = {}
    for _, _, _, top in liberty(path):
        for nm, args, at, gs in top:
            if nm == "cell":
                out[args[0]] = gs
    return out


@job("liberty")
def _(cx):
    n = 0
    for f, need in (("dff_full/dff_full.lib", sorted(CELLS) + ["DFF"]), ("asic_cell_yosys_extended.lib", sorted(set(CELLS) - {"MUX", "HADDER"})),
                    ("asic_cell_yosys.lib", ["IV", "XOR", "NOR"])):
        cells = cells_of(os.path.join(CS, "lib", f))
        for c in need:
            if c not in cells:
                cx.bad(f, "cell %s is gone" % c)
                continue
            if c == "DFF":
                continue
            ins, outs = CELLS[c]
            pins = {a[0]: at for k, a, at, _ in cells[c] if k == "pin"}
            ox = {"Y" if f == "asic_cell_yosys.lib" else k: v for k, v in outs.items()}
            if {p for p, a in pins.items() if a.get("direction") == "input"} != set(ins) or {p for p, a in pins.items() if a.get("direction") == "output"} != set(ox):
                cx.bad(f, "cell %s has pins %s" % (c, sorted(pins)))
                continue
            for v in itertools.product((0, 1), repeat=len(ins)):
                for o, fn in ox.items():
                    n += 1
                    g = libfun(pins[o]["function"], dict(zip(ins, v)))
                    if g != fn(*v):
                        cx.bad(f, "cell %s output %s = %s gives %d for %s" % (c, o, pins[o]["function"], g, dict(zip(ins, v))))
    ff = [(at, a) for k, a, at, _ in cells_of(os.path.join(CS, "lib", "dff_full/dff_full.lib")).get("DFF", []) if k == "ff"]
    for at, a in ff:
        for d, i, r in itertools.product((0, 1), repeat=3):
            n += 1
            e = {"D": d, "I": i, "RST": r, "CLK": 1}
            if libfun(at["next_state"], e) != d or libfun(at["preset"], e) != (r & i) or libfun(at["clear"], e) != (r & ~i & 1):
                cx.bad("dff_full.lib", "flip-flop: D=%d I=%d RST=%d: next state %s preset %s clear %s" % (d, i, r, at["next_state"], at["preset"], at["clear"]))
    cx.evals += n
    cx.cnt["liberty"] = n


@job("cell_models")
def _(cx):
    for c, (ins, outs) in CELLS.items():
        sim = Sim(["lib/dff_full/dff_full.v"], c, {}, lib=False)
        r = list(itertools.product((0, 1), repeat=len(ins)))
        cx.expect(sim, [dict(zip(ins, map(list, zip(*r))))], [(0, o, [f(*x) for x in r]) for o, f in outs.items()], len(r))
    txt = """module dfft (clk, rst, g_init, g_input, o); input clk, rst, g_init, g_input; output o;
      DFF r (.CLK(clk), .RST(rst), .D(g_input), .I(g_init), .Q(o)); endmodule"""
    sim = Sim(["lib/dff_full/dff_full.v"], "dfft", {}, text=txt, lib=False)
    r = list(itertools.product((0, 1), repeat=4))
    i, a, b, c = map(list, zip(*r))
    cx.expect(sim, [{"g_init": i, "g_input": a}, {"g_input": b}, {"g_input": c}], [(0, "o", i), (1, "o", a), (2, "o", b)], len(r))


# ------------------------------------------------------------------ whole designs through the translator and the evaluator
def fold(c, rst, und=0):
    """constant propagation and hashing with rst fixed: (ops, resolve) over the slots of c; NOT is code 4"""
    K = {0: 0, 1: 1}
    for s in c["und"]:
        K[s] = und
    if "rst" in c["in"]:
        K[c["in"]["rst"][0]] = rst
    rep, ops, seen, inv = dict(K), [], {}, {}
    nx = [c["n"]]

    def r(s):
        return rep.get(s, s)

    def mk(k, d=None):
        if k in seen:
            return seen[k]
        if d is None:
            d = nx[0]
            nx[0] += 1
        seen[k] = d
        ops.append((k[0], d) + k[1:])
        return d

    def no(a):
        if a in (0, 1):
            return 1 - a
        if a not in inv:
            inv[a] = mk((4, a, 0, 0))
            inv[inv[a]] = a
        return inv[a]
    for o, d, a, b, e in c["ops"]:
        a, b = r(a), r(b)
        if o == 3:
            e = r(e)
            # a ? b : e
            if a in (0, 1):
                rep[d] = b if a else e
            elif b == e:
                rep[d] = b
            elif b == 1 and e == 0:
                rep[d] = a
            elif b == 0 and e == 1:
                rep[d] = no(a)
            elif b == 1:
                rep[d] = mk((2,) + tuple(sorted((a, e))) + (0,)) if a != e else a
            elif e == 0:
                rep[d] = mk((0,) + tuple(sorted((a, b))) + (0,)) if a != b else a
            else:
                rep[d] = mk((3, a, b, e))
            continue
        if a > b:
            a, b = b, a
        if o == 0:
            rep[d] = 0 if a == 0 else b if a == 1 else a if a == b else mk((0, a, b, 0))
        elif o == 1:
            rep[d] = b if a == 0 else no(b) if a == 1 else 0 if a == b else mk((1, a, b, 0))
        else:
            rep[d] = b if a == 0 else 1 if a == 1 else a if a == b else mk((2, a, b, 0))
    return ops, r, inv


def emit(sim, pmap):
    """the elaborated design as a netlist of library cells; pmap: port -> TinyGarble port"""
    c = sim.c
    ops, r, inv = fold(c, 0)
    D = [r(d) for d in c["d"]]
    init = []
    if c["q"]:
        iops, ir, _ = fold(c, 1)
        names = {}
        for p, sl in c["in"].items():
            if p in ("clk", "rst"):
                continue
            for i, s in enumerate(sl):
                names[s] = "%s[%d]" % (pmap.get(p, p), i)
        for d in c["d"]:
            v = ir(d)
            if v not in (0, 1) and (v not in names or "_init" not in names[v]):
                return None
            init.append("1'b%d" % v if v in (0, 1) else names[v])
    outs = []
    for p, sl in c["out"].items():
        for i, s in enumerate(sl):
            outs.append((pmap.get(p, p), i, len(sl), r(s)))
    defs = {o[1]: o for o in ops}
    # cells: fold inverters into their neighbours
    need, cells, seen = [x[3] for x in outs] + D, {}, set()
    while need:
        d = need.pop()
        if d not in defs or d in seen:
            continue
        seen.add(d)
        k, _, a, b, e = defs[d]
        if k == 3:
            cells[d] = ("MUX", (("IN0", e), ("IN1", b), ("SEL", a)))
            need += [a, b, e]
            continue
        neg = False
        if k == 4 and a in defs and defs[a][0] in (0, 1, 2):
            neg = True
            k, _, a, b, e = defs[a]
        if k == 4:
            cells[d] = ("IV", (("A", a),))
            need.append(a)
            continue
        n = False
        if k != 1 and b in defs and defs[b][0] == 4:
            b, n = defs[b][2], True
        elif k != 1 and a in defs and defs[a][0] == 4:
            a, b, n = b, defs[a][2], True
        ty = {(0, 0): "AND", (0, 1): "NAND", (2, 0): "OR", (2, 1): "NOR", (1, 0): "XOR", (1, 1): "XNOR"}[(k, neg)] + ("N" if n else "")
        cells[d] = (ty, (("A", a), ("B", b)))
        need += [a, b]
    nm = {0: "1'b0", 1: "1'b1"}
    ports = {}
    for p, sl in c["in"].items():
        if p in ("clk", "rst"):
            continue
        q = pmap.get(p, p)
        ports[q] = len(sl)
        for i, s in enumerate(sl):
            nm[s] = "%s[%d]" % (q, i)
    wires = []
    for i, q in enumerate(c["q"]):
        nm[q] = "q%d" % i
        wires.append(nm[q])
    asg, width = [], {}
    for p, i, n, s in outs:
        width[p] = n
        w = p if n == 1 and p == "terminate" else "%s[%d]" % (p, i)
        if s in cells and s not in nm:
            nm[s] = w
        else:
            asg.append((w, s))
    for d in cells:
        if d not in nm:
            nm[d] = "n%d" % d
            wires.append(nm[d])
    L = ["module top ( clk, rst, %s );" % ", ".join(list(ports) + list(width))]
    L += ["  input [%d:0] %s;" % (n - 1, p) for p, n in ports.items()]
    L += ["  output [%d:0] %s;" % (n - 1, p) if p != "terminate" else "  output terminate;" for p, n in width.items()]
    L += ["  input clk, rst;"]
    for i in range(0, len(wires), 12):
        L.append("  wire   " + ", ".join(wires[i:i + 12]) + ";")
    for i, (w, s) in enumerate(asg):
        L.append("  assign %s = %s;" % (w, nm[s]))
    for i, (q, d, z) in enumerate(zip(c["q"], D, init)):
        L.append("  DFF q%d_reg ( .D(%s), .CLK(clk), .RST(rst), .I(%s), .Q(%s) );" % (i, nm[d], z, nm[q]))
    for i, (d, (ty, pins)) in enumerate(cells.items()):
        o = "F" if ty == "MUX" else "Z"
        L.append("  %s U%d ( %s );" % (ty, i, ", ".join(".%s(%s)" % (p, nm[s]) for p, s in pins) + ", .%s(%s)" % (o, nm[d])))
    L.append("endmodule")
    return "\n".join(L) + "\n", ports, width, len(cells)


class Scd:
    """circuit file, executed on bit planes"""
    KEYS = ("p_init", "g_init", "e_init", "p_input", "g_input", "e_input")

    def __init__(self, text):
        ls = [list(map(int, l.split())) for l in (text.split("\n") + [""] * 7)[:7]]
        h = ls[0]
        self.sz, self.nd, self.no, self.term = h[:6], h[6], h[7], h[8]
        self.g, self.o, self.D, self.I = list(zip(ls[1], ls[2], ls[3])), ls[4], ls[5], ls[6]

    def run(self, st, W, cc):
        full = (1 << W) - 1
        base = sum(self.sz)
        v = [0] * (base + self.nd + len(self.g))
        get = lambda x: 0 if x == -2 else full if x == -3 else v[x]
        outs = []
        for t in range(cc):
            o = 0
            for k, n in zip(self.KEYS, self.sz):
                if n and k in st[min(t, len(st) - 1)]:
                    v[o:o + n] = planes(st[min(t, len(st) - 1)][k], n)
                o += n
            if t == 0:
                v[base:base + self.nd] = [get(x) for x in self.I]
            else:
                v[base:base + self.nd] = nxt
            w = base + self.nd
            for a, b, ty in self.g:
                x, y = get(a), get(b) if ty != 12 else 0
                v[w] = {8: lambda: x & y, 4: lambda: x & ~y & full, 7: lambda: ~(x & y) & full, 11: lambda: ~(x & ~y) & full, 14: lambda: x | y,
                        13: lambda: (x | ~y) & full, 1: lambda: ~(x | y) & full, 2: lambda: ~(x | ~y & full) & full, 6: lambda: x ^ y, 9: lambda: x ^ y ^ full,
                        12: lambda: x ^ full}[ty]()
                w += 1
            outs.append(([get(x) for x in self.o], get(self.term) if self.term else None))
            nxt = [get(x) for x in self.D]
        return outs


AB = {"A": "g_input", "B": "e_input", "O": "o", "S": "o"}
NETS = [
    ([], "COMP", {"N": 16}, AB, 1, []), ([], "MULT", {"N": 12}, AB, 1, []), ([], "DIV", {"N": 8}, AB, 1, []), ([], "SUB_", {"N": 9}, AB, 1, []),
    (["argmax/argmax.v"], "argmax", {"N": 4, "M": 5}, {"in": "g_input", "max": "o"}, 1, []),
    (["encoder/encoder.v"], "encoder", {"logS": 3}, {}, 1, []),
    (["sum/sum.v"], "sum", {"N": 16, "CC": 4}, {}, 4, []), (["sum/sum.v"], "sum", {"N": 64}, {}, 1, []),
    (["hamming/hamming.v"], "hamming", {"N": 32, "CC": 4}, {}, 4, []), (["compare/compare.v"], "compare", {"N": 32, "CC": 4}, {}, 4, []),
    (["mult/mult.v"], "mult", {"N": 16}, {}, 1, []), (["rsa/modexp_1_N.v", "rsa/modmult.v"], "modexp_1_N", {"N": 4}, {}, 1, []),
    ("aes", "aes_1cc", {}, {}, 1, []), ("aes", "aes_11cc", {}, {}, 12, []), ("sha3", "sha3_seq", {}, {}, 24, []),
    (["stack_machine/stackMachine.v"], "stackMachine", {"N": 8, "S": 8}, {}, 12, []),
    (["matrix_mult/matrix_mult_N_M_3.v"], "matrix_mult_N_M_3", {"N": 2, "M": 5}, {}, 9, []),
    (["matrix_mult/matrix_mult_N_M_0.v"], "matrix_mult_N_M_0", {"N": 2, "M": 6}, {}, 1, []),
    (["knns/k_nns_seq.v", "knns/first_nns_seq.v"], "k_nns_seq", {"W": 6, "K": 2}, {}, 6, []),
    (["stable_match/encoder.v", "stable_match/stable_match_seq.v"], "stable_match_seq", {"Kr": 3, "Ks": 3, "S": 3, "R": 3}, {"rPref": "g_input", "sPref": "e_input", "matchList": "o", "finish": "terminate"}, 12, []),
    (["cordic/cordic.v", "cordic/alpha_table.v", "cordic/barrel_shifter_left.v"], "cordic", {}, {}, 17, ["cordic"]),
]


def netlist(cx, files, top, params, pmap, cc, inc, reps=2):
    if isinstance(files, str):
        files = [files + "/" + x for x in sorted(os.listdir(os.path.join(CS, files))) if x.endswith(".v")]
    sim = Sim(files, top, params, inc)
    if not set(pmap.get(p, p) for p in sim.c["out"]) <= {"o", "terminate"}:
        pm = dict(pmap)
        sim.c["out"] = {p: s for p, s in sim.c["out"].items() if pm.get(p, p) in ("o", "terminate")}
    e = emit(sim, pmap)
    if e is None:
        raise vlog.VErr("%s: an initial value is not an input or a constant" % sim.name)
    text, ports, width, ng = e
    b = B.Builder()
    d = os.path.join(cx.scratch, "net-%s-%d" % (top, os.getpid()))
    os.makedirs(d, exist_ok=True)
    nv, ns = os.path.join(d, "n.v"), os.path.join(d, "n.scd")
    open(nv, "w").write(text)

    def tool(main, args):
        p = subprocess.run([os.path.join(d, "t")] + args, executable=b.tool(main), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=d, timeout=600)
        return p.returncode, p.stdout.decode("latin1")
    rc, _ = tool("scd/v_2_scd_main.cpp", ["-i", nv, "-o", ns])
    if rc:
        cx.bad(sim, "the translator refuses the netlist of the design (%d cells)" % ng)
        return
    s = Scd(open(ns).read())
    want = [ports.get(k, 0) for k in Scd.KEYS]
    if s.sz != want or s.no != width.get("o", 0) or s.nd != len(sim.c["q"]):
        cx.bad(sim, "translated: sizes %s, %d outputs, %d registers; the design has %s, %d, %d" % (s.sz, s.no, s.nd, want, width.get("o", 0), len(sim.c["q"])))
        return
    inv = {v: k for k, v in pmap.items() if k in sim.c["in"]}
    W = 64 if ng < 20000 else 8
    st = []
    for t in range(cc):
        x = {}
        for p, n in ports.items():
            es = edge(n)
            if t and p.endswith("_init"):
                x[p] = st[0][p]
            else:
                x[p] = [es[(i * 7 + 3 * t + len(p)) % len(es)] ^ (es[(i * 5 + t) % len(es)] if i % 2 else 0) for i in range(W)]
        st.append(x)
    ref = sim.run([{inv.get(p, p): v for p, v in x.items()} for x in st], W, 0, cc)
    got = s.run(st, W, cc)
    op = [p for p in sim.c["out"] if pmap.get(p, p) == "o"][0]
    for t in range(cc):
        if ref[t][op] != got[t][0]:
            i = [k for k, (a, z) in enumerate(zip(ref[t][op], got[t][0])) if a != z][0]
            cx.bad(sim, "the translated circuit differs from the netlist in output bit %d of cycle %d" % (i, t))
            return
        if "terminate" in sim.c["out"] and ref[t]["terminate"][0] != got[t][1]:
            cx.bad(sim, "the translated circuit differs from the netlist in the terminate signal of cycle %d" % t)
            return
    cx.evals += W * cc
    cx.cnt["translated " + top] = W
    cx.cnt["cells"] = cx.cnt.get("cells", 0) + ng
    n = width["o"]
    for i in range(reps):
        a = ["-i", ns, "-c", str(cc), "--output_mode", "1"]
        for p, m in ports.items():
            v = sum((st[t][p][i] if p.endswith("_input") else 0) << m * t for t in range(cc)) if p.endswith("_input") else st[0][p][i]
            a += ["--" + p, "%X" % v]
        rc, out = tool("scd/scd_evaluator_main.cpp", a)
        g = [int(l, 16) for l in out.split()]
        w = [lane(ref[t][op], i) for t in range(cc)]
        if rc or g != w:
            cx.bad(sim, "the plaintext evaluator (status %s) prints %s, the design computes %s" % (rc, " ".join("%X" % x for x in g)[:400], " ".join("%X" % x for x in w)[:400]))
            return
        cx.cnt["evaluator runs"] = cx.cnt.get("evaluator runs", 0) + 1
    for i, (low, ot) in enumerate(PARTY):
        args = [["-a"], ["-b"]]
        for q in range(2):
            args[q] += ["-i", ns, "-c", str(cc), "--output_mode", "1"] + ([] if ot else ["--disable_OT"]) + (["--low_mem_foot"] if low else [])
        for p, m in ports.items():
            v = sum(st[t][p][i] << m * t for t in range(cc)) if p.endswith("_input") else st[0][p][i]
            for q in range(2):
                if p[0] in ("p", "ge"[q]):
                    args[q] += ["--" + ("init" if p.endswith("_init") else "input") if p[0] != "p" else "--" + p, "%X" % v]
        lab = cli.Lab(d, i, {"garbled_circuit_main": b.tool("garbled_circuit/garbled_circuit_main.cpp")})
        lab.port = 33000 + cx.tid * 600 + (os.getpid() * 37 + i * 131) % 450
        r = lab.two("garbled_circuit_main", args[0] + ["--output_mask", "0"], args[1] + ["--output_mask", "0"], "-p")
        if [x[0] for x in r[:2]] != [0, 0] and not set(x[0] for x in r[:2]) & {"hang"}:
            r = lab.two("garbled_circuit_main", args[0] + ["--output_mask", "0"], args[1] + ["--output_mask", "0"], "-p")
        w = [lane(ref[t][op], i) for t in range(cc)]
        g = [int(l, 16) for l in r[1][1].split()]
        if r[0][0] or r[1][0] or g != w:
            cx.bad(sim, "the two parties (status %s, %s) compute %s, the design computes %s" % (r[0][0], r[1][0], " ".join("%X" % x for x in g)[:400], " ".join("%X" % x for x in w)[:400]))
            return
        cx.cnt["two-party runs"] = cx.cnt.get("two-party runs", 0) + 1


PARTY = [(0, 1), (1, 0)]
NG = 12


def _nets(k):
    def f(cx):
        cx.tid = k
        for x in NETS[k::NG]:
            netlist(cx, *x)
    JOBS["netlist%d" % k] = f


for _k in range(NG):
    _nets(_k)
