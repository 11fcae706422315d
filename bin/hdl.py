"""C32, C33: the circuit descriptions of circuit_synthesis, elaborated to gates by vlog.py and executed on every
input of a stated set (one bit of a Python integer per input vector), against functions written from their names
and comments."""
import glob, itertools, json, os, random, re, sys, time, multiprocessing
import build as B
import vlog

CS = os.path.join(B.REPO, "circuit_synthesis")
_mods = {}


class Bad(Exception):
    pass


# ------------------------------------------------------------------ bit planes
_tab = [bytes(48 + (x >> b & 1) for x in range(256)) for b in range(8)]


def planes(vals, n):
    """per-lane integers -> n integers, lane i in bit i"""
    W = len(vals)
    nb = (n + 7) // 8
    m = (1 << n) - 1
    raw = b"".join([(v & m).to_bytes(nb, "little") for v in reversed(vals)])
    out = []
    for k in range(nb):
        col = raw[k::nb]
        for b in range(min(8, n - 8 * k)):
            out.append(int(col.translate(_tab[b]), 2))
    return out


def lane(pl, i):
    return sum((p >> i & 1) << k for k, p in enumerate(pl))


def lanes(pl, W):
    if not pl:
        return [0] * W
    s = [format(p, "0%db" % W) for p in reversed(pl)]
    return [int("".join(x), 2) for x in zip(*s)][::-1]


class Sim:
    def __init__(self, files, top, params, inc=(), text="", lib=True):
        key = (tuple(files), tuple(inc), text, lib)
        if key not in _mods:
            fs = [os.path.join(CS, f) for f in files] + (sorted(glob.glob(os.path.join(CS, "syn_lib", "*.v"))) if lib else [])
            _mods[key] = vlog.load(fs, [os.path.join(CS, i) for i in inc], text=text)
        self.D = vlog.Design(_mods[key], top, dict(params))
        self.c = self.D.compile()
        self.name = top + "(" + ",".join("%s=%s" % kv for kv in sorted(params.items())) + ")"
        self.evals = 0

    def step(self, v):
        for c, d, a, b, e in self.c["ops"]:
            if c == 0:
                v[d] = v[a] & v[b]
            elif c == 1:
                v[d] = v[a] ^ v[b]
            elif c == 2:
                v[d] = v[a] | v[b]
            else:
                x = v[e]
                v[d] = x ^ (v[a] & (v[b] ^ x))

    def run(self, stim, W, und=0, n=None, reset=True, watch=None):
        """stim: list of {port: list of lane values | planes tuple}; returns list of {port: planes}"""
        c = self.c
        full = (1 << W) - 1
        v = [0] * c["n"]
        v[1] = full
        for s in c["und"]:
            v[s] = full if und else 0
        for q in c["q"]:
            v[q] = full if und else 0

        def put(st, rst):
            for p, sl in c["in"].items():
                if p == "rst":
                    v[sl[0]] = full if rst else 0
                    continue
                if p == "clk":
                    continue
                if p not in st:
                    continue
                x = st[p]
                if not isinstance(x, tuple):
                    x = planes(x, len(sl))
                for s, y in zip(sl, x):
                    v[s] = y
            for p in st:
                if p not in c["in"]:
                    raise vlog.VBad("%s has no input %s" % (self.name, p))
        if c["q"] and reset and "rst" in c["in"]:
            put(stim[0], True)
            self.step(v)
            for q, x in zip(c["q"], [v[d] for d in c["d"]]):
                v[q] = x
        outs = []
        for st in stim if n is None else itertools.chain(stim, itertools.repeat({}, n - len(stim))):
            put(st, False)
            self.step(v)
            outs.append({p: [v[s] for s in sl] for p, sl in c["out"].items()})
            self.evals += W
            if watch is not None and watch(v, outs):
                break
            if c["q"]:
                for q, x in zip(c["q"], [v[d] for d in c["d"]]):
                    v[q] = x
        return outs

    def width(self, p):
        c = self.c
        sl = c["in"].get(p) or c["out"].get(p)
        if sl is None:
            raise vlog.VBad("%s has no port %s" % (self.name, p))
        return len(sl)


class Ctx:
    """one job's account"""

    def __init__(self, tier):
        self.T = tier == "thorough"
        self.viol, self.cnt, self.samples, self.evals, self.outc = [], {}, [], 0, 0

    def bad(self, sim, msg):
        self.viol.append("%s: %s" % (sim if isinstance(sim, str) else sim.name, msg))

    def expect(self, sim, stim, exp, W, note="", und=(0, 1)):
        """exp: list of (cycle, port, list of expected lane values)"""
        n = max(t for t, _, _ in exp) + 1
        if not sim.c["und"] and "rst" in sim.c["in"] or not sim.c["q"] and not sim.c["und"]:
            und = und[:1]
        for u in und:
            outs = sim.run(stim, W, u, n)
            for t, p, vals in exp:
                if p not in outs[t]:
                    raise vlog.VBad("%s has no output %s" % (sim.name, p))
                got = outs[t][p]
                want = planes(vals, len(got))
                diff = 0
                for a, b in zip(got, want):
                    diff |= a ^ b
                self.evals += W
                if diff:
                    i = (diff & -diff).bit_length() - 1
                    ins = []
                    for k in range(min(t + 1, len(stim))):
                        ins.append(", ".join("%s=%#x" % (q, x[i] if not isinstance(x, tuple) else lane(x, i)) for q, x in stim[k].items()))
                    self.bad(sim, "%s%s at cycle %d is %#x, expected %#x; inputs by cycle: %s" % (note, p, t, lane(got, i), lane(want, i), " | ".join(ins)[:600]))
                    return False
        self.cnt[sim.name.split("(")[0]] = self.cnt.get(sim.name.split("(")[0], 0) + W
        for _, _, vals in exp[-1:]:
            self.outc += len(set(vals))
            if len(self.samples) < 3:
                ins = ", ".join("%s=%#x" % (q, x[-1] if not isinstance(x, tuple) else lane(x, W - 1)) for q, x in stim[-1].items())
                self.samples.append("%s %s %s -> %s=%#x" % (sim.name, note, ins[:200], exp[-1][1], vals[-1]))
        return True


def edge(n, few=False):
    """values of n bits that carries, borrows, signs and shifts turn on"""
    m = (1 << n) - 1
    ks = range(n) if n <= 24 and not few else sorted(set([0, 1, 2, 3, n // 4, n // 2 - 1, n // 2, n // 2 + 1, 3 * n // 4, n - 3, n - 2, n - 1] +
                                              [k for k in (7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 510, 511, 512, 513) if k < n]))
    s = {0, m, m // 3, m // 3 << 1 & m}
    for k in ks:
        if 0 <= k < n:
            s |= {1 << k, (1 << k) - 1, m ^ (1 << k), m ^ ((1 << k) - 1)}
    s.add(0x9e3779b97f4a7c15f39cc0605cedc8341082276bf3a27251f86c6a11d0c18e95 * (1 + (1 << 256) + (1 << 512) + (1 << 768)) & m)
    return sorted(s)


def space(widths, cap, few=False):
    """every combination when it fits into cap, the edge values' product otherwise: list of columns"""
    if sum(widths) <= cap.bit_length() - 1:
        tot = sum(widths)
        cols, sh = [], 0
        for w in widths:
            cols.append([x >> sh & ((1 << w) - 1) for x in range(1 << tot)])
            sh += w
        return cols, True
    e = [edge(w, few) if w > 1 else [0, 1] for w in widths]
    prod = list(itertools.product(*e))
    if len(prod) > 4 * cap:
        prod = prod[::len(prod) // (4 * cap) + 1]
    return [list(c) for c in zip(*prod)], False


def sg(v, n):
    return v - (1 << n) if v >> (n - 1) & 1 else v


JOBS = {}


def job(name):
    def d(f):
        JOBS[name] = f
        return f
    return d


# ------------------------------------------------------------------ component library
def two(cx, top, ps, fn, ports=("A", "B"), extra=(), out="O", cap=1 << 14, keep=None):
    for p in ps:
        sim = Sim([], top, p)
        ws = [sim.width(x) for x in ports + tuple(extra)]
        cols, _ = space(ws, cap * (16 if cx.T else 1), few=sum(ws) > 48)
        if keep:
            rows = [r for r in zip(*cols) if keep(*r)]
            cols = [list(c) for c in zip(*rows)]
        W = len(cols[0])
        outs = out if isinstance(out, tuple) else (out,)
        res = [fn(p, ws, *r) for r in zip(*cols)]
        if not isinstance(out, tuple):
            res = [(r,) for r in res]
        exp = [(0, o, [r[k] for r in res]) for k, o in enumerate(outs)]
        cx.expect(sim, [dict(zip(ports + tuple(extra), cols))], exp, W)


SZ = [1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 24, 31, 32, 33, 63, 64, 65, 128]
BIG = [255, 256, 511, 512, 513, 514, 600, 1023, 1024, 1025]
MIX = [(2, 1), (4, 3), (5, 2), (7, 4), (8, 3), (8, 1), (16, 8), (32, 24)]


def NP(sizes, mix=()):
    return [{"N": n} for n in sizes] + [{"N": n, "M": m} for n, m in mix]


@job("ADD")
def _(cx):
    two(cx, "ADD", NP(SZ + BIG, MIX + [(600, 8), (1024, 512)]), lambda p, w, a, b, c: ((a + b + c) & ((1 << w[0]) - 1), a + b + c >> w[0]), extra=("CI",), out=("S", "CO"))


@job("ADD_")
def _(cx):
    two(cx, "ADD_", NP(SZ[1:] + BIG, MIX), lambda p, w, a, b: sg(a, w[0]) + sg(b, w[1]))


@job("SUB")
def _(cx):
    two(cx, "SUB", NP(SZ + BIG, MIX + [(600, 8), (1024, 512)]), lambda p, w, a, b: (a - b, int(a >= b)), out=("S", "CO"))


@job("SUB_")
def _(cx):
    two(cx, "SUB_", NP(SZ[1:] + BIG, MIX), lambda p, w, a, b: sg(a, w[0]) - sg(b, w[1]))


@job("COMP")
def _(cx):
    two(cx, "COMP", NP(SZ + BIG, MIX + [(600, 8), (1024, 512)]), lambda p, w, a, b: int(a >= b))


@job("MUX")
def _(cx):
    two(cx, "MUX", NP(SZ + BIG), lambda p, w, a, b, s: b if s else a, extra=("S",))


@job("FA")
def _(cx):
    two(cx, "FA", [{}], lambda p, w, a, b, c: (a + b + c & 1, a + b + c >> 1), extra=("CI",), out=("S", "CO"))


@job("TwosComplement")
def _(cx):
    two(cx, "TwosComplement", NP(SZ + BIG), lambda p, w, a: -a, ports=("A",))


@job("COUNT")
def _(cx):
    two(cx, "COUNT", NP(list(range(1, 41)) + [63, 64, 65, 100, 127, 128, 129, 160, 255, 256, 500, 1024] + (list(range(41, 140)) if cx.T else [])),
        lambda p, w, a: bin(a).count("1"), ports=("A",), out="S")


@job("MULT")
def _(cx):
    two(cx, "MULT", NP([1, 2, 3, 4, 5, 6, 7, 8, 16, 32] + ([64, 128] if cx.T else []), [(2, 3), (3, 2), (1, 8), (8, 1), (5, 8), (8, 5), (16, 4), (4, 16), (32, 8)]), lambda p, w, a, b: a * b)


@job("MULT_")
def _(cx):
    two(cx, "MULT_", NP([2, 3, 4, 5, 6, 7, 8, 16, 32], [(2, 3), (3, 2), (5, 8), (8, 5), (16, 4), (4, 16), (32, 8)]), lambda p, w, a, b: sg(a, w[0]) * sg(b, w[1]))


@job("DIV")
def _(cx):
    two(cx, "DIV", NP([1, 2, 3, 4, 5, 6, 7, 8, 16, 32], [(2, 3), (3, 2), (8, 4), (4, 8), (16, 8), (8, 16), (32, 8)]), lambda p, w, a, b: a // b, keep=lambda a, b: b)


def sdiv(a, b):
    q = abs(a) // abs(b)
    return -q if (a < 0) != (b < 0) else q


@job("DIV_")
def _(cx):
    two(cx, "DIV_", NP([2, 3, 4, 5, 6, 7, 8, 16, 32], [(3, 2), (2, 3), (8, 4), (4, 8), (16, 8), (32, 8)]), lambda p, w, a, b: sdiv(sg(a, w[0]), sg(b, w[1])), keep=lambda a, b: b)


@job("SHIFT_LEFT")
def _(cx):
    two(cx, "SHIFT_LEFT", NP([2, 3, 4, 5, 7, 8, 16, 24, 32, 64, 128, 600]), lambda p, w, a, s: a << s, ports=("a", "shift_amount"), out="o")


@job("SHIFT_RIGHT")
def _(cx):
    two(cx, "SHIFT_RIGHT", NP([2, 3, 4, 5, 7, 8, 16, 24, 32, 64, 128, 600]), lambda p, w, a, s: a >> s, ports=("a", "shift_amount"), out="o")


@job("square_root_comb")
def _(cx):
    import math
    two(cx, "square_root_comb", [{"N": n, "M": m} for n in (4, 6, 8, 10, 12, 14, 16, 32) for m in (n // 2, n)] + [{"N": n} for n in (8, 16, 32)], lambda p, w, a: math.isqrt(a), ports=("A",))


# ------------------------------------------------------------------ function generators
def words(v, n, k):
    """value -> k words of n bits, least significant first"""
    return [v >> n * i & ((1 << n) - 1) for i in range(k)]


def serial(cx, files, top, ps, fn, fa="g_input", fb="e_input", cap=1 << 12):
    """operands arrive in CC parts, least significant first; fn(p, n, a, b) -> [(cycle, value)]"""
    for p in ps:
        sim = Sim(files, top, p)
        n, cc = p["N"], p.get("CC", 1)
        cols, _ = space([n, n], cap * (16 if cx.T else 1), few=n > 24)
        m = n // cc
        ga, gb = [[words(v, m, cc) for v in c] for c in cols]
        stim = [{fa: [x[t] for x in ga], fb: [x[t] for x in gb]} for t in range(cc)]
        res = [fn(p, n, a, b) for a, b in zip(*cols)]
        exp = [(t, "o", [r[k][1] for r in res]) for k, (t, _) in enumerate(res[0])]
        cx.expect(sim, stim, exp, len(cols[0]))


@job("sum")
def _(cx):
    serial(cx, ["sum/sum.v"], "sum", [dict(N=n) for n in (1, 2, 3, 4, 5, 8, 16, 32, 64, 128, 512, 1024)] +
           [dict(N=n, CC=c) for n, c in ((2, 2), (4, 2), (4, 4), (6, 3), (6, 2), (8, 8), (8, 4), (8, 2), (32, 32), (32, 4), (128, 128), (128, 16), (1024, 1024), (1024, 2))],
           lambda p, n, a, b: [(t, x) for t, x in enumerate(words(a + b & (1 << n) - 1, n // p.get("CC", 1), p.get("CC", 1)))])


@job("compare")
def _(cx):
    serial(cx, ["compare/compare.v"], "compare", [dict(N=n) for n in (1, 2, 3, 4, 5, 6, 8, 16, 32, 128, 512, 1024)] +
           [dict(N=n, CC=c) for n, c in ((2, 2), (4, 2), (4, 4), (6, 3), (6, 6), (8, 8), (8, 4), (8, 2), (32, 32), (32, 4), (128, 16), (1024, 64))],
           lambda p, n, a, b: [(p.get("CC", 1) - 1, int(a >= b))])


@job("hamming")
def _(cx):
    serial(cx, ["hamming/hamming.v"], "hamming", [dict(N=n) for n in (1, 2, 3, 4, 5, 6, 7, 8, 16, 32, 50, 160, 512)] +
           [dict(N=n, CC=c) for n, c in ((2, 2), (3, 3), (4, 2), (4, 4), (6, 2), (6, 3), (6, 6), (8, 8), (8, 4), (8, 2), (32, 32), (32, 4), (160, 32), (512, 512), (512, 16))],
           lambda p, n, a, b: [(p.get("CC", 1) - 1, bin(a ^ b).count("1"))])


@job("mult")
def _(cx):
    serial(cx, ["mult/mult.v"], "mult", [dict(N=n) for n in (1, 2, 3, 4, 5, 6, 8, 16, 32)], lambda p, n, a, b: [(0, a * b)])


@job("encoder")
def _(cx):
    for l in (1, 2, 3, 4, 5, 6, 7):
        S = 1 << l
        sim = Sim(["encoder/encoder.v"], "encoder", {"logS": l})
        v = [0] + [1 << i for i in range(S)]
        h = S // 2
        cx.expect(sim, [{"g_input": [x & (1 << h) - 1 for x in v], "e_input": [x >> h for x in v]}], [(0, "o", [0] + list(range(S)))], S + 1)
        sim = Sim(["stable_match/encoder.v"], "encoder", {"logS": l})
        cx.expect(sim, [{"in": v}], [(0, "out", [0] + list(range(S)))], S + 1)


@job("argmax")
def _(cx):
    for n, m in ((1, 4), (2, 2), (2, 6), (3, 4), (4, 3), (5, 2), (7, 2), (8, 1), (10, 1), (10, 32), (16, 8)):
        sim = Sim(["argmax/argmax.v"], "argmax", {"N": n, "M": m})
        if n * m <= 14:
            ins = [words(x, m, n) for x in range(1 << n * m)]
        else:
            top = (1 << m) - 1
            ins = [[(j * 7 + i * 3) % (top + 1) for j in range(n)] for i in range(50)]
            for i in range(n):
                for hi in (1, 2, top // 2 + 1, top):
                    ins.append([0] * i + [hi] + [0] * (n - i - 1))
                    ins.append([hi - 1] * i + [hi] + [hi - 1] * (n - i - 1))
                    for j in range(n):
                        ins.append([hi if k in (i, j) else hi // 2 for k in range(n)])
        W = len(ins)
        outs = sim.run([{"in": [sum(x << m * i for i, x in enumerate(v)) for v in ins]}], W)[0]
        mx, ix = lanes(outs["max"], W), lanes(outs["ind"], W)
        cx.evals += W
        for v, a, b in zip(ins, mx, ix):
            if a != max(v) or b >= n or v[b] != a:
                cx.bad(sim, "inputs %s give max %d at index %d" % (v, a, b))
                break
        cx.cnt["argmax"] = cx.cnt.get("argmax", 0) + W


@job("select")
def _(cx):
    """a memory with three write ports, the first enabled one winning"""
    for M, Wd in ((2, 1), (4, 2), (5, 3), (8, 4), (128, 7)):
        sim = Sim(["select/select.v"], "select", {"M": M, "W": Wd})
        lg = sim.width("read_adr")
        T = 6 if cx.T else 4
        seqs = []
        if M <= 4:
            # every sequence of write enables, addresses varied by position
            for en in itertools.product(range(8), repeat=T):
                seqs.append([(e, (t * 1 + 0) % M, (t + 1) % M, (t // 2 + en[0]) % M) for t, e in enumerate(en)])
        else:
            for e in range(8):
                for a in range(M):
                    seqs.append([(e if t == a % T else 1 << t % 3, (a + t) % M, (a * 3 + t) % M, (a * 5 + 2 * t) % M) for t in range(T)])
        seqs = seqs[:1 << 14]
        stim, exp = [], []
        mem = [[0] * M for _ in seqs]
        mask = (1 << Wd) - 1
        for t in range(T + M):
            st = {k: [] for k in ("read_adr", "write_adr", "write_data", "write_en", "write_adr2", "write_data2", "write_en2", "write_adr3", "write_data3", "write_en3")}
            ex = []
            for i, s in enumerate(seqs):
                e, a1, a2, a3 = s[t] if t < T else (0, 0, 0, 0)
                d = [(t * 3 + 1 + i) & mask, (t * 5 + 2 + i) & mask, (t * 7 + 3 + i) & mask]
                r = (t + i) % M if t < T else t - T
                for k, x in (("read_adr", r), ("write_adr", a1), ("write_data", d[0]), ("write_en", e & 1), ("write_adr2", a2), ("write_data2", d[1]),
                             ("write_en2", e >> 1 & 1), ("write_adr3", a3), ("write_data3", d[2]), ("write_en3", e >> 2)):
                    st[k].append(x)
                ex.append(mem[i][r])
                for k, a in enumerate((a1, a2, a3)):
                    if e >> k & 1:
                        mem[i][a] = d[k]
                        break
            stim.append(st)
            exp.append((t, "read_data", ex))
        cx.expect(sim, stim, exp, len(seqs))


@job("tests")
def _(cx):
    sim = Sim(["public_test/public_test.v"], "public_test", {})
    base = {"p_init": 8, "g_init": 16, "e_init": 32, "p_input": 32, "g_input": 16, "e_input": 8}
    v = []
    for k, n in base.items():
        for x in edge(n):
            for t in range(3):
                v.append([{q: (x if q == k and (s == t or q.endswith("init")) else (0x9e3779b9 * (s + 1) * (len(q) + ord(q[0]))) & ((1 << w) - 1)) for q, w in base.items()} for s in range(3)])
    stim, exp = [], []
    st = [(a[0]["p_init"], a[0]["g_init"], a[0]["e_init"]) for a in v]
    for t in range(3):
        stim.append({q: [a[t][q] for a in v] for q in base})
        st = [(r[0] ^ a[t]["e_input"], r[1] ^ a[t]["g_input"], r[2] ^ a[t]["p_input"]) for r, a in zip(st, v)]
        exp.append((t, "o", [r[0] ^ r[1] ^ r[2] for r in st]))
    cx.expect(sim, stim, exp, len(v))


def non_secret(cx, first_sum):
    for n in (1, 4, 8, 32):
        sim = Sim(["non_secret_test/non_secret_test.v"], "non_secret_test", {"N": n})
        cols, _ = space([n, n], 1 << 12)
        stim = [{"g_input": cols[0], "e_input": cols[1]}] * 4
        exp = [(t, "o", [(a + b if t & 1 ^ first_sum else a - b) for a, b in zip(*cols)]) for t in range(4)]
        if not cx.expect(sim, stim, exp, len(cols[0])):
            return


@job("non_secret")      # sums and differences alternate, whichever comes first
def _(cx):
    trial = Ctx("quick")
    non_secret(trial, True)
    non_secret(cx, not trial.viol)


@job("non_secret_order")    # the source's comment: sum when sel is set, which is in every second cycle
def _(cx):
    non_secret(cx, False)


# ------------------------------------------------------------------ wrappers of DesignWare blocks
# The blocks themselves have no source here. The divider stands for its documented function; a floating point block for an arbitrary
# function of its operands, rounding mode and parameters, different for each block: the wrapper must connect them as documented.
_FP = """
module %s(a, b, rnd, z, status);
parameter sig_width = 23; parameter exp_width = 8; parameter ieee_compliance = 0; parameter x3 = 0; parameter x4 = 0;
input [sig_width+exp_width:0] a, b; input [2:0] rnd; output [sig_width+exp_width:0] z; output [7:0] status;
assign z = (a << 1) + b * 7 + rnd * 16'd773 + %d * 16'd301 + ieee_compliance * 1000 + sig_width * 19; assign status = 0;
endmodule
"""
_FP1 = """
module %s(a, %s z, status);
parameter sig_width = 23; parameter exp_width = 8; parameter ieee_compliance = 0; parameter x3 = 0; parameter x4 = 0;
input [sig_width+exp_width:0] a; %s output [sig_width+exp_width:0] z; output [7:0] status;
assign z = (a << 1) + a + %s + %d * 16'd301 + ieee_compliance * 1000 + sig_width * 19; assign status = 0;
endmodule
"""
_DW = """
module DW_div(a, b, quotient, remainder, divide_by_0);
parameter a_width = 8; parameter b_width = 8; parameter tc_mode = 0; parameter rem_mode = 1;
input [a_width-1:0] a; input [b_width-1:0] b; output [a_width-1:0] quotient; output [b_width-1:0] remainder; output divide_by_0;
assign divide_by_0 = b == 0;
wire na, nb, nr; wire [a_width-1:0] ua, q; wire [b_width-1:0] ub, r;
assign na = tc_mode && a[a_width-1], nb = tc_mode && b[b_width-1];
assign ua = na ? -a : a, ub = nb ? -b : b, q = ua / ub, r = ua % ub;
assign quotient = na != nb ? -q : q;
assign remainder = rem_mode ? (na ? -r : r) : (r == 0 || na == nb ? (na ? -r : r) : (na ? b - r : r + b));
endmodule
module DW_fp_cmp(a, b, zctr, aeqb, altb, agtb, unordered, z0, z1, status0, status1);
parameter sig_width = 23; parameter exp_width = 8; parameter ieee_compliance = 0;
input [sig_width+exp_width:0] a, b; input zctr; output aeqb, altb, agtb, unordered; output [sig_width+exp_width:0] z0, z1; output [7:0] status0, status1;
assign aeqb = a == b, altb = a < b, agtb = a > b, unordered = (^a) & (^(b >> 1)), z0 = a, z1 = b, status0 = 0, status1 = 0;
endmodule
""" + "".join(_FP % nk for nk in (("DW_fp_add", 1), ("DW_fp_sub", 2), ("DW_fp_mult", 3), ("DW_fp_div", 4))) + "".join(
    _FP1 % ((n, "rnd,", "input [2:0] rnd;", "rnd * 16'd773", k) if r else (n, "", "", "0", k))
    for n, k, r in (("DW_fp_exp", 5, 0), ("DW_fp_ln", 6, 0), ("DW_fp_log2", 7, 0), ("DW_fp_sqrt", 8, 1), ("DW_fp_square", 9, 1)))


@job("wrappers")
def _(cx):
    for tc in (0, 1):
        for n in (2, 3, 4, 5, 8, 16, 32):
            for f in ("div", "div_q", "div_r"):
                sim = Sim(["div/%s.v" % f], f, {"width": n, "tc_mode": tc}, text=_DW, lib=False)
                cols, _ = space([n, n], 1 << 14)
                rows = [(a, b) for a, b in zip(*cols) if b and not (tc and a == 1 << n - 1 and b == (1 << n) - 1)]
                res = []
                for a, b in rows:
                    x, y = (sg(a, n), sg(b, n)) if tc else (a, b)
                    q = sdiv(x, y)
                    r = x - q * y & (1 << n) - 1
                    q &= (1 << n) - 1
                    res.append({"div": q << n | r, "div_q": q, "div_r": r}[f])
                cx.expect(sim, [{"g_input": [a for a, _ in rows], "e_input": [b for _, b in rows]}], [(0, "o", res)], len(rows))
    for s, e in ((2, 3), (10, 5), (23, 8), (52, 11)):
        n = s + e + 1
        for f, k in (("float_add", 1), ("float_mul", 3), ("float_div", 4), ("float_cmp", 0), ("fp_exp", 5), ("fp_ln", 6), ("fp_log2", 7), ("fp_sqrt", 8), ("fp_square", 9)):
            pre = "inst_" if k >= 8 else ""
            sim = Sim(["float/%s.v" % f], f, {pre + "sig_width": s, pre + "exp_width": e}, text=_DW, lib=False)
            w = n + (3 if k >= 8 else 0)
            cols, _ = space([w, w], 1 << 12)
            c = 301 * k + 19 * s

            def fn(a, b):
                if k == 0:
                    return (a == b) << 3 | (a < b) << 2 | (a > b) << 1 | bin(a).count("1") & bin(b >> 1).count("1") & 1
                if k < 5:
                    return 2 * a + 7 * b + c
                x = a ^ b
                return 3 * (x & (1 << n) - 1) + (773 * (x >> n) if k >= 8 else 0) + c
            cx.expect(sim, [{"g_input": cols[0], "e_input": cols[1]}], [(0, "o", [fn(a, b) & (1 << sim.width("o")) - 1 for a, b in zip(*cols)])], len(cols[0]))


@job("stackMachine")
def _(cx):
    for N, S in ((8, 8), (4, 4), (2, 3), (16, 5)):
        sim = Sim(["stack_machine/stackMachine.v"], "stackMachine", {"N": N, "S": S})
        L = 5 if cx.T else 4
        m = (1 << N) - 1
        progs = [[(4, edge(N)[(7 * q + 3) % len(edge(N))]) for q in range(fill)] + [(o, (t * 0x5b + i + 1) & m) for t, o in enumerate(ops)] + [(7, 0), (3, 0)]
                 for fill in (0, 2, S, S + 1) for i, ops in enumerate(itertools.product(range(8), repeat=L))]
        T = max(map(len, progs))
        progs = [p + [(0, 0)] * (T - len(p)) for p in progs]
        st = [[0] * S for _ in progs]
        stim, exp = [], []
        for t in range(T):
            out = []
            for i, p in enumerate(progs):
                op, x = p[t]
                s = st[i]
                a, b = s[0], s[1]
                if op == 4:
                    r = x
                    st[i] = [x] + s[:-1]
                elif op == 0:
                    r = a
                elif op == 5:
                    r = -a & m
                    s[0] = r
                else:
                    r = {1: a + b, 2: a - b, 3: a * b, 6: a & b, 7: a | b}[op] & m
                    st[i] = [r] + s[2:] + [s[-1]]
                out.append(r)
            stim.append({"e_input": [p[t][0] for p in progs], "g_input": [p[t][1] for p in progs]})
            exp.append((t, "o", out))
        cx.expect(sim, stim, exp, len(progs))


# ------------------------------------------------------------------ cryptographic functions
def _sbox():
    p, q, s = 1, 1, [0] * 256
    while True:
        p ^= (p << 1) ^ (0x11b if p & 0x80 else 0)
        p &= 0xff
        q ^= q << 1
        q ^= q << 2
        q ^= q << 4
        q &= 0xff
        if q & 0x80:
            q ^= 9
        s[p] = q ^ (q << 1 | q >> 7) & 0xff ^ (q << 2 | q >> 6) & 0xff ^ (q << 3 | q >> 5) & 0xff ^ (q << 4 | q >> 4) & 0xff ^ 0x63
        if p == 1:
            break
    s[0] = 0x63
    return s


SBOX = _sbox()


def aes128(key, msg):
    xt = lambda x: (x << 1 ^ (0x1b if x & 0x80 else 0)) & 0xff
    w = [list(key[4 * i:4 * i + 4]) for i in range(4)]
    rc = 1
    for i in range(4, 44):
        t = list(w[i - 1])
        if i % 4 == 0:
            t = [SBOX[x] for x in t[1:] + t[:1]]
            t[0] ^= rc
            rc = xt(rc)
        w.append([a ^ b for a, b in zip(w[i - 4], t)])
    s = list(msg)
    ark = lambda s, r: [a ^ b for a, b in zip(s, sum(w[4 * r:4 * r + 4], []))]
    s = ark(s, 0)
    for r in range(1, 11):
        s = [SBOX[x] for x in s]
        s = [s[(i + 4 * (i % 4)) % 16] for i in range(16)]
        if r < 10:
            o = []
            for c in range(4):
                a = s[4 * c:4 * c + 4]
                for i in range(4):
                    o.append(xt(a[i]) ^ xt(a[(i + 1) % 4]) ^ a[(i + 1) % 4] ^ a[(i + 2) % 4] ^ a[(i + 3) % 4])
            s = o
        s = ark(s, r)
    return bytes(s)


assert aes128(bytes(range(16)), bytes(17 * i for i in range(16))).hex() == "69c4e0d86a7b0430d8cdb78070b4c55a"


def aes_vecs(T):
    v = []
    base = bytes(range(16)), bytes(17 * i for i in range(16))
    for k in range(2):
        for b in range(16):
            for x in range(256) if T else sorted(set([1 << i for i in range(8)] + [0, 255, 0x53, 0x80 ^ 17 * b] + list(range(b * 16, b * 16 + 16)))):
                m = [bytearray(base[0]), bytearray(base[1])]
                m[k][b] = x
                v.append((bytes(m[0]), bytes(m[1])))
    for a in (0, 255, 0x5a):
        for b in (0, 255, 0xa5):
            v.append((bytes([a] * 16), bytes([b] * 16)))
    return v


@job("aes")
def _(cx):
    files = ["aes/" + x for x in sorted(os.listdir(os.path.join(CS, "aes"))) if x.endswith(".v")]
    v = aes_vecs(cx.T)
    le = lambda b: int.from_bytes(b, "little")
    out = [le(aes128(k, m)) for k, m in v]
    sim = Sim(files, "aes_1cc", {})
    cx.expect(sim, [{"g_input": [le(k) for k, _ in v], "e_input": [le(m) for _, m in v]}], [(0, "o", out)], len(v))
    sim = Sim(files, "aes_11cc", {})
    cx.expect(sim, [{"g_init": [le(k) for k, _ in v], "e_init": [le(m) for _, m in v]}], [(10, "o", out)], len(v))
    sim = Sim(files, "SubBytes", {})
    cx.expect(sim, [{"x": [sum(((i + 16 * k + 37 * b) & 255) << 8 * b for b in range(16)) for k in range(1) for i in range(256)]}],
              [(0, "z", [sum(SBOX[(i + 37 * b) & 255] << 8 * b for b in range(16)) for i in range(256)])], 256)


RC = [0x0000000000000001, 0x0000000000008082, 0x800000000000808A, 0x8000000080008000, 0x000000000000808B, 0x0000000080000001,
      0x8000000080008081, 0x8000000000008009, 0x000000000000008A, 0x0000000000000088, 0x0000000080008009, 0x000000008000000A,
      0x000000008000808B, 0x800000000000008B, 0x8000000000008089, 0x8000000000008003, 0x8000000000008002, 0x8000000000000080,
      0x000000000000800A, 0x800000008000000A, 0x8000000080008081, 0x8000000000008080, 0x0000000080000001, 0x8000000080008008]


def keccak(A):
    rol = lambda x, n: (x << n | x >> (64 - n)) & (1 << 64) - 1 if n % 64 else x
    A = [[A[x + 5 * y] for y in range(5)] for x in range(5)]
    for rnd in range(24):
        C = [A[x][0] ^ A[x][1] ^ A[x][2] ^ A[x][3] ^ A[x][4] for x in range(5)]
        Dd = [C[(x - 1) % 5] ^ rol(C[(x + 1) % 5], 1) for x in range(5)]
        A = [[A[x][y] ^ Dd[x] for y in range(5)] for x in range(5)]
        x, y, cur = 1, 0, A[1][0]
        for t in range(24):
            x, y = y, (2 * x + 3 * y) % 5
            cur, A[x][y] = A[x][y], rol(cur, (t + 1) * (t + 2) // 2 % 64)
        for y in range(5):
            T = [A[x][y] for x in range(5)]
            for x in range(5):
                A[x][y] = T[x] ^ (~T[(x + 1) % 5] & T[(x + 2) % 5])
        A[0][0] ^= RC[rnd]
    return [A[x][y] for y in range(5) for x in range(5)]


assert keccak([0] * 25)[0] == 0xF1258F7940E1DDE7


def st2int(A):
    return sum(w << (1536 - 64 * i) for i, w in enumerate(A))


def int2st(v):
    return [v >> (1536 - 64 * i) & (1 << 64) - 1 for i in range(25)]


@job("sha3")
def _(cx):
    files = ["sha3/" + x for x in sorted(os.listdir(os.path.join(CS, "sha3"))) if x.endswith(".v")]
    ins = [0, (1 << 576) - 1, 0x933e63aa2ca8f246c9c9cb75fbff5e345c41b285030a19243bb6edac7b3e595f65a04004217e2f818b63a9a54294f96cd012e70c5f7f7e8f998b57997cf4ecddea49b42d459db0c1]
    ins += [1 << i for i in range(0, 576, 1 if cx.T else 5)]
    out = [st2int(keccak(int2st(x))) for x in ins]
    lo, hi = [x & (1 << 288) - 1 for x in ins], [x >> 288 for x in ins]
    sim = Sim(files, "sha3_comb", {})
    cx.expect(sim, [{"g_input": lo, "e_input": hi}], [(0, "o", out)], len(ins))
    for cc in (24, 12, 8, 6, 4, 3, 2):
        sim = Sim(files, "sha3_seq", {"CC": cc})
        cx.expect(sim, [{"g_init": lo, "e_init": hi}], [(cc - 1, "o", out)], len(ins))
    # one round on every single-bit state
    sim = Sim(files, "rconst", {})
    cx.expect(sim, [{"i": [1 << i for i in range(24)]}], [(0, "rc", RC)], 24)


# ------------------------------------------------------------------ applications
@job("matrix_mult")
def _(cx):
    def mats(N, M, k):
        """operand matrices with small and with full-range entries"""
        m = (1 << M) - 1
        for i in range(k):
            yield [[(i * 7 + a * 5 + b * 3 + i * a * b) * (0x9e3779b1 if i & 1 else 1) & m for b in range(N)] for a in range(N)], \
                [[(i * 11 + a * 2 + b * 9 + i * i * (a + b)) * (0x85ebca6b if i & 2 else 1) & m for b in range(N)] for a in range(N)]

    for N, M in ((1, 4), (2, 1), (2, 2), (2, 4), (3, 2), (3, 8), (3, 32)):
        if 2 * N * N * M <= 16:
            t = N * N * M
            pairs = []
            for x in range(1 << 2 * t):
                e = [words(y, M, N * N) for y in (x & (1 << t) - 1, x >> t)]
                pairs.append(tuple([v[i * N:i * N + N] for i in range(N)] for v in e))
        else:
            pairs = list(mats(N, M, 400 if cx.T else 120))
        W = len(pairs)
        flat = lambda A: sum(x << M * (N * i + j) for i, r in enumerate(A) for j, x in enumerate(r))
        prod = [[[sum(A[i][k] * B_[k][j] for k in range(N)) & (1 << M) - 1 for j in range(N)] for i in range(N)] for A, B_ in pairs]
        sim = Sim(["matrix_mult/matrix_mult_N_M_0.v"], "matrix_mult_N_M_0", {"N": N, "M": M})
        cx.expect(sim, [{"g_input": [flat(a) for a, _ in pairs], "e_input": [flat(b) for _, b in pairs]}], [(0, "o", [flat(p) for p in prod])], W)
        # accumulating forms: cycle t shows the sum of the products of the cycles before it
        vec = lambda v: sum(x << M * i for i, x in enumerate(v))
        L = 4
        rows = [(a, b) for a, b in pairs][:2048]
        sim = Sim(["matrix_mult/matrix_mult_N_M_1.v"], "matrix_mult_N_M_1", {"N": N, "M": M})
        acc = [[0] * N for _ in rows]
        stim, exp = [], []
        for t in range(L):
            stim.append({"g_input": [vec(a[t % N]) for a, _ in rows], "e_input": [flat(b) for _, b in rows]})
            exp.append((t, "o", [vec(x) for x in acc]))
            acc = [[s[i] + sum(a[t % N][k] * b[k][i] for k in range(N)) & (1 << M) - 1 for i in range(N)] for s, (a, b) in zip(acc, rows)]
        cx.expect(sim, stim, exp, len(rows))
        sim = Sim(["matrix_mult/matrix_mult_N_M_2.v"], "matrix_mult_N_M_2", {"N": N, "M": M})
        acc, stim, exp = [0] * len(rows), [], []
        for t in range(L):
            stim.append({"g_input": [vec(a[t % N]) for a, _ in rows], "e_input": [vec([b[k][t % N] for k in range(N)]) for _, b in rows]})
            exp.append((t, "o", acc))
            acc = [s + sum(a[t % N][k] * b[k][t % N] for k in range(N)) & (1 << M) - 1 for s, (a, b) in zip(acc, rows)]
        cx.expect(sim, stim, exp, len(rows))
        sim = Sim(["matrix_mult/matrix_mult_N_M_3.v"], "matrix_mult_N_M_3", {"N": N, "M": M})
        acc, stim, exp = [0] * len(rows), [], []
        for t in range(L + 2):
            x, y = [a[t % N][t // N % N] for a, _ in rows], [b[t % N][t // N % N] for _, b in rows]
            acc = [s + p * q & (1 << M) - 1 for s, p, q in zip(acc, x, y)]
            stim.append({"g_input": x, "e_input": y})
            exp.append((t, "o", acc))
        cx.expect(sim, stim, exp, len(rows))


RSA = ["rsa/modexp_1_N.v", "rsa/modexp_2N_NN.v", "rsa/modmult.v"]


@job("modmult")
def _(cx):
    for N, ccs in ((1, (1,)), (2, (1, 2)), (3, (1, 3)), (4, (1, 2, 4)), (5, (1, 5)), (6, (1, 2, 3, 6)), (8, (1, 2, 4, 8)), (32, (1, 32))):
        if N <= 4 or cx.T and N <= 5:
            tr = [(x, y, n) for n in range(1, 1 << N) for x in range(n) for y in range(n)]
        else:
            tr = []
            for n in edge(N):
                if n:
                    vs = sorted(set(x for x in (0, 1, 2, n // 3, n // 2, n // 2 + 1, n - 2, n - 1) if 0 <= x < n))
                    tr += [(x, y, n) for x in vs for y in vs]
        x, y, n = map(list, zip(*tr))
        out = [a * b % c for a, b, c in tr]
        for cc in ccs:
            sim = Sim(RSA, "modmult", {"N": N, "CC": cc})
            one, zero = [1] * len(tr), [0] * len(tr)
            stim = [{"x": x, "y": y, "n": n, "start": one}] + [{"x": [a ^ 1 for a in x], "y": y, "n": n, "start": zero}] * (cc - 1)
            # a second product straight after the first, without a reset
            stim += [dict(s, x=(y if i == 0 else x), y=x) for i, s in enumerate(stim)]
            cx.expect(sim, stim, [(cc - 1, "o", out), (2 * cc - 1, "o", out)], len(tr))


def exps(N, T):
    if N <= 3 or T and N == 4:
        return [(m, e, n) for n in range(2, 1 << N) for m in range(n) for e in range(1, 1 << N)]
    r = []
    for n in edge(N):
        if n > 1:
            for m in sorted(set(x for x in (0, 1, 2, n // 3, n // 2, n - 1) if x < n)):
                r += [(m, e, n) for e in (range(1, 1 << N) if N <= 6 else edge(N)) if e]
    return r


@job("modexp_1_N")
def _(cx):
    for N, ccs in ((2, (1, 2)), (3, (1, 3)), (4, (1, 2, 4)), (6, (1, 2, 3, 6)), (8, (1, 4, 8))):
        v = exps(N, cx.T)
        out = [pow(m, e, n) for m, e, n in v]
        st = {"g_input": [m for m, _, _ in v], "e_input": [n << N | e for _, e, n in v]}
        for cc in ccs:
            sim = Sim(RSA, "modexp_1_N", {"N": N, "CC": cc})
            cx.expect(sim, [st] * cc, [(cc - 1, "o", out)], len(v))


@job("modexp_2N_NN")
def _(cx):
    for N, ks in ((2, (1, 2)), (3, (1, 3)), (4, (1, 2, 4)), (6, (1, 2, 6)), (8, (1, 8))):
        v = exps(N, cx.T)
        out = [pow(m, e, n) for m, e, n in v]
        st = {"g_init": [m for m, _, _ in v], "e_init": [e << N | n for _, e, n in v]}
        for k in ks:
            cc = 2 * N * k
            sim = Sim(RSA, "modexp_2N_NN", {"N": N, "CC": cc})
            cx.expect(sim, [st], [(cc - 1, "o", out)], len(v))


def near(cx, sim, stim, cands, dist, k, w, cyc, note=""):
    """output words are the k candidates of least distance, in some order of ties: compare multisets of distances and membership"""
    W = len(cands)
    for und in (0, 1) if sim.c["und"] else (0,):
        got = lanes(sim.run(stim, W, und, cyc + 1)[cyc]["o"], W)
        cx.evals += W
        for i in range(W):
            c, d = cands[i], dist[i]
            g = words(got[i], w, k)
            want = sorted(d)[:k]
            have = []
            pool = list(zip(d, c))
            ok = True
            for x in g[:min(k, len(c))]:
                m = [p for p in pool if p[1] == x]
                if not m:
                    ok = False
                    break
                pool.remove(m[0])
                have.append(m[0][0])
            if not ok or have != want and sorted(have) != want:
                cx.bad(sim, "%scandidates %s at distances %s give %s" % (note, [hex(x) for x in c], d, [hex(x) for x in g]))
                return
    cx.cnt[sim.name.split("(")[0]] = cx.cnt.get(sim.name.split("(")[0], 0) + W


def nn_cases(w, n, cap):
    if w * (n + 1) <= 14:
        return [(x & (1 << w) - 1, words(x >> w, w, n)) for x in range(1 << w * (n + 1))]
    m = (1 << w) - 1
    r = []
    for i in range(cap):
        q = (i * 0x9e3779b97f4a7c15 >> 3) & m if i & 1 else i & m
        r.append((q, [((i + 1) * (j + 1) * 0x85ebca6b3c6ef372 >> (i + j) % 9) & m for j in range(n)]))
    for j in range(n):
        for b in range(w):
            r.append((1 << b, [m ^ 1 << b if x != j else 1 << b ^ 1 << (b + 1) % w for x in range(n)]))
            r.append((m, [0 if x != j else 1 << b for x in range(n)]))
    return r


@job("knns")
def _(cx):
    ham = lambda a, b: bin(a ^ b).count("1")
    cap = 4000 if cx.T else 600
    for w, n in ((2, 2), (2, 3), (3, 3), (4, 2), (4, 4), (7, 5), (15, 8), (15, 32)):
        cs = nn_cases(w, n, cap)
        q, cand = [a for a, _ in cs], [c for _, c in cs]
        dist = [[ham(a, x) for x in c] for a, c in cs]
        sim = Sim(["knns/first_nns_comb.v"], "first_nns_comb", {"W": w, "N": n})
        near(cx, sim, [{"g_input": q, "e_input": [sum(x << w * i for i, x in enumerate(c)) for c in cand]}], cand, dist, 1, w, 0)
        st = [{"g_input": q, "e_input": [c[t] for c in cand]} for t in range(n)]
        sim = Sim(["knns/first_nns_seq.v"], "first_nns_seq", {"W": w})
        for t in range(n):
            near(cx, sim, st, [c[:t + 1] for c in cand], [d[:t + 1] for d in dist], 1, w, t)
        for k in (2, 3, 4):
            if k <= n:
                sim = Sim(["knns/k_nns_seq.v"], "k_nns_seq", {"W": w, "K": k})
                near(cx, sim, st, cand, dist, k, w, n - 1)


@job("knns_td")
def _(cx):
    cap = 4000 if cx.T else 600
    TX = ["knns_td/taxicab_distance.v"]
    for w in (1, 2, 3, 4, 8, 15, 32):
        sim = Sim(TX, "taxicab_distance", {"N": w})
        cols, _ = space([w] * 4, 1 << 16, few=w > 4)
        cx.expect(sim, [dict(zip(("x1", "y1", "x2", "y2"), cols))], [(0, "dist", [abs(a - c) + abs(b - d) for a, b, c, d in zip(*cols)])], len(cols[0]))
    for w, n in ((1, 2), (1, 3), (2, 2), (3, 3), (4, 4), (15, 6), (15, 32)):
        cs = nn_cases(2 * w, n, cap)
        m = (1 << w) - 1
        q, cand = [a for a, _ in cs], [c for _, c in cs]
        dist = [[abs((a >> w) - (x >> w)) + abs((a & m) - (x & m)) for x in c] for a, c in cs]
        sim = Sim(TX + ["knns_td/first_nns_comb_td.v"], "first_nns_comb_td", {"W": w, "N": n})
        near(cx, sim, [{"g_input": q, "e_input": [sum(x << 2 * w * i for i, x in enumerate(c)) for c in cand]}], cand, dist, 1, 2 * w, 0)
        st = [{"g_input": q, "e_input": [c[t] for c in cand]} for t in range(n)]
        sim = Sim(TX + ["knns_td/first_nns_seq_td.v"], "first_nns_seq_td", {"W": w})
        for t in range(n):
            near(cx, sim, st, [c[:t + 1] for c in cand], [d[:t + 1] for d in dist], 1, 2 * w, t)
        st = [{"e_input": q, "g_input": [c[t] for c in cand]} for t in range(n)]
        for f, top in (("k_nns_seq_td", "k_nns_seq_td"), ("knns_seq_td", "knns_seq")):
            for k in (2, 3, 4):
                if k <= n:
                    sim = Sim(TX + ["knns_td/%s.v" % f], top, {"W": w, "K": k})
                    near(cx, sim, st, cand, dist, k, 2 * w, n - 1)


def gale_shapley(sp, rp):
    """suitors propose in their order of preference; rank lists per reviewer; -> suitor of each reviewer (None: free)"""
    nxt = [0] * len(sp)
    of = [None] * len(rp)
    free = list(range(len(sp)))
    rank = [{s: i for i, s in enumerate(r)} for r in rp]
    while free:
        s = free.pop()
        if nxt[s] == len(sp[s]):
            continue
        r = sp[s][nxt[s]]
        nxt[s] += 1
        if of[r] is None:
            of[r] = s
        elif rank[r][s] < rank[r][of[r]]:
            free.append(of[r])
            of[r] = s
        else:
            free.append(s)
    return of


def profiles(n, full):
    P = list(itertools.permutations(range(n)))
    if full:
        for x in itertools.product(P, repeat=2 * n):
            yield x[:n], x[n:]
    else:
        cyc = [tuple((i + k) % n for i in range(n)) for k in range(n)] + [tuple((k - i) % n for i in range(n)) for k in range(n)]
        for x in itertools.product(cyc[:n], repeat=n):
            for k in range(2 * n):
                for j in range(n):
                    yield x, tuple(cyc[(k + j * i) % len(cyc)] for i in range(n))
        for x in itertools.product(range(2 * n), repeat=2):
            for i in range(n * n):
                yield tuple(P[(x[0] * 7 + i * 5 + k * (x[1] + 3)) % len(P)] for k in range(n)), tuple(P[(x[1] * 11 + i * 3 + k * (x[0] + 2)) % len(P)] for k in range(n))


@job("stable_match_seq")
def _(cx):
    """suitors' and reviewers' complete lists -> the suitor-optimal stable matching"""
    for n in (2, 3, 4):
        ps = list(profiles(n, n < 4))
        if not cx.T and n == 3:
            ps = ps[::5]
        sim = Sim(["stable_match/encoder.v", "stable_match/stable_match_seq.v"], "stable_match_seq", {"Kr": n, "Ks": n, "S": n, "R": n})
        lg = (n - 1).bit_length()
        pack = lambda ls: sum(x << lg * (n * i + j) for i, l in enumerate(ls) for j, x in enumerate(l))
        out = []
        for s, r in ps:
            of = gale_shapley(s, r)
            out.append(sum(x << lg * i for i, x in enumerate(of)))
        cyc = 2 * n * n + 2 * n + 2
        cx.expect(sim, [{"rPref": [pack(r) for _, r in ps], "sPref": [pack(s) for s, _ in ps]}], [(cyc, "matchList", out)], len(ps))


@job("stable_match")
def _(cx):
    """at cycle t the inputs carry man t mod M's list and the ranks woman t mod W gives the men"""
    for n in (2, 4):
        ps = list(profiles(n, n < 4))
        if not cx.T and n == 4:
            ps = ps[::3]
        sim = Sim(["stable_match/encoder.v", "stable_match/stable_match.v"], "stable_match", {"Kw": n, "Km": n, "M": n, "W": n})
        lg = (n - 1).bit_length()
        out = [sum(x << lg * i for i, x in enumerate(gale_shapley(s, r))) for s, r in ps]
        per = []
        for t in range(n):
            col = []
            for s, r in ps:
                rev = [0] * n
                for i, m in enumerate(r[t]):
                    rev[m] = i
                col.append(sum(x << lg * i for i, x in enumerate(rev)) | sum(x << lg * (n + i) for i, x in enumerate(s[t])))
            key = [(i * 0x9e3779b1 >> t) & (1 << 2 * n * lg) - 1 for i in range(len(ps))]
            per.append({"g_input": [a ^ b for a, b in zip(col, key)], "e_input": key})
        cyc = n * n * (2 * n + 2) + 2 * n
        cx.expect(sim, [per[t % n] for t in range(cyc + 1)], [(cyc, "o", out)], len(ps))


def cordic(cx, top, p, mode):
    import math
    sim = Sim(["cordic/" + x for x in ("cordic.v", "alpha_table.v", "barrel_shifter_left.v")], "cordic", p, ["cordic"])
    F, L = p.get("FRAC", 14), p.get("DEC", 2) + p.get("FRAC", 14)
    one = 1 << F
    S = 40 if cx.T else 16
    K = 1.0
    for i in range(F + 1):
        K *= math.sqrt(1 + 4.0 ** -i)
    rows = []
    if mode == "rot":
        for a in range(-S, S + 1):
            z = a * 1.5 / S
            for b in range(S):
                t, r = 2 * math.pi * b / S, (0.2, 0.6, 1.0, 1.15)[b % 4]
                rows.append((r * math.cos(t), r * math.sin(t), z))
        exp = [(K * (x * math.cos(z) - y * math.sin(z)), K * (y * math.cos(z) + x * math.sin(z)), 0) for x, y, z in rows]
    elif mode == "lin":
        for a in range(-S, S + 1):
            for b in range(-S, S + 1):
                z, x = 1.9 * a / S, 0.9 * b / S
                rows.append((x, (0.1, -0.2, 0)[(a + b) % 3], z))
        exp = [(x, y + x * z, 0) for x, y, z in rows]
    elif mode == "linvec":
        for a in range(-S, S + 1):
            for b in range(1, S + 1):
                x, y = 0.1 + 0.9 * b / S, a / S
                if abs(y) < 1.9 * x:
                    rows.append((x, y, 0.0))
        exp = [(x, 0, z + y / x) for x, y, z in rows if 1]
    else:
        for b in range(-S, S + 1):
            t = 1.5 * b / S
            for r in (0.2, 0.6, 1.0):
                rows.append((r * math.cos(t), r * math.sin(t), 0.1))
        exp = [(K * math.hypot(x, y), 0, z + math.atan2(y, x)) for x, y, z in rows]
    W = len(rows)
    q = lambda v: int(round(v * one)) & (1 << L) - 1
    st = {"g_init": [q(x) << L | q(y) for x, y, _ in rows], "e_init": [q(z) for _, _, z in rows]}
    outs = sim.run([st], W, 0, F + 3)
    cx.evals += W
    o = lanes(outs[F + 1]["o"], W)
    tm = [t["terminate"][0] for t in outs]
    if tm[:F + 1] != [0] * (F + 1) or tm[F + 1] != (1 << W) - 1 or tm[F + 2] != (1 << W) - 1:
        cx.bad(sim, "terminate is not raised first after %d iterations" % (F + 1))
    tol = 40.0 / one
    for r, e, v in zip(rows, exp, o):
        g = [sg(v >> L * k & (1 << L) - 1, L) / one for k in (2, 1, 0)]
        if max(abs(a - b) for a, b in zip(g, e)) > tol:
            cx.bad(sim, "%s of x=%.4f y=%.4f z=%.4f gives (%.4f, %.4f, %.4f), expected (%.4f, %.4f, %.4f)" % ((mode,) + r + tuple(g) + tuple(e)))
            return
    cx.cnt["cordic"] = cx.cnt.get("cordic", 0) + W


@job("cordic")
def _(cx):
    import math
    for fr, mod in itertools.product((14, 30), (1, 0)):
        sim = Sim(["cordic/alpha_table.v"], "alpha_table", {"FRAC": fr, "MOD": mod}, ["cordic"])
        o = lanes(sim.run([{"iter": list(range(fr + 1))}], fr + 1)[0]["alphai"], fr + 1)
        cx.evals += fr + 1
        for i, v in enumerate(o):
            e = (math.atan(2.0 ** -i) if mod else 2.0 ** -i) * 2 ** fr
            if abs(v - e) > 1:
                cx.bad(sim, "the angle of iteration %d is %d, expected %.1f" % (i, v, e))
                return
    cordic(cx, "cordic", {}, "rot")
    cordic(cx, "cordic", {"MOD": 0}, "lin")
    cordic(cx, "cordic", {"FRAC": 30}, "rot")
    cordic(cx, "cordic", {"FRAC": 30, "MOD": 0}, "lin")


@job("cordic_vec")
def _(cx):
    cordic(cx, "cordic", {"DIR": 1}, "vec")
    cordic(cx, "cordic", {"DIR": 1, "MOD": 0}, "linvec")
    cordic(cx, "cordic", {"DIR": 1, "FRAC": 30}, "vec")


def jobs_of(pid):
    import importlib
    m = {"C32": "hdl", "C33": "hdlcpu", "C34": "hdlmap"}[pid]
    return importlib.import_module(m).JOBS


def one(arg):
    pid, name, tier, scratch = arg
    cx = Ctx(tier)
    cx.scratch = scratch
    err, t = "", time.time()
    try:
        jobs_of(pid)[name](cx)
    except vlog.VBad as e:
        cx.viol.append("%s: not a circuit: %s" % (name, e))
    except (vlog.VErr, OSError, B.BuildError) as e:
        err = "%s: %s: %s" % (name, type(e).__name__, e)
    except Exception as e:   # a fault of this program, not an answer about the tree
        import traceback
        err = "%s: %s" % (name, traceback.format_exc()[-1500:])
    return name, cx.viol, cx.cnt, cx.samples, cx.evals, cx.outc, err, time.time() - t


def run(pid, tier, seed, scratch, replay):
    js = jobs_of(pid)
    names = [open(replay).read().strip()[4:]] if replay else list(js)
    viols, errors, samples, cnt = [], [], [], {}
    evals = outc = 0
    with multiprocessing.Pool(min(int(os.environ.get("VERIF_JOBS", "8")), len(names)), maxtasksperchild=1) as pool:
        order = sorted(names, key=lambda n: -getattr(js[n], "cost", 1))
        for name, v, c, sm, e, oc, err, dt in pool.imap_unordered(one, [(pid, n, tier, scratch) for n in order]):
            if os.environ.get("VERIF_DBG"):
                print("%-24s %6.1fs %d evals %s" % (name, dt, e, v[:1]), flush=True)
            if err:
                errors.append(err)
            if v:
                viols.append({"case": "hdl:" + name, "kind": "violation", "msg": v[0] + (" (and %d more)" % (len(v) - 1) if len(v) > 1 else "")})
            for k, x in c.items():
                cnt[k] = cnt.get(k, 0) + x
            samples += sm
            evals += e
            outc += oc
    cov = {"exhaustive": not errors and not viols, "evaluations": evals, "distinct_nontrivial": sum(v for k, v in cnt.items() if k != "cells" and not k.startswith("max")),
           "rule": "an input vector (or input history) of one elaborated design counts once; evaluations counts its clock cycles",
           "distinct_outcomes": outc, "counters": cnt, "samples": samples[:40] or ["none"]}
    return viols, cov, [], errors


def main():
    for n in sys.argv[2:] or jobs_of(sys.argv[1]):
        name, v, c, sm, e, oc, err, dt = one((sys.argv[1], n, os.environ.get("TIER", "quick"), "/tmp"))
        print(n, "%.1fs" % dt, c, "evals", e, err)
        for x in v[:5]:
            print("   VIOL", x[:400])


if __name__ == "__main__":
    sys.modules["hdl"] = sys.modules["__main__"]
    main()
