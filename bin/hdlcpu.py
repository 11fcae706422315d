"""C33: the processors described in circuit_synthesis, run on programs; every lane of a run is a program of its own."""
import itertools, os, re
import vlog
from hdl import Sim, CS, planes, lane, lanes, edge, sg

JOBS = {}


def job(name):
    def d(f):
        JOBS[name] = f
        return f
    return d


M32 = 0xffffffff

# ------------------------------------------------------------------ MIPS
R = {"sll": 0, "srl": 2, "sra": 3, "sllv": 4, "srlv": 6, "srav": 7, "jr": 8, "jalr": 9, "add": 32, "addu": 33, "sub": 34, "subu": 35,
     "and": 36, "or": 37, "xor": 38, "nor": 39, "slt": 42, "sltu": 43}
I = {"beq": 4, "bne": 5, "blez": 6, "bgtz": 7, "addi": 8, "addiu": 9, "slti": 10, "sltiu": 11, "andi": 12, "ori": 13, "xori": 14, "lui": 15,
     "lb": 32, "lh": 33, "lw": 35, "lbu": 36, "lhu": 37, "sb": 40, "sh": 41, "sw": 43}
RI = {"bltz": 0, "bgez": 1, "bltzal": 16, "bgezal": 17}


def asm(op, *a):
    """rd, rs, rt / rt, rs, imm / rt, imm, rs: operands in the order of the assembler"""
    if op in ("sll", "srl", "sra"):
        return a[1] << 16 | a[0] << 11 | (a[2] & 31) << 6 | R[op]
    if op in ("sllv", "srlv", "srav"):
        return a[2] << 21 | a[1] << 16 | a[0] << 11 | R[op]
    if op == "jr":
        return a[0] << 21 | R[op]
    if op == "jalr":
        return a[1] << 21 | a[0] << 11 | R[op]
    if op in R:
        return a[1] << 21 | a[2] << 16 | a[0] << 11 | R[op]
    if op in RI:
        return 1 << 26 | a[0] << 21 | RI[op] << 16 | a[1] & 0xffff
    if op in ("j", "jal"):
        return (2 if op == "j" else 3) << 26 | a[0] & 0x3ffffff
    if op in ("beq", "bne"):
        return I[op] << 26 | a[0] << 21 | a[1] << 16 | a[2] & 0xffff
    if op in ("blez", "bgtz"):
        return I[op] << 26 | a[0] << 21 | a[1] & 0xffff
    if op == "lui":
        return I[op] << 26 | a[0] << 16 | a[1] & 0xffff
    if I[op] >= 32:
        return I[op] << 26 | a[2] << 21 | a[0] << 16 | a[1] & 0xffff
    return I[op] << 26 | a[1] << 21 | a[0] << 16 | a[2] & 0xffff


class Mips:
    """One instruction per step, no delay slot; branch targets count from the branch itself; little-endian bytes."""

    def __init__(self, im, dm):
        self.im, self.dm, self.r, self.pc = im, list(dm), [0] * 32, 0

    def step(self):
        n = len(self.im)
        w = self.im[self.pc & n - 1]
        op, rs, rt, rd, sh, fn, imm = w >> 26, w >> 21 & 31, w >> 16 & 31, w >> 11 & 31, w >> 6 & 31, w & 63, w & 0xffff
        r, s32 = self.r, lambda x: sg(x & M32, 32)
        a, b, simm = r[rs], r[rt], sg(imm, 16)
        nxt = self.pc + 1 & 0x3fffffff
        link = nxt << 2 & M32
        br = self.pc + simm & 0x3fffffff
        d, v = 0, 0
        if op == 0:
            d = rd
            if fn in (0, 2, 3, 4, 6, 7):
                k = sh if fn < 4 else a & 31
                v = [b << k, 0, b >> k, s32(b) >> k][fn & 3]
            elif fn in (8, 9):
                d = rd if fn == 9 else 0
                nxt, v = a >> 2, link
            elif fn in (32, 33):
                v = a + b
            elif fn in (34, 35):
                v = a - b
            elif fn in (36, 37, 38, 39):
                v = [a & b, a | b, a ^ b, ~(a | b)][fn - 36]
            elif fn == 42:
                v = int(s32(a) < s32(b))
            elif fn == 43:
                v = int(a < b)
            else:
                d = 0
        elif op == 1 and rt in (0, 1, 16, 17):
            if rt & 16:
                d, v = 31, link
            if (a >> 31) != (rt & 1):
                nxt = br
        elif op in (2, 3):
            if op == 3:
                d, v = 31, link
            nxt = self.pc & 0x3c000000 | w & 0x3ffffff
        elif op in (4, 5, 6, 7):
            if [a == b, a != b, s32(a) <= 0, s32(a) > 0][op - 4]:
                nxt = br
        elif 8 <= op <= 15:
            d = rt
            v = [a + simm, a + simm, int(s32(a) < simm), int(a < simm & M32), a & imm, a | imm, a ^ imm, imm << 16][op & 7]
        elif op >= 32:
            ad = a + simm & M32
            i, o = (ad >> 2) & len(self.dm) - 1, ad & 3
            m = self.dm[i]
            if op < 40:
                d = rt
            if op in (32, 36):
                v = m >> 8 * o & 255
                v = sg(v, 8) if op == 32 else v
            elif op in (33, 37):
                v = m >> 16 * (o >> 1) & 0xffff
                v = sg(v, 16) if op == 33 else v
            elif op == 35:
                v = m
            elif op == 40:
                self.dm[i] = m & ~(255 << 8 * o) & M32 | (b & 255) << 8 * o
            elif op == 41:
                self.dm[i] = m & ~(0xffff << 16 * (o >> 1)) & M32 | (b & 0xffff) << 16 * (o >> 1)
            elif op == 43:
                self.dm[i] = b
            else:
                d = 0
        if d:
            r[d] = v & M32
        self.pc = nxt


_mips = []


def mips_sim():
    if not _mips:
        files = ["mips/" + x for x in sorted(os.listdir(os.path.join(CS, "mips"))) if x.endswith(".v")]
        _mips.append(Sim(files, "Lite_MIPS", {}, ["mips", "mips/test"]))
    return _mips[0]


def pack(words, n):
    return sum(w << 32 * i for i, w in enumerate(words)) & (1 << 32 * n) - 1


HALT = "j"


def mips_run(cx, what, progs, cycles):
    """progs: [(instruction words, data words)]; the data memory is compared after every cycle"""
    sim = mips_sim()
    N = len(sim.c["in"]["g_init"]) // 32
    if 32 * N != sim.width("g_init") or len(sim.c["in"]["e_init"]) != 32 * N:
        raise vlog.VBad("memory sizes")
    for lo in range(0, len(progs), 4096):
        part = progs[lo:lo + 4096]
        W = len(part)
        ms = [Mips((list(p) + [0] * N)[:N], (list(d) + [0] * N)[:N]) for p, d in part]
        exp = []

        def watch(v, outs):
            t = len(outs) - 1
            got = outs.pop()["o"]
            outs.append(None)
            want = []
            cols = list(zip(*[m.dm for m in ms]))
            for k, c in enumerate(cols):
                g = got[32 * k:32 * k + 32]
                for a, b in zip(g, planes(c, 32)):
                    if a != b:
                        i = ((a ^ b) & -(a ^ b)).bit_length() - 1
                        exp.append((t, k, i, lane(g, i), c[i]))
                        return True
            for m in ms:
                m.step()
            return False
        sim.run([{"g_init": [pack(m.im, N) for m in ms], "e_init": [pack(m.dm, N) for m in ms]}], W, 0, cycles, watch=watch)
        cx.evals += W * cycles
        if exp:
            t, k, i, g, w = exp[0]
            cx.bad("Lite_MIPS", "%s: program %s data %s: before cycle %d word %d of the data memory is %08x, expected %08x" %
                   (what, " ".join("%08x" % x for x in part[i][0])[:500], " ".join("%08x" % x for x in part[i][1][:8]), t, k, g, w))
            return
        cx.cnt[what] = cx.cnt.get(what, 0) + W
        cx.outc += len({tuple(m.dm) for m in ms})
        cx.samples.append("%s: %s -> data %s" % (what, " ".join("%08x" % x for x in part[-1][0][:12]), " ".join("%08x" % x for x in ms[-1].dm[:6])))


def ops2():
    return [o for o in R if o not in ("sll", "srl", "sra", "jr", "jalr")]


@job("mips_alu")
def _(cx):
    vals = edge(32, not cx.T)[::1 if cx.T else 2]
    P = []
    pre = [asm("lw", 1, 0, 0), asm("lw", 2, 4, 0)]
    post = [asm("sw", 3, 8, 0), asm("j", 4)]
    for o in ops2():
        for a, b in itertools.product(vals, vals):
            P.append((pre + [asm(o, 3, 1, 2)] + post, [a, b]))
    mips_run(cx, "register operations", P, 5)
    P = []
    for o in ("sllv", "srlv", "srav"):
        for a in vals[::3] + [0x80000001, 0x7ffffffe]:
            for k in list(range(34)) + [63, 64, 0x80000000, M32]:
                P.append((pre + [asm(o, 3, 1, 2)] + post, [a, k]))
    for o in ("sll", "srl", "sra"):
        for a in vals[::3] + [0x80000001, 0x7ffffffe]:
            for k in range(32):
                P.append((pre + [asm(o, 3, 1, k)] + post, [a, 0]))
    mips_run(cx, "shifts", P, 5)
    P = []
    imms = edge(16)[::1 if cx.T else 3] + [0x7fff, 0x8000, 0xffff, 0]
    for o in ("addi", "addiu", "slti", "sltiu", "andi", "ori", "xori", "lui"):
        for a in vals[::1 if cx.T else 2] + [0, M32, 0xffff8000, 0x8000, 0x7fff, 0xffff7fff]:
            for im in imms:
                P.append((pre + [asm(o, 3, im) if o == "lui" else asm(o, 3, 1, im)] + post, [a, 0]))
    mips_run(cx, "immediate operations", P, 5)


@job("mips_mem")
def _(cx):
    P = []
    datas = [[0x00000000, 0x817263f4, 0xdeadbeef], [M32, 0x7f80ff01, 0x00010203], [0x8000, 0x80008000, 0xffff7fff]]
    rest = [(0x9e3779b9 * k ^ k << 27) & M32 for k in range(16, 64)]
    for o in ("lb", "lh", "lw", "lbu", "lhu"):
        for base, off in itertools.product((0, 4, 5, 6, 7, 8, 12, 64, 124, 128, 192, 252, 256 + 6, M32), (0, 1, 2, 3, 4, 0xfffc, 0xffff)):
            for d in datas:
                P.append(([asm("lw", 1, 60, 0), asm(o, 3, off, 1), asm("sw", 3, 48, 0), asm("j", 3)], d + [0x11223344] * 12 + [base] + rest))
    for o in ("sb", "sh", "sw"):
        for base, off in itertools.product((0, 4, 5, 6, 7, 8, 12, 64, 124, 128, 192, 252, 256 + 6, M32), (0, 1, 2, 3, 4, 0xfffc, 0xffff)):
            for v in (0, M32, 0x817263f4, 0x7f80ff01):
                P.append(([asm("lw", 1, 60, 0), asm("lw", 2, 56, 0), asm(o, 2, off, 1), asm("lw", 3, 4, 0), asm("sw", 3, 48, 0), asm("j", 5)],
                          datas[0] + [0x11223344] * 11 + [v, base] + rest))
    mips_run(cx, "loads and stores", P, 6)
    # every word of both memories
    P = [([asm("lw", 3, 4 * k, 0), asm("sw", 3, 4 * (63 - k), 0), asm("j", 2)], [0x01010101 * i & M32 ^ i << 20 for i in range(64)]) for k in range(64)]
    mips_run(cx, "every data word", P, 4)


@job("mips_branch")
def _(cx):
    vals = [0, 1, 2, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe, M32, 0x10000, 0x8000]
    P = []
    mark = lambda r, k: asm("ori", r, r, 1 << k)

    def prog(br):
        p = [asm("lw", 1, 0, 0), asm("lw", 2, 4, 0), mark(3, 0), br, mark(3, 1), mark(3, 2), mark(3, 3), asm("sw", 3, 8, 0), asm("sw", 31, 12, 0),
             asm("sw", 4, 16, 0), asm("j", 10)]
        return p
    for o in ("beq", "bne"):
        for a, b, off in itertools.product(vals, vals, (2, 3, 4, 1)):
            P.append((prog(asm(o, 1, 2, off)), [a, b]))
    for o in ("blez", "bgtz", "bltz", "bgez", "bltzal", "bgezal"):
        for a, off in itertools.product(vals, (1, 2, 3, 4)):
            P.append((prog(asm(o, 1, off)), [a, 0]))
    for o in ("j", "jal"):
        for t in (4, 5, 6, 7):
            P.append((prog(asm(o, t)), [0, 0]))
    for t in (4, 5, 6, 7):
        P.append((prog(asm("jr", 1)), [4 * t, 0]))
        for d in (31, 4):
            P.append((prog(asm("jalr", d, 1)), [4 * t, 0]))
    # targets with every high bit: the links and the jumps from there
    for hi in [0] + [1 << k for k in range(10, 32)] + [0xfffffc00, 0x7ffffc00, 0xf0000000, 0x0ffffc00]:
        for k in range(3):
            p = prog([asm("jr", 1), asm("jalr", 31, 1), asm("jalr", 4, 1)][k])
            p[5] = [asm("jal", 7), asm("bgezal", 0, 2), asm("jalr", 31, 2)][k]
            p[9] = asm("jal", 12)
            p[10:] = [asm("j", 10), 0, asm("sw", 31, 20, 0), asm("jal", 10)]
            P.append((p, [hi + 20, hi ^ 0x5a000000 | 28]))
    # backward branches: a loop of a given count, with every kind of closing branch
    for n in range(1, 6):
        for cl in ([asm("bne", 1, 0, -2)], [asm("bgtz", 1, -2)], [asm("beq", 1, 0, 2), asm("j", 2)], [asm("blez", 1, 2), asm("j", 2)]):
            P.append(([asm("addi", 1, 0, n), asm("nor", 9, 0, 0), asm("addi", 3, 3, 3), asm("addi", 1, 1, 0xffff)] + cl + [asm("sw", 3, 8, 0), asm("j", 5 + len(cl))], [0, 0]))
    mips_run(cx, "branches", P, 26)
    # a jump to every word of the instruction memory
    P = []
    for k in range(3, 63):
        p = [0] * 64
        p[0], p[1] = asm("addi", 3, 0, k), asm("j", k)
        p[k] = asm("sw", 3, 8, 0)
        p[k + 1] = asm("j", k + 1)
        P.append((p, [0, 0]))
    mips_run(cx, "every instruction word", P, 6)


@job("mips_regs")
def _(cx):
    """every register as destination and as each source; register 0 stays zero"""
    P = []
    for d, s, t in itertools.product(range(32), range(32), (0, 1, 7, 8, 15, 16, 30, 31)):
        p = [asm("lw", s, 0, 0), asm("lw", t, 4, 0), asm("subu", d, s, t), asm("sw", d, 8, 0), asm("sw", s, 12, 0), asm("sw", t, 16, 0), asm("j", 6)]
        P.append((p, [0x12345678, 0x9abcdef1]))
    mips_run(cx, "registers", P, 7)
    # all registers hold their own value at once
    p = [asm("addi", r, 0, 257 * r) for r in range(32)] + [asm("sw", r, 128 + 4 * r - 128, 0) for r in range(31)] + [asm("j", 63)]
    mips_run(cx, "registers", [(p, [])], 66)


@job("mips_seq")
def _(cx):
    """all sequences of a few instructions over three registers"""
    S = [asm("add", 1, 1, 2), asm("sub", 2, 1, 3), asm("xor", 3, 1, 2), asm("sltu", 3, 2, 1), asm("sll", 1, 3, 5), asm("sra", 2, 2, 3), asm("sw", 1, 16, 0),
         asm("lw", 3, 16, 0), asm("sb", 2, 17, 0), asm("lh", 1, 18, 0), asm("beq", 1, 3, 2), asm("bltz", 2, 3), asm("jal", 7), asm("lui", 2, 0x8001)]
    if cx.T:
        S += [asm("slt", 1, 3, 2), asm("nor", 1, 1, 1), asm("sh", 3, 18, 0), asm("lbu", 2, 17, 0), asm("bgtz", 1, 2), asm("addi", 0, 1, 5)]
    P = []
    for q in itertools.product(S, repeat=3):
        P.append(([asm("lw", 1, 0, 0), asm("lw", 2, 4, 0), asm("lw", 3, 8, 0)] + list(q) +
                  [asm("sw", 1, 20, 0), asm("sw", 2, 24, 0), asm("sw", 3, 28, 0), asm("sw", 31, 32, 0), asm("j", 10)], [0x80000003, 0x00ff7f01, 0xfffffff0, 0, 0xa5a5c3c3]))
    mips_run(cx, "instruction sequences", P, 12)


def source(path):
    """assembler for the bundled hamming.s: labels, registers, decimal numbers"""
    ls, lab = [], {}
    for l in open(path):
        l = l.split("#")[0].strip()
        m = re.match(r"(\w+):(.*)", l)
        if m:
            lab[m.group(1)] = len(ls)
            l = m.group(2).strip()
        if l and not l.startswith("."):
            ls.append(l)
    out = []
    for i, l in enumerate(ls):
        m = re.match(r"(\w+)\s*(.*)", l)
        op, a = m.group(1), [x.strip() for x in m.group(2).split(",")]
        v = []
        for x in a:
            m = re.fullmatch(r"(-?\w+)?\(\$(\w+)\)", x)
            if m:
                v += [int(m.group(1) or 0), int(m.group(2))]
            elif x[0] == "$":
                v.append(int(x[1:]))
            elif x in lab:
                v.append(lab[x] if op in ("j", "jal") else lab[x] - i)
            else:
                v.append(int(x, 0))
        out.append(asm(op, *v))
    return out


@job("mips_hamming")
def _(cx):
    p = source(os.path.join(CS, "mips/test/benchmarks/hamming.s"))
    sim = mips_sim()
    cases = []
    for n in range(0, 4):
        for ab in itertools.product(range(2), repeat=2 * n):
            cases.append((n, [1 + x for x in ab[:n]], [1 + x for x in ab[n:]]))
    for n in (5, 8, 15):
        for k in range(n + 1):
            cases.append((n, [7 * i & M32 for i in range(n)], [7 * i + (1 << i if i < k else 0) & M32 for i in range(n)]))
    cyc = 8 + 9 * max(c[0] for c in cases)
    data = [[n, 0] + a + b for n, a, b in cases]
    mips_run(cx, "hamming.s", [(p, d) for d in data], cyc)
    outs = sim.run([{"g_init": [pack(p, 64)] * len(data), "e_init": [pack(d, 64) for d in data]}], len(data), 0, cyc)
    got = lanes(outs[-1]["o"][32:64], len(data))
    for (n, a, b), g in zip(cases, got):
        if g != sum(x != y for x, y in zip(a, b)):
            cx.bad("Lite_MIPS", "hamming.s of %s and %s gives %d" % (a, b, g))
            return


# ------------------------------------------------------------------ the ARM processor (a23)
class Arm:
    """26-bit ARM, user mode: one instruction per step, until an instruction that branches to itself"""

    def __init__(self, code, g, e, size=64, csize=64):
        self.mem = [list(code) + [0] * (csize - len(code)), list(g) + [0] * (size - len(g)), list(e) + [0] * (size - len(e)), [0] * size, [0] * size]
        self.r, self.f, self.pc, self.n, self.err = [0] * 16, 0, 0, 0, None   # f: N Z C V

    def at(self, a):
        b, i = a >> 24, (a & 0xffffff) >> 2
        if b > 4 or i >= len(self.mem[b]):
            self.err = "address %08x" % a
            return 0, 0
        return b, i

    def rd(self, a):
        b, i = self.at(a)
        return self.mem[b][i]

    def wr(self, a, v):
        b, i = self.at(a)
        if b not in (1, 2):   # the parties' memories are constant
            self.mem[b][i] = v & M32

    def reg(self, n, ahead):
        return self.pc + ahead & 0x3fffffc if n == 15 else self.r[n]

    def psr(self, n, ahead):
        """R15 as second operand, as stored value and as link: with the flags (the core's I and F bits are always set, its mode bits 0)"""
        return self.pc + ahead & 0x3fffffc | self.f << 28 | 3 << 26 if n == 15 else self.r[n]

    def cond(self, c):
        N, Z, C, V = self.f >> 3, self.f >> 2 & 1, self.f >> 1 & 1, self.f & 1
        k = [Z, C, N, V, C and not Z, N == V, not Z and N == V, 1][c >> 1]
        return bool(k) != bool(c & 1)

    def shreg(self, w, immonly):
        """operand and carry out"""
        c = self.f >> 1 & 1
        ty, by = w >> 5 & 3, w & 16 and not immonly
        v = self.psr(w & 15, 8)
        s = self.reg(w >> 8 & 15, 12) & 255 if by else w >> 7 & 31
        if s == 0:
            if by or ty == 0:
                return v, c
            if ty == 3:
                return c << 31 | v >> 1, v & 1
            s = 32
        if ty == 0:
            return (v << s & M32, v >> 32 - s & 1) if s <= 32 else (0, 0)
        if ty == 1:
            return (v >> s, v >> s - 1 & 1) if s <= 32 else (0, 0)
        if ty == 2:
            x = sg(v, 32)
            return x >> min(s, 32) & M32, x >> min(s - 1, 31) & 1
        s &= 31
        v = (v >> s | v << 32 - s) & M32
        return v, v >> 31

    def setpc(self, v, fl):
        self.pc = v & 0x3fffffc
        if fl:
            self.f = v >> 28

    def step(self):
        """False at the end"""
        w, here, r = self.rd(self.pc), self.pc, self.r
        if w == 0xeafffffe:
            return False
        self.n += 1
        self.pc = here
        if not self.cond(w >> 28):
            self.pc = here + 4
            return True
        if w & 0x0fc000f0 == 0x90:
            v = r[w & 15] * r[w >> 8 & 15] + (r[w >> 12 & 15] if w & 1 << 21 else 0) & M32
            r[w >> 16 & 15] = v
            if w & 1 << 20:
                self.f = self.f & 3 | v >> 31 << 3 | (not v) << 2
            self.pc = here + 4
        elif w & 0x0c000000 == 0:
            imm, by, S = w >> 25 & 1, not w >> 25 & 1 and w & 16, w >> 20 & 1
            if by and w & 0x80:
                self.err = "instruction %08x" % w
                return False
            op, rd = w >> 21 & 15, w >> 12 & 15
            if by and 15 in (w & 15, w >> 8 & 15, w >> 16 & 15) or w & 0xf0 == 0x90 and not imm:
                self.err = "instruction %08x" % w
                return False
            if imm:
                k = (w >> 8 & 15) * 2
                b = w & 255
                b, co = ((b >> k | b << 32 - k) & M32, (b >> k | b << 32 - k) >> 31 & 1) if k else (b, self.f >> 1 & 1)
            else:
                b, co = self.shreg(w, False)
            a = self.reg(w >> 16 & 15, 8)
            C, V, ar = self.f >> 1 & 1, self.f & 1, None
            if op in (0, 8):
                v = a & b
            elif op in (1, 9):
                v = a ^ b
            elif op == 12:
                v = a | b
            elif op == 13:
                v = b
            elif op == 14:
                v = a & ~b & M32
            elif op == 15:
                v = ~b & M32
            else:
                ar = {2: (a, ~b & M32, 1), 10: (a, ~b & M32, 1), 3: (b, ~a & M32, 1), 4: (a, b, 0), 11: (a, b, 0), 5: (a, b, C), 6: (a, ~b & M32, C), 7: (b, ~a & M32, C)}[op]
                v = sum(ar)
                co, v = v >> 32, v & M32
                V = (~(ar[0] ^ ar[1]) & (ar[0] ^ v)) >> 31 & 1
            self.pc = here + 4
            nf = v >> 31 << 3 | (not v) << 2 | co << 1 | V
            if 8 <= op <= 11:
                if not S:
                    self.err = "instruction %08x" % w
                    return False
                self.f = nf
            elif rd == 15:
                self.setpc(v, S)
            else:
                r[rd] = v
                if S:
                    self.f = nf
        elif w & 0x0c000000 == 0x04000000:
            if w & 0x02000010 == 0x02000010:
                self.err = "instruction %08x" % w
                return False
            off = self.shreg(w, True)[0] if w >> 25 & 1 else w & 0xfff
            rn, rd = w >> 16 & 15, w >> 12 & 15
            base = self.reg(rn, 8)
            full = (base + off if w >> 23 & 1 else base - off) & M32
            pre = w >> 24 & 1
            a = full if pre else base
            k = 8 * (a & 3)
            if w >> 20 & 1:
                v = self.rd(a & ~3)
                v = v >> k & 255 if w >> 22 & 1 else (v >> k | v << 32 - k) & M32
            else:
                v = self.psr(rd, 12)
                if w >> 22 & 1:
                    v = self.rd(a & ~3) & ~(255 << k) | (v & 255) << k
                self.wr(a & ~3, v)
            if (not pre or w >> 21 & 1) and rn != 15:
                r[rn] = full
            self.pc = here + 4
            if w >> 20 & 1:
                if rd == 15:
                    self.setpc(v, 0)
                else:
                    r[rd] = v
        elif w & 0x0e000000 == 0x08000000:
            rn, n = w >> 16 & 15, bin(w & 0xffff).count("1")
            up, pre, load, S, wb = (w >> k & 1 for k in (23, 24, 20, 22, 21))
            base = r[rn]
            a = (base if up else base - 4 * n) + (4 if up == pre else 0) & M32
            fin = (base + 4 * n if up else base - 4 * n) & M32
            self.pc = here + 4
            if load and wb:
                r[rn] = fin
            first = True
            for i in range(16):
                if w >> i & 1:
                    if load:
                        v = self.rd(a)
                        if i == 15:
                            self.setpc(v, S)
                        else:
                            r[i] = v
                    else:
                        self.wr(a, self.psr(i, 8))   # self.pc is the next instruction
                        if first and wb:
                            r[rn] = fin
                    first = False
                    a = a + 4 & M32
            if wb and not load:
                r[rn] = fin
        elif w & 0x0e000000 == 0x0a000000:
            if w >> 24 & 1:
                r[14] = self.psr(15, 4)
            self.pc = here + 8 + (sg(w & 0xffffff, 24) << 2) & 0x3fffffc
        else:
            self.err = "instruction %08x" % w
            return False
        return self.err is None

    def run(self, limit):
        while self.n < limit and self.step():
            pass
        return self.err is None and self.n < limit


_a23 = {}


def a23_sim(csize=64):
    if csize not in _a23:
        files = ["a23/" + x for x in sorted(os.listdir(os.path.join(CS, "a23"))) if x.endswith(".v")]
        _a23[csize] = Sim(files, "a23_gc_main", {"CODE_MEM_SIZE": csize}, ["a23"])
    return _a23[csize]


def a23_run(cx, what, progs, limit, csize=64, steps=400, batch=8192, und=(0,), head=True):
    """progs: [(code, garbler words, evaluator words)]; the output memory is compared when the terminate signal first rises"""
    sim = a23_sim(csize)
    for lo in range(0, len(progs), batch):
        part = [(HEAD + p[0], p[1], p[2]) if head else p for p in progs[lo:lo + batch]]
        part = [(p, Arm(p[0], p[1], p[2], csize=csize)) for p in part]
        ok = [(p, m) for p, m in part if m.run(steps)]
        if len(ok) != len(part):
            bad = [m for p, m in part if m not in [x for _, x in ok[:1]] and not (m.err is None and m.n < steps)]
            raise Exception("%s: reference does not run %d of %d programs, e.g. %s" % (what, len(part) - len(ok), len(part), bad[0].err or "no end"))
        W = len(ok)
        full = (1 << W) - 1
        want = [planes(c, 32) for c in zip(*[m.mem[3] for _, m in ok])]
        st = {"p_init": [pack(p[0], csize) for p, _ in ok], "g_init": [pack(p[1], 64) for p, _ in ok], "e_init": [pack(p[2], 64) for p, _ in ok]}
        for u in und:
            done, fail = [0], []

            def watch(v, outs):
                t = len(outs) - 1
                o = outs[t]
                outs[t] = None
                new = o["terminate"][0] & ~done[0]
                if new:
                    for k, ps in enumerate(want):
                        for j, p in enumerate(ps):
                            d = (o["o"][32 * k + j] ^ p) & new
                            if d and not fail:
                                i = (d & -d).bit_length() - 1
                                fail.append((t, i, "output word %d is %08x, expected %08x" % (k, lane(o["o"][32 * k:32 * k + 32], i), ok[i][1].mem[3][k])))
                done[0] |= new
                return done[0] == full or bool(fail)
            n = len(sim.run([st], W, u, limit, watch=watch))
            cx.evals += W * n
            if not fail and done[0] != full:
                d = ~done[0] & full
                i = (d & -d).bit_length() - 1
                fail = [(n, i, "the terminate signal does not rise within %d cycles (the program takes %d instructions)" % (limit, ok[i][1].n))]
            if fail:
                t, i, m = fail[0]
                p = ok[i][0]
                cx.bad("a23_gc_main", "%s: cycle %d: %s; program %s garbler %s evaluator %s" %
                       (what, t, m, " ".join("%08x" % x for x in p[0])[:450], " ".join("%08x" % x for x in p[1][:10]), " ".join("%08x" % x for x in p[2][:4])))
                return False
            cx.cnt["max cycles"] = max(cx.cnt.get("max cycles", 0), n)
        cx.cnt[what] = cx.cnt.get(what, 0) + W
        cx.outc += len({tuple(m.mem[3]) for _, m in ok})
        cx.samples.append("%s: %s -> %s" % (what, " ".join("%08x" % x for x in ok[-1][0][0][:16]), " ".join("%08x" % x for x in ok[-1][1].mem[3][:10])))
    return True


AL = 14 << 28


def dp(op, S, rd, rn, sh, c=14):
    return c << 28 | op << 21 | S << 20 | rn << 16 | rd << 12 | sh


def im(v, rot=0):
    return 1 << 25 | (rot // 2) << 8 | v


def rs(rm, ty=0, k=0):
    return k << 7 | ty << 5 | rm


def rr(rm, ty, r):
    return r << 8 | ty << 5 | 16 | rm


def ldst(load, rd, rn, off, P=1, U=1, Bt=0, Wb=0, c=14):
    return c << 28 | 1 << 26 | P << 24 | U << 23 | Bt << 22 | Wb << 21 | load << 20 | rn << 16 | rd << 12 | off


def lsm(load, rn, regs, P=0, U=1, S=0, Wb=0, c=14):
    return c << 28 | 1 << 27 | P << 24 | U << 23 | S << 22 | Wb << 21 | load << 20 | rn << 16 | sum(1 << x for x in regs)


def bra(here, to, link=0, c=14):
    return c << 28 | 5 << 25 | link << 24 | (to - here - 2) & 0xffffff


END = 0xe3a0f014   # back to start.S, whose last instruction (at address 0x14) branches to itself
HEAD = [bra(0, 10), 0, 0, 0, 0, 0xeafffffe, 0, 0, 0, 0]   # the layout of start.S
PRE = [dp(13, 0, 10, 0, im(1, 8)), lsm(1, 10, [0, 1, 2, 5, 6]), dp(10, 1, 0, 5, rs(6))]   # r0 r1 r2 = operands, flags of r5 - r6


def tail(regs=(0, 1, 2, 8, 9)):
    """flags into r9, registers out"""
    return [dp(13, 0, 9, 0, im(0)), dp(12, 0, 9, 9, im(8), 4), dp(12, 0, 9, 9, im(4), 0), dp(12, 0, 9, 9, im(2), 2), dp(12, 0, 9, 9, im(1), 6),
            dp(13, 0, 11, 0, im(3, 8)), lsm(0, 11, list(regs)), END]


FL = [(1, 2), (2, 1), (1, 1), (0x80000000, 1), (0x7fffffff, 0x80000000)]
PAIRS = [(0, 0), (1, 0), (0, 1), (M32, 1), (0x7fffffff, 1), (0x80000000, 0x80000000), (0x80000000, 1), (0x12345678, 0x9abcdef0), (M32, M32), (0x55555555, 0xaaaaaaaa),
         (0x80000001, 0x7fffffff), (5, 0xfffffffb)]


def shapes(T):
    out = [im(0), im(255), im(0x80, 8), im(1, 2), im(0x3f, 30)]
    for ty in range(4):
        for k in (range(32) if T else (0, 1, 2, 16, 30, 31)):
            out.append(rs(1, ty, k))
    out += [rr(1, ty, 2) for ty in range(4)]
    return out


def dpjob(ops):
    def f(cx):
        P = []
        pairs = PAIRS if cx.T else PAIRS[3:10]
        for op in ops:
            for S in ((1,) if 8 <= op <= 11 else (0, 1)):
                for sh in shapes(cx.T):
                    by = not sh >> 25 & 1 and sh & 16
                    for k in ((0, 1, 2, 31, 32, 33, 64, 255, 0x101) if by else (7,)):
                        for a, b in pairs:
                            for x, y in (FL if cx.T else FL[1:4]):
                                P.append((PRE + [dp(op, S, 8, 0, sh)] + tail(), [a, b, k, x, y], []))
        for op in ops:   # the program counter as operand
            for S in ((1,) if 8 <= op <= 11 else (0, 1)):
                for rn, sh in ((15, rs(1)), (0, rs(15)), (15, im(4)), (0, rs(15, 0, 2)), (0, rs(15, 3, 28))):
                    P.append((PRE + [dp(op, S, 8, rn, sh)] + tail(), [0x1234, 0xff, 1, 1, 2], []))
        a23_run(cx, "data processing", P, 80)
    return f


for _i, _o in enumerate(((0, 1), (2, 3), (4, 5), (6, 7), (8, 9, 10, 11), (12, 13), (14, 15))):
    JOBS["a23_data%d" % _i] = dpjob(_o)
    JOBS["a23_data%d" % _i].cost = 5


@job("a23_mul")
def _(cx):
    P = []
    vs = edge(32, True)[::2 if not cx.T else 1]
    for a, b in itertools.product(vs, vs):
        for acc, S in ((0, 0), (0, 1), (1, 1)):
            P.append((PRE + [AL | acc << 21 | S << 20 | 8 << 16 | 2 << 12 | 1 << 8 | 9 << 4 | 0] + tail(), [a, b, 0x80000005, 1, 2], []))
    a23_run(cx, "multiply", P, 140)


@job("a23_cond")
def _(cx):
    """every condition under every combination of the flags, for each kind of instruction"""
    P = []
    for c, fl in itertools.product(range(15 if not cx.T else 16), range(16)):
        for kind in range(12):
            pre = [dp(13, 0, 10, 0, im(1, 8)), lsm(1, 10, [0, 1, 2, 5]), dp(13, 0, 8, 0, im(7)), dp(13, 0, 12, 0, im(3, 8)), dp(13, 1, 15, 0, rs(5))]
            ins = [dp(4, 1, 8, 0, rs(1), c), c << 28 | 8 << 16 | 1 << 8 | 9 << 4, ldst(1, 8, 10, 4, c=c), ldst(0, 0, 12, 128, c=c),
                   lsm(1, 10, [1, 2, 8], c=c), lsm(0, 12, [0, 1], P=1, Wb=1, c=c), bra(5, 7, 1, c),
                   bra(5, 7, 0, c), dp(13, 0, 15, 0, rs(2), c), ldst(1, 15, 10, 8, c=c), lsm(1, 10, [0, 1, 15], c=c), dp(4, 0, 15, 15, im(0), c)][kind]
            p = pre + [ins, dp(4, 0, 8, 8, im(64))] + tail((0, 1, 2, 8, 9, 12, 14))
            P.append((p, [3, 5, 40 + 28, 40 + 20 | fl << 28 | 3], []))
    a23_run(cx, "conditions", P, 140)


@job("a23_ldst")
def _(cx):
    P = []
    for base, load in itertools.product((1, 2, 3, 4, 0), (0, 1)):
        for Pb, U, Bt, Wb in itertools.product((0, 1), repeat=4):
            if not Pb and Wb:
                continue   # forced user mode
            for lo in (0, 1, 2, 3):
                for off in (im_off for im_off in (0, 1, 2, 3, 8, 1 << 25 | rs(2), 1 << 25 | rs(2, 0, 2), 1 << 25 | rs(2, 1, 1), 1 << 25 | rs(2, 2, 31), 1 << 25 | rs(2, 3, 30), 1 << 25 | rs(2, 3, 0), 1 << 25 | rs(2, 1, 0), 1 << 25 | rs(2, 2, 0))):
                    if not cx.T and (lo * 7 + (off & 7) + Pb) % 2:
                        continue
                    # words 15 to 18 of the memory hold a pattern; code memory: words 49 to 52
                    at = base << 24 | (200 if base == 0 else 64) + lo
                    pre = [dp(13, 0, 10, 0, im(1, 8)), lsm(1, 10, [0, 1, 2, 3]), dp(13, 0, 12, 0, rs(0))]
                    fill = [ldst(0, 1, 12, 0), ldst(0, 3, 12, 4), ldst(0, 1, 12, 8), ldst(0, 3, 12, 4, U=0)] if base in (3, 4) and lo == 0 else []
                    pre.append(dp(10, 1, 0, 3, rs(1)) if lo & 1 else dp(10, 1, 0, 1, rs(3)))   # carry set or clear
                    p = pre + fill + [ldst(load, 8 if load else 3, 0, off, Pb, U, Bt, Wb)]
                    back = [dp(14, 0, 12, 12, im(3)), lsm(1, 12, [1, 2, 3], P=0), dp(2, 0, 12, 12, im(4)), ldst(1, 5, 12, 0)]
                    p += back + tail((0, 1, 2, 3, 5, 8, 9))
                    code = p + [0] * (39 - len(p)) + [0x89abcdef, 0x01f2e3d4, 0x76543210, 0xcafef00d]
                    mem = [0] * 15 + [0x8899aabb, 0x13579bdf, 0xfedc7654, 0x2468ace0]
                    P.append((code, [at, 0x81726354, 0xfffffff8 if lo & 1 and off == (1 << 25 | rs(2, 3, 0)) else 4, 0xf0e1d2c3] + mem[4:], mem))
    a23_run(cx, "single loads and stores", P, 120)


@job("a23_ldm")
def _(cx):
    P = []
    lists = [[k] for k in range(0, 16)] + [[0, 15 - 1], [1, 2, 3], [0, 4, 8, 14], list(range(0, 9)), list(range(15)), [5, 6], [2, 9, 12],
                                           list(range(16)), [0, 15], [4, 14, 15], [x for x in range(16) if x != 13], list(range(8, 16))]
    for regs in lists:
        for Pb, U, Wb, load in itertools.product((0, 1), repeat=4):
            base = 13
            if base in regs and Wb and load:
                continue
            for mem in (((1,) if 15 in regs else (1, 4)) if load else (3, 4)):
                pre = [dp(13, 0, 10, 0, im(1, 8)), lsm(1, 10, list(range(0, 10))), dp(13, 0, 13, 0, im(mem, 8)), dp(12, 0, 13, 13, im(96)),
                       dp(13, 0, 10, 0, im(0x5a)), dp(13, 0, 11, 0, im(0xa5)), dp(13, 0, 12, 0, im(0x77)), dp(13, 0, 14, 0, im(0x99))]
                if mem == 4 and load:
                    pre += [dp(2, 0, 12, 13, im(40)), lsm(0, 12, list(range(0, 12))), dp(4, 0, 12, 12, im(48)), lsm(0, 12, list(range(0, 10)))]
                p = pre + [lsm(load, 13, regs, Pb, U, 0, Wb)]
                if mem == 4:
                    # copy: stack region into the output
                    p += [dp(13, 0, 9, 0, im(3, 8)), lsm(0, 9, [0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 12, 13, 14], Wb=1), dp(13, 0, 8, 0, im(4, 8)), dp(12, 0, 8, 8, im(32)),
                          lsm(1, 8, list(range(8)), Wb=1), lsm(0, 9, list(range(8)), Wb=1), lsm(1, 8, list(range(8)), Wb=1), lsm(0, 9, list(range(8)), Wb=1),
                          lsm(1, 8, list(range(8)), Wb=1), lsm(0, 9, list(range(8)), Wb=1), END]
                else:
                    p += [dp(13, 0, 9, 0, im(3, 8)), dp(12, 0, 9, 9, im(192)), lsm(0, 9, [0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 12, 13, 14]), END]
                words = [0x1000 + 0x111 * k for k in range(64)]
                if load and 15 in regs:   # the last word loaded is the address of the next instruction, with flags that a load without S ignores
                    words[24 + (len(regs) - 1 if U else -1) + (1 if U == Pb else 0)] = 4 * (len(HEAD) + len(pre) + 1) | 0xa0000000
                P.append((p, words, []))
    a23_run(cx, "multiple loads and stores", P, 320)


@job("a23_branch")
def _(cx):
    P = []
    for link in (0, 1):
        for dist in range(1, 8):
            body = [dp(12, 0, 8, 8, im(1 << k)) for k in range(8)]
            p = PRE + [dp(13, 0, 8, 0, im(0)), bra(4, 5 + dist, link)] + body + tail((0, 1, 2, 8, 9, 14))
            for fl in FL:
                P.append((p, [1, 2, 3] + list(fl), []))
    for n in range(1, 12):   # loops, backwards
        p = PRE + [dp(13, 0, 8, 0, im(0)), dp(4, 0, 8, 8, rs(0)), dp(2, 1, 1, 1, im(1)), bra(6, 4, 0, 1)] + tail()
        P.append((p, [3, n, 0, 1, 2], []))
        p = PRE + [dp(13, 0, 8, 0, im(0)), bra(4, 6), bra(5, 9), dp(4, 0, 8, 8, rs(0)), dp(2, 1, 1, 1, im(1)), bra(8, 6, 0, 12)] + tail()
        P.append((p, [3, n, 0, 1, 2], []))
    for t in range(6, 12):   # mov pc / ldr pc / ldm pc / movs pc / add pc; call and return
        for k in range(5):
            w = [dp(13, 0, 15, 0, rs(0)), ldst(1, 15, 10, 0), lsm(1, 10, [1, 15], P=0), dp(13, 1, 15, 0, rs(0)), dp(4, 0, 15, 15, rs(1))][k]
            to = 40 + t * 4
            g = [to | 9 << 28 | 3, to | 5 << 28, 5, 1, 2]
            if k == 1:
                g[0] = to
            if k == 4:
                g[1] = 4 * t - 24
            P.append((PRE + [dp(13, 0, 8, 0, im(0)), w] + [dp(12, 0, 8, 8, im(1 << j)) for j in range(7)] + tail(), g, []))
    for t, S, nz in itertools.product((6, 9), (0, 1), range(16)):   # ldm with pc, with and without the flags
        to = 40 + t * 4
        for rl in ([15], [1, 15], [1, 2, 3, 15], [8, 15]):
            for c in (14, 0, 1, 4):
                g = [0, 0, 0, 1 + nz, nz + 2]
                g[len(rl) - 1] = to | nz << 28
                if nz & 1 and len(rl) < 4:
                    g[3:] = FL[nz // 2 % len(FL)]
                P.append((PRE + [dp(13, 0, 8, 0, im(0)), lsm(1, 10, rl, P=0, S=S, c=c)] + [dp(12, 0, 8, 8, im(1 << j)) for j in range(7)] + tail(), g, []))
    # a function called twice, a function calling another one, recursion
    ret = dp(13, 0, 15, 0, rs(14))
    p = PRE + [dp(13, 0, 8, 0, im(0)), bra(4, 20, 1), dp(12, 0, 8, 8, im(1)), bra(6, 20, 1), dp(12, 0, 8, 8, im(2))] + tail()
    p += [END] * (20 - len(p)) + [dp(4, 1, 8, 8, rs(0)), ret]
    P += [(p, [a, 1, 2, x, y], []) for a in (0, 1, 16, M32) for x, y in FL]
    push, pop = lsm(0, 13, [4, 14], P=1, U=0, Wb=1), lsm(1, 13, [4, 15], P=0, U=1, Wb=1)
    p = PRE + [dp(13, 0, 13, 0, im(4, 8)), dp(12, 0, 13, 13, im(1, 24)), dp(13, 0, 8, 0, im(0)), bra(6, 20, 1)] + tail((0, 1, 2, 8, 9, 13))
    p += [END] * (20 - len(p)) + [push, dp(13, 0, 4, 0, rs(1)), dp(4, 0, 8, 8, rs(4)), dp(2, 1, 1, 1, im(1)), bra(24, 20, 1, 1), dp(4, 0, 8, 8, rs(4, 0, 8)), pop]
    P += [(p, [1, n, 2, 1, 2], []) for n in range(1, 13)]
    a23_run(cx, "branches", P, 260)


def seqjob(first):
    def f(cx):
        S = [dp(4, 1, 0, 1, rs(2)), dp(2, 1, 1, 0, rs(2, 0, 3)), dp(13, 0, 2, 0, rr(1, 3, 0)), dp(5, 1, 2, 1, im(255)), ldst(1, 0, 12, 0), ldst(0, 1, 12, 0), ldst(1, 1, 12, 4, Wb=1),
             ldst(0, 2, 12, 1, Bt=1), lsm(1, 12, [0, 1], Wb=1), lsm(0, 12, [1, 2], P=1), AL | 1 << 20 | 0 << 16 | 1 << 8 | 9 << 4 | 2, dp(12, 0, 1, 1, im(1), 4), dp(1, 1, 0, 0, rs(1), 2),
             bra(0, 2), ldst(1, 2, 15, 4), dp(13, 0, 0, 0, rs(15))]
        if cx.T:
            S += [dp(7, 1, 1, 2, rs(0, 2, 1)), ldst(1, 2, 12, 3), dp(10, 1, 0, 0, rs(1)), bra(0, 2, 0, 1)]
        P = []
        for q in itertools.product(S[first::4], S, S):
            p = PRE + [dp(13, 0, 12, 0, im(4, 8)), dp(12, 0, 12, 12, im(16)), ldst(0, 0, 12, 0), ldst(0, 1, 12, 4)] + list(q) + \
                [dp(14, 0, 7, 12, im(255)), lsm(1, 7, [3, 4, 5, 6, 8], P=1, U=1), lsm(1, 12, [6, 8])] + tail((0, 1, 2, 3, 4, 5, 6, 8, 9, 12))
            P.append((p, [0x80000010, 0x12345678, 0x7fffffff, 5, 3], []))
        a23_run(cx, "instruction sequences", P, 180)
    return f


for _i in range(4):
    JOBS["a23_seq%d" % _i] = seqjob(_i)
    JOBS["a23_seq%d" % _i].cost = 4


# ------------------------------------------------------------------ the programs the repository ships for the ARM processor
def words(path):
    with open(path) as f:
        return [int(x, 16) for x in f.read().split()]


IMAGES = [("mul", 10), ("compare", 302), ("sum", 325), ("hamming", 641), ("matrix-mul", 257), ("mem-test", 263), ("temp", 617), ("cordic", 464), ("sbox", 225)]   # with instructions executed
LONG = [("dijkstra", 2432), ("bubble-sort", 4883)]


def image(name):
    d = os.path.join(os.path.dirname(CS), "a23", name)
    return words(d + "/p.txt"), words(d + "/test/g.txt"), words(d + "/test/e.txt")


def imgjob(names):
    def f(cx):
        for name in names:
            if not cx.T and name in dict(LONG):
                continue
            code, g, e = image(name)
            cs = 64
            while cs < len(code):
                cs *= 2
            P = [(code, g, e)]
            for k in range(7):   # other contents of the parties' memories
                a = [edge(32, True)[(i * 5 + 3 * k) % len(edge(32, True))] for i in range(64)]
                b = [edge(32, True)[(i * 11 + 7 * k + 1) % len(edge(32, True))] for i in range(64)]
                P.append((code, a, b))
            P = [p for p in P if Arm(*p, csize=cs).run(9000)]
            if not P:
                raise Exception("%s: the program does not end" % name)
            a23_run(cx, name, P, 24000, csize=cs, steps=9000, head=False, und=(0, 1) if name in ("mul", "sum") else (0,))
    return f


for _k, (_n, _c) in enumerate(IMAGES):
    JOBS["image_" + _n] = imgjob([_n])
    JOBS["image_" + _n].cost = _c / 60
for _n, _c in LONG:
    JOBS["image_" + _n] = imgjob([_n])
    JOBS["image_" + _n].cost = _c / 60


def flow(cx, names, party):
    """the documented flow: processor -> netlist -> circuit file -> evaluator and two parties, each with the shipped program files"""
    import subprocess, cli, hdlmap
    import build as B
    sim = a23_sim()
    text, ports, width, ng = hdlmap.emit(sim, {})
    b = B.Builder()
    d = os.path.join(cx.scratch, "net-a23-%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    nv, ns = os.path.join(d, "n.v"), os.path.join(d, "n.scd")
    with open(nv, "w") as f:
        f.write(text)

    def tool(main, args, timeout=800):
        p = subprocess.run([os.path.join(d, "t")] + args, executable=b.tool(main), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=d, timeout=timeout)
        return p.returncode, p.stdout.decode("latin1")
    rc, _ = tool("scd/v_2_scd_main.cpp", ["-i", nv, "-o", ns])
    if rc:
        cx.bad(sim, "the translator refuses the netlist of the processor (%d cells)" % ng)
        return
    cx.cnt["cells"] = ng
    A = os.path.join(os.path.dirname(CS), "a23")
    for name in names:
        code, g, e = image(name)
        m = Arm(code, g, e)
        if not m.run(9000):
            raise Exception(name)
        want = sum(w << 32 * i for i, w in enumerate(m.mem[3]))
        num = lambda s: [int(x, 16) for x in s.split()] if re.fullmatch("[0-9A-Fa-f\\s]*", s) else s
        f = [A + "/" + name + x for x in ("/p.txt", "/test/g.txt", "/test/e.txt")]
        rc, out = tool("scd/scd_evaluator_main.cpp", ["-i", ns, "-c", "3000", "--p_init", f[0], "--g_init", f[1], "--e_init", f[2], "-t", "1", "--output_mode", "2"])
        cx.cnt["evaluator runs"] = cx.cnt.get("evaluator runs", 0) + 1
        cx.evals += 1
        if rc or num(out) != [want]:
            cx.bad(sim, "%s: the plaintext evaluator (status %s) prints %s, the program computes %s" % (name, rc, out.strip()[-300:], ("%X" % want)[-300:]))
            return
        if name in party:
            lab = cli.Lab(d, 0, {"garbled_circuit_main": b.tool("garbled_circuit/garbled_circuit_main.cpp")})
            lab.port = 32000 + (os.getpid() * 37) % 900
            com = ["-i", ns, "-c", "3000", "-t", "1", "--output_mode", "2", "--output_mask", "0", "--p_init", f[0]]
            r = lab.two("garbled_circuit_main", ["-a"] + com + ["--init", f[1]], ["-b"] + com + ["--init", f[2]], "-p")
            cx.cnt["two-party runs"] = cx.cnt.get("two-party runs", 0) + 1
            if r[0][0] or r[1][0] or num(r[1][1]) != [want]:
                cx.bad(sim, "%s: the two parties (status %s, %s) compute %s, the program computes %s" % (name, r[0][0], r[1][0], r[1][1].strip()[-300:], ("%X" % want)[-300:]))
                return


FLOW = [(["mul", "matrix-mul"], ["mul"], ["mul", "matrix-mul"]), (["compare"], [], []), (["sum"], [], ["sum"])]   # evaluator, two parties, two parties (thorough)
for _k, (_a, _b, _t) in enumerate(FLOW):
    JOBS["a23_flow%d" % _k] = lambda cx, a=_a, b=_b, t=_t: flow(cx, a, t if cx.T else b)
    JOBS["a23_flow%d" % _k].cost = 50
JOBS["a23_flow3"] = lambda cx: flow(cx, ["hamming", "mem-test", "temp"], []) if cx.T else None
