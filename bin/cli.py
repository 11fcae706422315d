"""C26: the project's own executables as separate processes, over the loopback network.
Every option combination of a bounded set is enumerated; the oracle is a circuit interpreter."""
import hashlib, itertools, json, os, re, subprocess, threading, time, queue
import build as B

OPS = {8: lambda a, b: a & b, 4: lambda a, b: a & (1 - b), 7: lambda a, b: 1 - (a & b), 11: lambda a, b: 1 - (a & (1 - b)),
       14: lambda a, b: a | b, 13: lambda a, b: a | (1 - b), 1: lambda a, b: 1 - (a | b), 2: lambda a, b: 1 - (a | (1 - b)),
       6: lambda a, b: a ^ b, 9: lambda a, b: 1 - (a ^ b), 12: lambda a, b: 1 - a}
# 2: NORN and 11: NANDN follow the table in util/common.h, checked by C23 and against the C++ model


def mix(v):
    return int.from_bytes(hashlib.sha256(str(v).encode()).digest(), "big")


class Circ:
    def __init__(self, sizes, gates=(), out=(), D=(), I=(), term=0):
        self.sizes = list(sizes)  # p_init g_init e_init p g e
        self.g, self.out, self.D, self.I, self.term = list(gates), list(out), list(D), list(I), term

    def lo(self, k):
        return sum(self.sizes[:k])

    def q(self, i):
        return sum(self.sizes) + i

    def w(self, i):
        return sum(self.sizes) + len(self.D) + i

    def scd(self):
        h = self.sizes + [len(self.D), len(self.out), self.term, len(self.g)]
        ls = [h, [x[0] for x in self.g], [-1 if x[2] == 12 else x[1] for x in self.g], [x[2] for x in self.g], self.out, self.D, self.I]
        return "".join(" ".join(map(str, l)) + "\n" for l in ls)

    @staticmethod
    def read(text):
        ls = [list(map(int, l.split())) for l in (text.split("\n") + [""] * 7)[:7]]
        h = ls[0]
        return Circ(h[:6], list(zip(ls[1], ls[2], ls[3])), ls[4], ls[5], ls[6], h[8])

    def run(self, vals, cc, period):
        """vals: six integers (inputs cycle-major, least significant bit first)."""
        n = self.w(0) + len(self.g)
        outs, reg = [], []
        for cid in range(cc):
            w = [0] * n
            for k in range(3):
                for i in range(self.sizes[k]):
                    w[self.lo(k) + i] = vals[k] >> i & 1
            for k in range(3, 6):
                for i in range(self.sizes[k]):
                    w[self.lo(k) + i] = vals[k] >> (cid * self.sizes[k] + i) & 1
            get = lambda x: 0 if x == -2 else 1 if x == -3 else w[x]
            for i in range(len(self.D)):
                w[self.q(i)] = get(self.I[i]) if cid == 0 else reg[i]
            for i, (a, b, t) in enumerate(self.g):
                w[self.w(i)] = OPS[t](get(a), 0 if t == 12 else get(b))
            outs.append(sum(get(x) << i for i, x in enumerate(self.out)))
            reg = [get(x) for x in self.D]
            if period and self.term and cid % period == 0 and w[self.term]:
                break
        return outs


def comb():
    c = Circ([0, 0, 0, 3, 3, 3])
    p, g, e = c.lo(3), c.lo(4), c.lo(5)
    ts = [8, 4, 7, 11, 14, 13, 1, 2, 6, 9, 12]
    src = [g, e, p, g + 1, e + 1, p + 1, g + 2, e + 2, p + 2]
    for i, t in enumerate(ts):
        c.g.append((src[(2 * i) % 9], src[(2 * i + 1) % 9], t))
    for i in range(6):
        c.g.append((c.w(i), c.w(10 - i), [8, 6, 14, 7, 9, 4][i]))
    c.out = [c.w(11 + i) for i in range(6)] + [c.w(0), c.w(3), e + 1, g, p + 2, c.w(10), c.w(8)]
    return c


def seq():
    """Registers loaded from every kind of initial value; terminates when a counter matches a private value."""
    c = Circ([3, 2, 3, 1, 1, 1], [], [], [0] * 8)
    P, G, E = c.lo(3), c.lo(4), c.lo(5)
    q = c.q
    c.I = [0, 1, 3, 4, 5, 6, -3, 7]

    def add(a, b, t):
        c.g.append((a, b, t))
        return c.w(len(c.g) - 1)
    n0 = add(q(0), -1, 12)
    n1 = add(q(1), q(0), 6)
    m = add(add(q(0), q(2), 9), add(q(1), q(4), 9), 8)
    x = add(q(5), G, 6)
    y = add(q(3), E, 8)
    z = add(q(7), P, 14)
    k = add(q(6), x, 4)
    l = add(y, z, 13)
    c.D = [n0, n1, q(2), x, q(4), l, k, add(q(7), m, 6)]
    c.out = [m, x, y, z, k, l, q(0), q(1), q(5), q(7), E]
    c.term = m
    return c


def wide(w=140):
    c = Circ([0, 0, 0, 0, w, w])
    G, E = c.lo(4), c.lo(5)
    prev = -2
    for i in range(w):
        c.g.append((G + i, E + i, 8 if i % 3 else 6))
    for i in range(w):
        c.g.append((c.w(i), prev, 6))
        prev = c.w(w + i)
    c.out = [c.w(w + i) for i in range(w)]
    return c


def evald():
    """Evaluator's initial values only: the labels of one transfer set all registers."""
    c = Circ([0, 2, 2, 0, 0, 1], [], [], [0] * 4, [0, 1, 2, 3])
    c.g = [(c.q(0), c.q(2), 6), (c.q(1), c.q(3), 8), (c.w(0), c.lo(5), 14)]
    c.D = [c.w(1), c.w(0), c.w(2), c.q(0)]
    c.out = [c.w(0), c.w(1), c.w(2), c.q(3)]
    return c


CIRCS = {"comb": comb(), "seq": seq(), "wide": wide(), "init": evald()}
MODES = [None, "0", "1", "2", "consecutive", "separated_clock", "last_clock"]


def mode_of(m):
    return {None: 0, "0": 0, "1": 1, "2": 2, "consecutive": 0, "separated_clock": 1, "last_clock": 2}[m]


def expect(c, vals, cc, period, mode, mask=None, alice=False):
    outs = c.run(vals, cc, period)
    n = len(c.out)
    if mask is not None:
        m = int(mask, 16)
        own = m if alice else ~m
        outs = [o & own & ((1 << n) - 1) for o in outs]
    if mode == 0:
        return [sum(o << (i * n) for i, o in enumerate(outs))]
    return outs if mode == 1 else [outs[-1]]


def parse_out(s):
    ls = [l for l in s.split("\n") if l.strip()]
    return [int(l, 16) if re.fullmatch(r"[0-9A-Fa-f]+", l.strip()) else None for l in ls]


class Lab:
    """One worker's scratch directory, ports and programs."""

    def __init__(self, scratch, tid, tools):
        self.d = os.path.join(scratch, "w%d" % tid)
        os.makedirs(self.d)
        self.tools, self.tid = tools, tid
        self.port = 21000 + tid * 1200 + os.getpid() * 37 % 800
        self.n = 0

    def newport(self):
        self.port += 1
        return self.port

    def file(self, text, suffix=""):
        self.n = (self.n + 1) % 64
        p = os.path.join(self.d, "in-%d%s" % (self.n, suffix))   # never the spelling of a number
        with open(p, "w") as f:
            f.write(text)
        return p

    def start(self, tool, args, name):
        # argv[0] decides where the log files go
        return subprocess.Popen([os.path.join(self.d, name)] + args, executable=self.tools[tool], stdin=subprocess.DEVNULL,
                                stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=self.d, start_new_session=True)

    def finish(self, p, timeout=90):
        try:
            out = p.communicate(timeout=timeout)[0].decode("latin1")
            return p.returncode, out
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            return "hang", ""

    def one(self, tool, args, timeout=90):
        r = self.finish(self.start(tool, args, tool), timeout)
        self.clean()
        return r

    def clean(self):
        for f in os.listdir(self.d):
            if f.endswith(".log"):
                os.unlink(os.path.join(self.d, f))

    @staticmethod
    def listening(port):
        pat = ":%04X " % port
        try:
            for f in ("/proc/net/tcp", "/proc/net/tcp6"):
                if os.path.exists(f):
                    for line in open(f):
                        s = line.split()
                        if len(s) > 3 and s[1].endswith(pat.strip()) and s[3] == "0A":
                            return True
        except OSError:
            return True
        return False

    def two(self, tool, aargs, bargs, portopt, bobhost=()):
        """Both parties; returns ((rc, out), (rc, out), logs)."""
        for attempt in range(30):
            port = self.newport()
            a = self.start(tool, aargs + [portopt, str(port)], "alice")
            try:
                end = time.time() + 30
                ready = False
                while time.time() < end and a.poll() is None:
                    if self.listening(port):
                        ready = True
                        break
                    time.sleep(0.002)
                if not ready and a.poll() is not None and attempt < 29:
                    self.finish(a)
                    if attempt < 2:
                        continue      # perhaps the port was taken
                    return (a.returncode, ""), ("none", ""), ["", ""]
                b = self.start(tool, bargs + [portopt, str(port)] + list(bobhost), "bob")
                rb = self.finish(b)
                ra = self.finish(a, 30)
                logs = ["", ""]
                for f in os.listdir(self.d):
                    if f.endswith("-info.log"):
                        logs[0 if f.startswith("alice") else 1] += open(os.path.join(self.d, f), errors="replace").read()
                self.clean()
                return ra, rb, logs
            finally:
                if a.poll() is None:
                    a.kill()
                    a.wait()


def hexin(v, form, lab, bits):
    """An input as an option value: hexadecimal, a one line file, a file of several lines (later lines more significant)."""
    h = "%X" % v
    if form == "hex":
        return h
    if form == "lower":
        return h.lower()
    if form == "padded":
        return "0" * 3 + h
    if form == "file":
        return lab.file(h + "\n")
    n = max(1, (bits + 3) // 4)
    h = h.rjust(n, "0")
    step = {"lines1": 1, "lines2": 2, "lines8": 8}[form]
    ls = []
    while h:
        ls.append(h[-step:])
        h = h[:-step]
    if len(ls[-1]) < step:
        ls[-1] = ls[-1].rjust(step, "0")
    return lab.file("\n".join(ls) + ("\n" if v & 1 else ""))


def gen_vals(c, cc, salt):
    r = []
    for k in range(6):
        n = c.sizes[k] * (cc if k >= 3 else 1)
        m = mix("%s/%d" % (salt, k))
        while m.bit_length() < n:
            m = m << 250 | mix(m)
        r.append(m & ((1 << n) - 1))
    return r


def tg_case(lab, k):
    c = CIRCS[k["c"]]
    cc, mode, t, mask = k["cc"], k["mode"], k["t"], k["mask"]
    vals = k["vals"]
    long = k["long"]
    nb = [c.sizes[i] * (cc if i >= 3 else 1) for i in range(6)]
    scd = os.path.join(lab.d, k["c"] + ".scd")
    with open(scd, "w") as f:
        f.write(c.scd())
    args = [[], []]
    for p in range(2):
        a = args[p]
        a += [("--alice", "--bob")[p] if long else ("-a", "-b")[p], "--scd_file" if long else "-i", scd]
        if cc != 1 or long:
            a += ["--clock_cycles=%d" % cc] if long else ["-c", str(cc)]
        f = k["form"]
        for name, idx in (("p_init", 0), ("p_input", 3), ("init", 1 + p), ("input", 4 + p)):
            if nb[idx] and (vals[idx] or not k.get("omit0")):
                v = hexin(vals[idx], f, lab, nb[idx])
                a += ["--%s=%s" % (name, v)] if k["eq"] else ["--" + name, v]
        if mode is not None:
            a += ["--output_mode", mode]
        if mask is not None:
            a += ["--output_mask", mask]
        if t is not None:
            a += ["--terminate_period" if long else "-t", str(t)]
        if not k["ot"]:
            a.append("--disable_OT")
        if k["low"]:
            a.append("--low_mem_foot")
    host = [] if k["host"] is None else ["--server_ip" if long else "-s", k["host"]]
    ra, rb, _ = lab.two("garbled_circuit_main", args[0], args[1], "--port" if long else "-p", host)
    for p, r in ((True, ra), (False, rb)):
        who = "Alice" if p else "Bob"
        if r[0] != 0:
            return "%s exits with status %s" % (who, r[0]), None
        want = expect(c, vals, cc, t or 0, mode_of(mode), mask or "0", p)
        got = parse_out(r[1])
        if got != want:
            return "%s prints %r, expected %s" % (who, r[1][:300], " ".join("%X" % x for x in want)), None
    return "", ra[1] + "/" + rb[1]


def ev_case(lab, k):
    c = CIRCS[k["c"]]
    cc, mode, t, vals = k["cc"], k["mode"], k["t"], k["vals"]
    nb = [c.sizes[i] * (cc if i >= 3 else 1) for i in range(6)]
    scd = os.path.join(lab.d, k["c"] + ".scd")
    with open(scd, "w") as f:
        f.write(c.scd())
    with open(scd + ".map", "w") as f:
        f.write("o[0] 0\n")
    a = ["--scd_file" if k["long"] else "-i", scd]
    if cc != 1 or k["long"]:
        a += ["--clock_cycles" if k["long"] else "-c", str(cc)]
    for i, name in enumerate(("p_init", "g_init", "e_init", "p_input", "g_input", "e_input")):
        if nb[i]:
            v = hexin(vals[i], k["form"], lab, nb[i])
            a += ["--%s=%s" % (name, v)] if k["eq"] else ["--" + name, v]
    if mode is not None:
        a += ["--output_mode", mode]
    if t is not None:
        a += ["--terminate_period" if k["long"] else "-t", str(t)]
    rc, out = lab.one("scd_evaluator_main", a)
    if rc != 0:
        return "exits with status %s" % rc, None
    want = expect(c, vals, cc, t or 0, mode_of(mode))
    if parse_out(out) != want:
        return "prints %r, expected %s" % (out[:300], " ".join("%X" % x for x in want)), None
    return "", out


VERILOG = {
    "comb": ("""module m ( clk, rst, g_input, e_input, o );
  input [1:0] g_input;
  input [1:0] e_input;
  output [2:0] o;
  input clk, rst;
  wire   n1, n2;
  AND U1 ( .A(g_input[0]), .B(e_input[0]), .Z(n1) );
  XOR U2 ( .A(g_input[1]), .B(e_input[1]), .Z(n2) );
  ORN U3 ( .A(n1), .B(n2), .Z(o[0]) );
  NAND U4 ( .A(n2), .B(n1), .Z(o[1]) );
  IV U5 ( .A(n2), .Z(o[2]) );
endmodule
""", [0, 0, 0, 0, 2, 2], lambda v, st: ((lambda a, b: (a | (1 - b)) | (1 - (a & b)) << 1 | (1 - b) << 2)(v[4] & v[5] & 1, (v[4] ^ v[5]) >> 1 & 1), st)),
    "seq": ("""module m ( clk, rst, g_init, e_init, g_input, e_input, o );
  input [0:0] g_init;
  input [0:0] e_init;
  input [0:0] g_input;
  input [0:0] e_input;
  output [1:0] o;
  input clk, rst;
  wire   n1, q1;
  XOR U1 ( .A(q1), .B(g_input[0]), .Z(n1) );
  DFF r1 ( .D(n1), .CLK(clk), .RST(rst), .I(g_init[0]), .Q(q1) );
  DFF r2 ( .D(o[0]), .CLK(clk), .RST(rst), .I(e_init[0]), .Q(o[1]) );
  OR U2 ( .A(n1), .B(e_input[0]), .Z(o[0]) );
endmodule
""", [0, 1, 1, 0, 1, 1], lambda v, st: (lambda n, o0: (o0 | st[1] << 1, (n, o0)))(st[0] ^ (v[4] & 1), (st[0] ^ (v[4] & 1)) | (v[5] & 1)))}
BRISTOL = "3 7\n2 2 1\n\n2 1 0 2 4 AND\n2 1 1 3 5 XOR\n2 1 4 5 6 XOR\n"


def v2_case(lab, k):
    out = os.path.join(lab.d, "t.scd")
    for f in (out, out + ".map"):
        if os.path.exists(f):
            os.unlink(f)
    bris = k["net"] == "bristol"
    src = lab.file(BRISTOL if bris else VERILOG[k["net"]][0], ".txt" if bris else ".v")
    names = (("--brist_netlist", "--scd") if k["long"] else ("-b", "-o")) if bris else (("--netlist", "--scd") if k["long"] else ("-i", "-o"))
    pairs = [[names[0], src], [names[1], out]]
    if k["rev"]:
        pairs.reverse()
    rc, _ = lab.one("v_2_scd_main", (["%s=%s" % tuple(p) for p in pairs] if k["eq"] and k["long"] else pairs[0] + pairs[1]))
    if rc != 0:
        return "exits with status %s" % rc, None
    if not os.path.exists(out) or not os.path.exists(out + ".map"):
        return "no circuit or no map file is written", None
    c = Circ.read(open(out).read())
    if bris:
        if c.sizes[4:] != [2, 2] or len(c.out) != 1:
            return "the circuit has sizes %s and %d outputs" % (c.sizes, len(c.out)), None
        for g in range(4):
            for e in range(4):
                want = (g & e & 1) ^ ((g ^ e) >> 1)
                if c.run([0, 0, 0, 0, g, e], 1, 0) != [want]:
                    return "the circuit computes a different function", None
        return "", "bristol"
    _, sizes, fn = VERILOG[k["net"]]
    if c.sizes != sizes:
        return "the circuit has sizes %s, expected %s" % (c.sizes, sizes), None
    cc = 3 if sizes[1] else 1
    n = sum(sizes[:3]) + cc * sum(sizes[3:])
    for code in range(1 << n):
        vals, u = [], code
        for i in range(6):
            b = sizes[i] * (cc if i >= 3 else 1)
            vals.append(u & ((1 << b) - 1))
            u >>= b
        st = (vals[1], vals[2])
        want = []
        for cid in range(cc):
            v = vals[:3] + [vals[i] >> (cid * sizes[i]) & ((1 << sizes[i]) - 1) for i in range(3, 6)]
            o, st = fn(v, st)
            want.append(o)
        if c.run(vals, cc, 0) != want:
            return "the circuit computes a different function for inputs %s" % vals, None
    return "", k["net"]


def ot_case(lab, k):
    w = lambda v: "_".join("%08x" % (v >> s & 0xffffffff) for s in (96, 64, 32, 0))
    m = k["m"]
    a = ["--alice" if k["long"] else "-a"]
    if m is not None:
        a += ["--message0", w(m[0]), "--message1", w(m[1])]
    b = ["--bob" if k["long"] else "-b"]
    if k["sel"] is not None:
        b += ["--select", str(k["sel"])]
    ra, rb, logs = lab.two("OT_main", a, b, "--port" if k["long"] else "-p", [] if k["host"] is None else ["-s", k["host"]])
    for who, r in (("Alice", ra), ("Bob", rb)):
        if r[0] != 0:
            return "%s exits with status %s" % (who, r[0]), None
    msgs = m or [0x15141312111009080706050403020100, 0x00010203040506070809101112131415]
    mm = re.search(r"selected message is:\s*([01]): *([0-9a-fA-F_ ]+)", logs[1])
    if not mm:
        return "Bob's log does not show the selected message", None
    sel = k["sel"] or 0
    got = int(re.sub("[ _]", "", mm.group(2)), 16)
    if int(mm.group(1)) != sel or got != msgs[sel]:
        return "Bob selects %d and gets %x, expected %x" % (int(mm.group(1)), got, msgs[sel]), None
    return "", "%d %x" % (sel, got)


BADNET = {"empty": "", "text": "hello world\n", "gate": VERILOG["comb"][0].replace("AND U1", "FROB U1"), "floating": VERILOG["comb"][0].replace("IV U5 ( .A(n2)", "IV U5 ( .A(n9)"),
          "loop": VERILOG["comb"][0].replace(".A(g_input[0]), .B(e_input[0]), .Z(n1)", ".A(o[1]), .B(e_input[0]), .Z(n1)")}


def bad_list():
    L = []
    for tool in ("garbled_circuit_main", "scd_evaluator_main"):
        role = [["-a"], ["-b"], ["--alice"]] if tool[0] == "g" else [[]]
        for r in role:
            for o in (["--output_mode", "3"], ["--output_mode", "last"], ["--output_mode", ""], ["--output_mode"], ["-c"], ["-c", "x"], ["--clock_cycles=1x"], ["-t", "x"], ["--terminate_period", "1.5"], ["--terminate_period"], ["-i"]) \
                    + ((["-p", "x"], ["-p"], ["--port=1z"], ["--output_mask"], ["--input"], ["--init"], ["--p_init"], ["--p_input"], ["-s"]) if tool[0] == "g" else (["--g_input"], ["--e_init"], ["--p_input"])):
                L.append([tool, r + (["-i", "@comb"] if o != ["-i"] else []) + o])
    L += [["garbled_circuit_main", x] for x in ([], ["-i", "@comb"], ["--input", "5"], ["-b", "-i", "@comb", "-p", "@closed"], ["--bob", "--scd_file", "@comb", "--port", "@closed"], ["-b", "-s", "no.such.host.invalid", "-p", "@closed"])]
    L += [["scd_evaluator_main", x] for x in ([], ["-i", "@none"], ["--scd_file=@none"], ["-c", "2"], ["-i", "@dir"], ["-i", "@comb", "-t", "1"], ["-i", "@comb", "--g_input", "xyz"], ["-i", "@comb", "--e_input", "5G"],
                                           ["-i", "@comb", "--p_input", "0x5"], ["-i", "@seq", "--g_init", "q"], ["-i", "@seq", "--e_init", "-"], ["-i", "@seq", "--p_init", "w"])]
    L += [["v_2_scd_main", x] for x in ([], ["-o", "@out"], ["-i", "@good"], ["-b", "@goodb"], ["-i", "@none", "-o", "@out"], ["--netlist=@none", "--scd=@out"], ["-b", "@none", "-o", "@out"], ["-i", "@good", "-o", "@noparent"],
                                     ["-b", "@goodb", "-o", "@noparent"], ["-i", "@dir", "-o", "@out"], ["-i", "@good", "-o"], ["-i"], ["-b"])]
    L += [["v_2_scd_main", ["-i", "@bad:" + n, "-o", "@out"]] for n in BADNET]
    L += [["v_2_scd_main", ["-b", "@bad:" + n, "-o", "@out"]] for n in ("text", "gate")]
    L += [["OT_main", x] for x in ([], ["--select", "1"], ["-p", "x", "-a"], ["-b", "-p", "@closed"], ["-a", "--frob"], ["-b", "--select"])]
    return L


HELP = [[t, [o]] for t in ("garbled_circuit_main", "scd_evaluator_main", "v_2_scd_main", "OT_main") for o in ("-h", "--help")] + [["garbled_circuit_main", ["-a", "--help"]], ["scd_evaluator_main", ["-i", "x", "-h"]]]


def subst(lab, args):
    r = []
    for a in args:
        m = re.search(r"@(\w+)(:\w+)?", a)
        if not m:
            r.append(a)
            continue
        n = m.group(1)
        if n in CIRCS:
            v = os.path.join(lab.d, n + ".scd")
            with open(v, "w") as f:
                f.write(CIRCS[n].scd())
            with open(v + ".map", "w") as f:
                f.write("o[0] 0\n")
        elif n == "closed":
            v = str(lab.newport())
        elif n == "none":
            v = os.path.join(lab.d, "does-not-exist")
        elif n == "dir":
            v = lab.d
        elif n == "out":
            v = os.path.join(lab.d, "bad.scd")
        elif n == "noparent":
            v = os.path.join(lab.d, "no-such-dir", "x.scd")
        elif n == "good":
            v = lab.file(VERILOG["comb"][0], ".v")
        elif n == "goodb":
            v = lab.file(BRISTOL, ".txt")
        else:
            v = lab.file(BADNET[m.group(2)[1:]], ".v")
        r.append(a.replace(m.group(0), v))
    return r


def bad_case(lab, k):
    rc, _ = lab.one(k["tool"], subst(lab, k["args"]), 60)
    if rc == 0 or rc == "hang":
        return "invalid usage %s: %s" % (" ".join(k["args"]) or "(no options)", "does not end" if rc else "exits with success"), None
    return "", "failure"


def help_case(lab, k):
    rc, out = lab.one(k["tool"], k["args"], 60)
    if rc != 0 or "--help" not in out:
        return "%s: status %s and %d bytes of text" % (" ".join(k["args"]), rc, len(out)), None
    return "", "help"


def bad2_case(lab, k):
    """Two-party sessions in which one party is started with something invalid: that party fails, and so does the other."""
    scd = subst(lab, ["@" + k["c"]])[0]
    args = [["-a", "-i", scd], ["-b", "-i", scd]]
    if not k["ot"]:
        args = [x + ["--disable_OT"] for x in args]
    for p in k["who"]:
        args[p] += subst(lab, k["opt"])
        if "-i" in k["opt"]:
            args[p] = args[p][:1] + subst(lab, k["opt"]) + ([] if k["ot"] else ["--disable_OT"])
    ra, rb, _ = lab.two("garbled_circuit_main", args[0], args[1], "-p")
    for p, r in enumerate((ra, rb)):
        if r[0] == "hang":
            return "%s does not end" % ("Alice", "Bob")[p], None
        if p in k["who"] and r[0] == 0:
            return "%s exits with success although %s is invalid" % (("Alice", "Bob")[p], " ".join(k["opt"])), None
    return "", "failure"


KINDS = {"tg": tg_case, "ev": ev_case, "v2": v2_case, "ot": ot_case, "bad": bad_case, "help": help_case, "bad2": bad2_case}
FORMS = ["hex", "file", "lines1", "lines2", "lower", "padded", "lines8"]


def cases(tier):
    T = tier == "thorough"
    i = 0

    def tg(c, cc, mode, t, mask, ot, low, form, host=None, **kw):
        nonlocal i
        i += 1
        d = dict(k="tg", c=c, cc=cc, mode=mode, t=t, mask=mask, ot=ot, low=low, form=form, long=i % 2, eq=i % 3 == 0, host=host, vals=gen_vals(CIRCS[c], cc, i))
        d.update(kw)
        return d
    for mode, t, mask, ot, low in itertools.product(MODES, [None, 1, 2], [None, "7FF", "2A5"], [0, 1], [0, 1]):
        for j, cc in enumerate([1, 3, 4] if T else [4]):
            for f in (FORMS if T else [FORMS[i % len(FORMS)]]):
                yield tg("seq", cc, mode, t, mask, ot, low, f)
    for c, form, ot, low, cc in itertools.product(["comb", "seq", "init", "wide"], FORMS, [0, 1], [0, 1], [1, 2, 3] if T else [1, 3]):
        for mode in (MODES[1:4] if T else [MODES[i % 7]]):
            yield tg(c, cc, mode, None, ["0", None, "1", "5a"][i % 4], ot, low, form)
    for m in range(16):
        for ot in (0, 1):
            yield tg("init", 2, MODES[m % 7], None, "%x" % m, ot, m & 1, "hex")
    n = 9 if T else 6
    for v in range(1 << n):
        vals = [0, 0, 0, v >> 6 if T else (v * 5) & 7, v & 7, v >> 3 & 7]
        yield tg("comb", 1, None, None, "1FFF" if v % 3 == 0 else None, v % 8 == 0, 0, "hex", vals=vals, omit0=1)
    for h in ("127.0.0.1", "localhost", "127.0.0.2"):
        for ot in (0, 1):
            yield tg("comb", 1, None, None, None, ot, 0, "hex", host=h)
    for c, cc, mode, t, form in itertools.product(["seq", "comb", "init", "wide"], [1, 2, 4], MODES, [None, 0, 1, 2, 3], FORMS if T else FORMS[:4]):
        if t and c != "seq":
            continue
        i += 1
        yield dict(k="ev", c=c, cc=cc, mode=mode, t=t, form=form, long=i % 2, eq=i % 3 == 0, vals=gen_vals(CIRCS[c], cc, i))
    for net, long, eq, rev in itertools.product(["comb", "seq", "bristol"], [0, 1], [0, 1], [0, 1]):
        yield dict(k="v2", net=net, long=long, eq=eq, rev=rev)
    for j, (long, sel, host) in enumerate(itertools.product([0, 1], [None, 0, 1], [None, "127.0.0.1"])):
        for m in [None] + [[mix((j, q, 0)) >> 128, mix((j, q, 1)) >> 128] for q in range(8 if T else 2)]:
            yield dict(k="ot", long=long, sel=sel, host=host, m=m)
    for b in bad_list():
        yield dict(k="bad", tool=b[0], args=b[1])
    for b in HELP:
        yield dict(k="help", tool=b[0], args=b[1])
    for ot in (0, 1):
        for who in ([0], [1], [0, 1]):
            for c, opts in (("comb", (["-i", "@none"], ["-i", "@dir"], ["--input", "xyz"], ["--input", "5-"])), ("seq", (["--init", "G"],))):
                for o in opts:
                    yield dict(k="bad2", c=c, who=who, opt=o, ot=ot)
        yield dict(k="bad2", c="comb", who=[0, 1], opt=["-t", "1"], ot=ot)
        yield dict(k="bad2", c="comb", who=[0, 1], opt=["--output_mask", "xyz"], ot=ot)
        yield dict(k="bad2", c="comb", who=[0, 1], opt=["--p_input", "zz"], ot=ot)


def run(pid, tier, seed, scratch, replay):
    b = B.Builder()
    tools = {os.path.basename(m)[:-4]: b.tool(m) for m in
             ("garbled_circuit/garbled_circuit_main.cpp", "scd/scd_evaluator_main.cpp", "scd/v_2_scd_main.cpp", "crypto/OT_main.cpp")}
    todo = [json.loads(open(replay).read())] if replay else list(cases(tier))
    q = queue.Queue()
    for j, k in enumerate(todo):
        q.put((j, k))
    lock = threading.Lock()
    res, cnt, outcomes = [], {}, set()
    samples, errors, caps = [], [], []
    deadline = time.time() + (600 if tier == "quick" else 3000)

    def work(tid):
        lab = Lab(scratch, tid, tools)
        while len(res) < 3:
            try:
                j, k = q.get_nowait()
            except queue.Empty:
                return
            if time.time() > deadline:
                if not caps:
                    caps.append("soft deadline reached")
                return
            try:
                msg, o = KINDS[k["k"]](lab, k)
                if msg and not replay:   # once more before it counts
                    msg, o = KINDS[k["k"]](lab, k)
            except OSError as e:
                with lock:
                    errors.append("%s: %s" % (k, e))
                return
            with lock:
                cnt[k["k"]] = cnt.get(k["k"], 0) + 1
                if msg:
                    res.append({"case": json.dumps(k, sort_keys=True), "kind": "violation", "msg": msg})
                else:
                    outcomes.add((k["k"], o))
                    if j % 211 == 7:
                        samples.append(("%s -> %s" % (json.dumps(k, sort_keys=True), o))[:500])
    ths = [threading.Thread(target=work, args=(t,)) for t in range(1 if replay else 8)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    cov = {"exhaustive": not caps and not errors and not res, "evaluations": sum(cnt.values()), "distinct_nontrivial": len(set(json.dumps(k, sort_keys=True) for k in todo)),
           "rule": "a case is a distinct option combination with its input values; every one starts fresh processes of the executables built from the tree under test",
           "distinct_outcomes": len(outcomes), "counters": cnt, "samples": samples or ["none"]}
    return res, cov, caps, errors
