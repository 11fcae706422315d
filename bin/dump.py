"""C36: memory dumps. The main program built with the dump feature runs as two processes; what the two parties' dump files
say must agree with each other, with the inputs and with the circuit."""
import json, os, queue, re, shutil, threading, time
import build as B
from cli import Circ, CIRCS, Lab, OPS, gen_vals

NAMES = ("r_key", "input", "dff", "table", "output")


def private():
    """All wires secret: every gate type, registers loaded from both parties' initial values."""
    c = Circ([0, 2, 2, 0, 2, 2], [], [], [0] * 4, [0, 2, 1, 3])
    g, e, q = c.lo(4), c.lo(5), c.q
    src = [g, e + 1, q(0), e, g + 1, q(1), q(2), q(3)]
    for i, t in enumerate([8, 4, 7, 11, 14, 13, 1, 2, 6, 9, 12]):
        c.g.append((src[i % 8], src[(3 * i + 2) % 8 if src[(3 * i + 2) % 8] != src[i % 8] else (i + 1) % 8], t))
    c.D = [c.w(0), c.w(8), c.w(5), e]
    c.out = [c.w(i) for i in range(11)] + [q(0), q(1), q(2), q(3), g, e + 1]
    return c


CIRC = dict(CIRCS, private=private())
SECRET = {"private"}


def cases(tier):
    T = tier == "thorough"
    for c in CIRC:
        n = 6 if T else 2
        for cc in (1, 2, 5, 9, 30) + ((64, 100) if T else ()):
            for ot in (0, 1):
                for low in (0, 1):
                    for t in ((0, 1, 2) if CIRC[c].term else (0,)):
                        for form in ("own/", "same/") + (("own", "same") if cc == 2 else ()):
                            for salt in range(n):
                                yield dict(c=c, cc=cc, ot=ot, low=low, t=t, dir=form, mask=("0", "5A5A5A5A5A", "FFFFFFFFFFFFFFFF")[(cc + ot + low) % 3],
                                           vals=gen_vals(CIRC[c], cc, "%s/%d/%d/%d" % (c, cc, ot + 2 * low + t, salt)), build="dump")
    for c in ("comb", "private"):
        for low in (0, 1):
            yield dict(c=c, cc=2, ot=0, low=low, t=0, dir="same/", mask="0", vals=gen_vals(CIRC[c], 2, c), build="fast")
            yield dict(c=c, cc=2, ot=0, low=low, t=0, dir="", mask="0", vals=gen_vals(CIRC[c], 2, c), build="dump")


def lines(path):
    """The file's labels as integers; None if a line is not a label."""
    r = []
    for l in open(path).read().split("\n"):
        if l == "":
            continue
        if not re.fullmatch(r"[0-9a-f]{8}( [0-9a-f]{8}){3}", l):
            return None
        r.append(int(l.replace(" ", ""), 16))
    return r


def decide(lab, k):
    c = CIRC[k["c"]]
    cc, vals, t = k["cc"], k["vals"], k["t"]
    root = os.path.join(lab.d, "dumps")
    shutil.rmtree(root, ignore_errors=True)
    scd = os.path.join(lab.d, k["c"] + ".scd")
    with open(scd, "w") as f:
        f.write(c.scd())
    args, dirs = [[], []], []
    for p in range(2):
        d = os.path.join(root, ("A", "B")[p] if k["dir"].startswith("own") else "AB")
        os.makedirs(d, exist_ok=True)
        dirs.append(d)
        a = args[p]
        a += [("-a", "-b")[p], "-i", scd, "-c", str(cc), "-t", str(t), "--output_mask", k["mask"], "--output_mode", "1"]
        for name, idx in (("p_init", 0), ("p_input", 3), ("init", 1 + p), ("input", 4 + p)):
            a += ["--" + name, "%X" % vals[idx]]
        if k["dir"]:
            a += ["--dump_directory", d + ("/" if k["dir"].endswith("/") else "")]
        if not k["ot"]:
            a.append("--disable_OT")
        if k["low"]:
            a.append("--low_mem_foot")
    ra, rb, _ = lab.two("main-" + k["build"], args[0], args[1], "-p")
    for who, r in (("Alice", ra), ("Bob", rb)):
        if r[0] != 0:
            return "%s exits with status %s" % (who, r[0]), None
    there = sorted(os.path.relpath(os.path.join(d, f), root) for d, _, fs in os.walk(root) for f in fs)
    stray = [f for f in os.listdir(lab.d) if f.endswith(".hex")]
    if stray:
        return "dump files outside the directory: %s" % stray, None
    if k["build"] != "dump" or not k["dir"]:
        return ("dump files although none were asked for: %s" % there if there else ""), "none"
    D = {}
    for p in range(2):
        for n in NAMES:
            f = os.path.join(dirs[p], ("alice-", "bob-")[p] + n + ".hex")
            D[p, n] = []
            if os.path.exists(f):
                D[p, n] = lines(f)
                if D[p, n] is None:
                    return "%s has a line that is no label" % os.path.relpath(f, root), None
                there.remove(os.path.relpath(f, root))
    if there:
        return "unexpected dump files %s" % there, None
    if len(D[0, "r_key"]) != 2 or len(D[1, "r_key"]) != 1:
        return "r_key has %d and %d lines" % (len(D[0, "r_key"]), len(D[1, "r_key"])), None
    R = D[0, "r_key"][0]
    if D[0, "r_key"][1] != D[1, "r_key"][0]:
        return "the parties dump different keys", None
    if not R & 1:
        return "the dumped offset is even", None
    trace = []
    outs = simulate(c, vals, cc, t, trace)
    n = len(outs)
    # private inputs of all executed cycles, in order
    want = [w[c.lo(4) + i] for w in trace for i in range(c.sizes[4] + c.sizes[5])]
    m = compare("input", D, R, want, [True] * len(want))
    if m:
        return m, None
    lo = c.sizes[0]
    hi = lo + c.sizes[1] + c.sizes[2]
    m = compare("dff", D, R, [trace[0][c.q(i)] for i in range(len(c.D))], [lo <= i < hi for i in c.I])
    if m:
        return m, None
    want = [o for w in trace for o in (w[x] for x in c.out)]
    if k["c"] in SECRET:
        sec = [True] * len(want)
    else:
        kind = certain(c)
        sec = [kind[x] for x in c.out] * n
    m = compare("output", D, R, want, sec)
    if m:
        return m, None
    if D[0, "table"] != D[1, "table"]:
        return "the parties' tables differ (%d and %d lines)" % (len(D[0, "table"]), len(D[1, "table"])), None
    nt = sum(1 for g in c.g if g[2] not in (6, 9, 12)) * n
    if len(D[0, "table"]) % 2 or len(D[0, "table"]) > 2 * nt:
        return "%d table lines for at most %d tables" % (len(D[0, "table"]), nt), None
    if k["c"] in SECRET and not D[0, "table"]:
        return "no tables dumped", None
    if len(set(D[0, "table"])) != len(D[0, "table"]):
        return "equal ciphertexts among the tables", None
    return "", "%d/%d/%d" % (len(D[0, "input"]), len(D[0, "table"]), len(D[0, "output"]))


def certain(c):
    """The wires that certainly are secret: made of private inputs only, by gates whose inputs are not related."""
    n = c.w(0) + len(c.g)
    gen = [None] * n        # the independent labels a wire's label is the sum of
    for i in range(c.lo(4), c.q(0)):
        gen[i] = frozenset([i])
    for i, (a, b, t) in enumerate(c.g):
        if a < 0 or gen[a] is None or (t != 12 and (b < 0 or gen[b] is None)):
            continue
        if t == 12:
            gen[c.w(i)] = gen[a]
        elif gen[a] == gen[b]:
            continue
        elif t in (6, 9):
            gen[c.w(i)] = gen[a] ^ gen[b]
        else:
            gen[c.w(i)] = frozenset([c.w(i)])
    return [g is not None and len(g) > 0 for g in gen]


def simulate(c, vals, cc, period, trace):
    n = c.w(0) + len(c.g)
    outs, reg = [], []
    for cid in range(cc):
        w = [0] * n
        for k in range(3):
            for i in range(c.sizes[k]):
                w[c.lo(k) + i] = vals[k] >> i & 1
        for k in range(3, 6):
            for i in range(c.sizes[k]):
                w[c.lo(k) + i] = vals[k] >> (cid * c.sizes[k] + i) & 1
        get = lambda x: 0 if x == -2 else 1 if x == -3 else w[x]
        for i in range(len(c.D)):
            w[c.q(i)] = get(c.I[i]) if cid == 0 else reg[i]
        for i, (a, b, t) in enumerate(c.g):
            w[c.w(i)] = OPS[t](get(a), 0 if t == 12 else get(b))
        trace.append(w)
        outs.append(sum(get(x) << i for i, x in enumerate(c.out)))
        reg = [get(x) for x in c.D]
        if period and c.term and cid % period == 0 and w[c.term]:
            break
    return outs


def compare(name, D, R, want, secret):
    a, b = D[0, name], D[1, name]
    if len(a) != len(want) or len(b) != len(want):
        return "%s has %d and %d lines, expected %d" % (name, len(a), len(b), len(want))
    for i, v in enumerate(want):
        if secret[i] and b[i] != a[i] ^ (R if v else 0):
            return "%s line %d: the evaluator's label is not the garbler's label of the value %d" % (name, i, v)
        if secret[i] and a[i] == 0:
            return "%s line %d: a secret wire without a label" % (name, i)
    return ""


def run(pid, tier, seed, scratch, replay):
    b = B.Builder()
    main = "garbled_circuit/garbled_circuit_main.cpp"
    tools = {"main-dump": b.tool(main, "dump"), "main-fast": b.tool(main)}
    todo = [json.loads(open(replay).read())] if replay else list(cases(tier))
    q = queue.Queue()
    for j, k in enumerate(todo):
        q.put((j, k))
    lock = threading.Lock()
    res, outcomes, samples, errors, caps = [], set(), [], [], []
    done = [0]
    deadline = time.time() + (500 if tier == "quick" else 2400)

    def work(tid):
        lab = Lab(scratch, tid, tools)
        while len(res) < 3:
            try:
                j, k = q.get_nowait()
            except queue.Empty:
                return
            if time.time() > deadline:
                if not caps:
                    caps.append("soft deadline reached")
                return
            try:
                msg, o = decide(lab, k)
                if msg and not replay:   # once more before it counts
                    msg, o = decide(lab, k)
            except OSError as e:
                with lock:
                    errors.append("%s: %s" % (k, e))
                return
            with lock:
                done[0] += 1
                if msg:
                    res.append({"case": json.dumps(k, sort_keys=True), "kind": "violation", "msg": msg})
                else:
                    outcomes.add((k["c"], o))
                    if j % 37 == 5:
                        samples.append(("%s -> input/table/output lines %s" % (json.dumps(k, sort_keys=True), o))[:500])
    ths = [threading.Thread(target=work, args=(t,)) for t in range(1 if replay else 8)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    cov = {"exhaustive": not caps and not errors and not res, "evaluations": done[0], "distinct_nontrivial": len(set(json.dumps(k, sort_keys=True) for k in todo)),
           "rule": "cross product of circuits, cycle counts, transfer and memory modes, terminate periods and forms of the directory; each case starts two fresh processes",
           "distinct_outcomes": len(outcomes), "samples": samples[:6] or ["none"]}
    return res, cov, caps, errors
