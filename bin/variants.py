"""Build configurations: the explorers of other checks run on every build configuration of the project, each execution compared with the default one."""
import importlib.machinery, json, os, queue, struct, tempfile, threading, time
import build as B

NSH = 8
# (property whose explorer is used, module, configurations it is run in besides the default one)
ALL = ("debug", "release", "dump")
PARTS = [("C03", "gc", ALL), ("C05", "gc", ALL), ("C28", "gc", ALL), ("C30", "gc", ALL), ("C17", "net", ("debug", "release")), ("C16", "net", ("debug", "release")),
         ("C13", "ot", ALL), ("C14", "ot", ("debug", "release")), ("C19", "ot", ("debug", "release")), ("C20", "util", ("debug", "release")),
         ("C21", "util", ("debug", "release")), ("C22", "gate", ALL), ("C23", "util", ("debug", "release")), ("C31", "cfg", ("debug", "release")),
         ("C06", "scd", ("debug", "release")), ("C07", "scd", ("debug", "release")), ("C08", "scd", ("debug", "release")), ("C09", "scd", ("debug", "release"))]
THOROUGH = [("C01", "gc", ALL), ("C02", "gc", ALL), ("C28P", "scd", ("debug", "release")), ("C10", "priv", ALL), ("C12", "priv", ALL), ("C15", "ot", ("debug", "release"))]
HANG = 120


def check_module():
    return importlib.machinery.SourceFileLoader("chk", os.path.join(B.VERIF, "bin", "check")).load_module()


def run(pid, tier, seed, scratch, replay):
    chk = check_module()
    b = B.Builder()
    parts = PARTS + (THOROUGH if tier == "thorough" else [])
    os.environ["VERIF_TRACE"] = "1"
    bins = {}
    case0 = json.loads(open(replay).read()) if replay else None
    for p, m, vs in parts:
        for v in ("fast",) + tuple(vs):
            if (not case0 or (case0["module"], case0["variant"]) == (m, v) or (case0["module"] == m and v == "fast")) and (m, v) not in bins:
                bins[m, v] = b.worker(v, m)
    lock = threading.Lock()

    def execute(p, m, v, extra, timeout, find=None):
        """One worker run: {case hash: digest}, violation records, error text, all records."""
        env0 = chk.env_for

        def env(sc, variant):
            e = env0(sc, variant)
            if find is not None:
                e["VERIF_TRACE_FIND"] = str(find)
            return e
        with lock:
            chk.env_for = env
            try:
                h = chk.run_worker(bins[m, v], ["--mem", "2", "--prop", p, "--tier", tier if tier == "thorough" and (p, m) in light else "quick", "--seed", str(seed),
                                                "--hang", str(HANG)] + extra, scratch, v, timeout)
            finally:
                chk.env_for = env0
        rc, done, recs, err = chk.collect(*h)
        tr = {}
        try:
            with open(h[1] + ".tr", "rb") as f:
                d = f.read()
            tr = dict(struct.iter_unpack("QQ", d[:len(d) // 16 * 16]))
            os.unlink(h[1] + ".tr")
        except OSError:
            pass
        for suf in (".st", ".oc"):
            if os.path.exists(h[1] + suf):
                os.unlink(h[1] + suf)
        bad = "" if done else "worker did not finish (rc %s): %s" % (rc, err[-500:])
        bad = next((r["msg"] + " " + err[-500:] for r in recs if r["k"] == "error"), bad)
        return tr, [r for r in recs if r["k"] == "viol"], bad, recs

    light = {("C03", "gc"), ("C05", "gc"), ("C13", "ot"), ("C22", "gate"), ("C19", "ot")}   # deeper bounds affordable in every configuration
    if case0:
        ok, msg = confirm(execute, case0, scratch)
        return ([{"case": json.dumps(case0, sort_keys=True), "kind": "violation", "msg": msg}] if ok else []), {}, [], []
    end = time.time() + (560 if tier == "quick" else 2700)
    q = queue.Queue()
    for p, m, vs in parts:
        for i in range(NSH):
            q.put((p, m, vs, i))
    found, errors, caps = [], [], []
    cnt = {"cases": 0, "executions": 0, "compared": 0}
    digests = set()
    samples = []

    def work():
        while len(found) < 12:
            try:
                p, m, vs, i = q.get_nowait()
            except queue.Empty:
                return
            if time.time() > end:
                if not caps:
                    caps.append("soft deadline reached")
                return
            ext = ["--shard", "%d/%d" % (i, NSH), "--deadline", str(max(5, end - time.time()))]
            ref, rv, bad, _ = execute(p, m, "fast", ext, 600)
            with lock:
                if bad:
                    errors.append("%s fast: %s" % (p, bad))
                cnt["cases"] += len(ref)
                cnt["executions"] += len(ref)
                digests.update(hash((p, d)) for d in ref.values())
            if rv:
                continue    # broken in the default configuration already: another property's violation
            for v in vs:
                tr, viols, bad, _ = execute(p, m, v, ext, 600)
                with lock:
                    if bad:
                        errors.append("%s %s: %s" % (p, v, bad))
                    cnt["executions"] += len(tr)
                    common = [h for h in tr if h in ref]
                    cnt["compared"] += len(common)
                    if i == 1 and len(samples) < 12:
                        samples.append("%s in %s: %d executions equal to the default build's" % (p, v, len(common)))
                    base = dict(prop=p, module=m, variant=v, shard="%d/%d" % (i, NSH))
                    for r in viols[:1]:
                        found.append(dict(base, case=r["case"], why=r["kind"] + ": " + r["msg"]))
                    for h in [h for h in common if ref[h] != tr[h]][:1]:
                        found.append(dict(base, hash=h))
    ths = [threading.Thread(target=work) for _ in range(NSH)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    res = []
    for f in found:
        if len(res) >= 3:
            break
        if "hash" in f:
            _, _, _, recs = execute(f["prop"], f["module"], f["variant"], ["--shard", f["shard"]], 600, f["hash"])
            name = [r["s"] for r in recs if r["k"] == "found"]
            if not name:
                errors.append("a differing case of %s could not be named" % f["prop"])
                continue
            f["case"] = name[0]
        c = {k: f[k] for k in ("prop", "module", "variant", "case")}
        ok, msg = confirm(execute, c, scratch)
        if not ok:      # it may need what the process did before
            c["shard"] = f["shard"]
            ok, msg = confirm(execute, c, scratch)
        if ok:
            res.append({"case": json.dumps(c, sort_keys=True), "kind": "violation", "msg": msg})
        else:
            errors.append("difference did not reproduce: %s" % json.dumps(f))
    if res:
        errors = []
    cov = {"exhaustive": not caps and not errors and not res, "evaluations": cnt["executions"], "distinct_nontrivial": cnt["cases"],
           "rule": "a case is one execution description of the explorer it belongs to; it is executed once per build configuration and its digest (bytes sent in both "
                   "directions, return values, results, written files) compared with that of the default build",
           "distinct_outcomes": len(digests), "counters": cnt, "samples": samples[:6] or ["none"]}
    return res, cov, caps, errors


def confirm(execute, c, scratch):
    if "shard" in c:
        ext = ["--shard", c["shard"]]
    else:
        fd, name = tempfile.mkstemp(dir=scratch)
        with os.fdopen(fd, "w") as f:
            f.write(c["case"])
        ext = ["--replay", name]
    ref, rv, _, _ = execute(c["prop"], c["module"], "fast", ext, 600)
    tr, viols, _, _ = execute(c["prop"], c["module"], c["variant"], ext, 600)
    if rv:
        return False, ""
    if viols:
        return True, "in the %s build only: %s: %s" % (c["variant"], c["prop"], viols[0]["msg"])
    d = [h for h in tr if h in ref and tr[h] != ref[h]]
    if d:
        return True, "%s: the %s build sends other bytes or gives other results than the default build" % (c["prop"], c["variant"])
    return False, ""
