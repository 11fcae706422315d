"""Content-addressed build of /repo's current sources with the harness, outside /repo."""
import hashlib, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
LIBDIRS = ["crypto", "garbled_circuit", "scd", "tcpip", "util"]
ARCH = ["-march=x86-64-v2", "-maes", "-mpclmul"]
WRAPS = ["read", "write", "send", "recv", "RSA_generate_key_ex", "RSA_check_key",
         "BN_rand", "RAND_bytes", "RAND_seed", "BN_mod_exp", "posix_memalign"]
CONN = ["socket", "setsockopt", "bind", "listen", "accept", "accept4", "connect", "close", "gethostbyname", "getaddrinfo"]   # in module conn
CONFIG = """#define TinyGarble_VERSION_MAJOR 3
#define TinyGarble_VERSION_MINOR 0
#define TinyGarble_VERSION_PATCH 0
#define TINYGARBLE_SOURCE_DIR "/repo"
#define TINYGARBLE_BINARY_DIR "/nonexistent-build"
"""
# the project's build configurations: options of tinygarble_config.h and compiler flags
CONFIGS = {
    "fast": (["ENABLE_LOG"], ["-O2", "-DNDEBUG"]),
    "asan": (["ENABLE_LOG"], ["-O2", "-DNDEBUG", "-g1", "-fsanitize=address,bounds", "-fno-sanitize-recover=bounds", "-fno-omit-frame-pointer"]),
    "debug": (["ENABLE_LOG"], ["-O0", "-DDEBUG"]),
    "release": ([], ["-O3", "-DNDEBUG"]),
    "dump": (["ENABLE_LOG", "ENABLE_DUMP"], ["-O1", "-DDEBUG"]),
}


def config_h(variant):
    return CONFIG + "".join("#define %s\n" % o for o in CONFIGS[variant][0])


class BuildError(Exception):
    pass


def sh(data):
    return hashlib.sha256(data).hexdigest()


def read(p):
    with open(p, "rb") as f:
        return f.read()


def headers_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds[:] = sorted(x for x in ds if not x.startswith((".", "_")))
            for f in sorted(fs):
                if f.endswith((".h", ".inc", ".hpp")):
                    p = os.path.join(root, f)
                    h.update(os.path.relpath(p, d).encode() + b"\0" + read(p) + b"\0")
    return h.hexdigest()


def is_test(name, text):
    return bool(re.search(r"_test(ing|suit)?\.cpp$|_test_main\.cpp$", name))


def has_main(text):
    return re.search(rb"^\s*int\s+main\s*\(", text, re.M) is not None


def lib_sources():
    lib, mains = [], []
    for d in LIBDIRS:
        for f in sorted(os.listdir(os.path.join(REPO, d))):
            if not f.endswith(".cpp"):
                continue
            p = os.path.join(REPO, d, f)
            t = read(p)
            if is_test(f, t):
                continue
            (mains if has_main(t) else lib).append(p)
    return lib, mains


def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout.decode("utf-8", "replace")[-6000:])


class Builder:
    def __init__(self):
        os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
        self.rh = headers_hash([os.path.join(REPO, d) for d in LIBDIRS + ["a23"] if os.path.isdir(os.path.join(REPO, d))])
        self.vh = headers_hash([os.path.join(VERIF, "harness")])
        self.cxxv = subprocess.run(["g++", "--version"], stdout=subprocess.PIPE).stdout

    def obj(self, src, flags, extra=b""):
        key = sh(b"|".join([read(src), os.path.basename(src).encode(), " ".join(flags).encode(), self.rh.encode(),
                            self.cxxv, CONFIG.encode(), extra]))[:32]
        o = os.path.join(BUILD, "obj", key + ".o")
        if not os.path.exists(o):
            tmp = o + ".%d.tmp" % os.getpid()
            cc = ["gcc"] if src.endswith(".c") else ["g++"]
            # relative __FILE__ keeps logs identical; the object only depends on the key
            run(cc + flags + ["-c", src, "-o", tmp])
            os.rename(tmp, o)
        else:
            os.utime(o)
        return o

    def link(self, objs, flags, name):
        key = sh(("|".join(objs) + "|" + " ".join(flags)).encode())[:32]
        out = os.path.join(BUILD, "bin", name + "-" + key)
        os.makedirs(os.path.dirname(out), exist_ok=True)
        if not os.path.exists(out):
            tmp = out + ".%d.tmp" % os.getpid()
            run(["g++"] + objs + flags + ["-o", tmp])
            os.rename(tmp, out)
        else:
            os.utime(out)
        return out

    def gen(self, variant):
        """Directory with the configuration header of a variant."""
        d = os.path.join(BUILD, "gen", "-".join(CONFIGS[variant][0]) or "none")
        cfg = os.path.join(d, "util", "tinygarble_config.h")
        if not os.path.exists(cfg) or open(cfg).read() != config_h(variant):
            os.makedirs(os.path.dirname(cfg), exist_ok=True)
            tmp = cfg + ".%d" % os.getpid()
            open(tmp, "w").write(config_h(variant))
            os.rename(tmp, cfg)
        return d

    def flags(self, variant):
        return CONFIGS[variant][1] + ["-w", "-I", REPO, "-I", self.gen(variant)] + ARCH

    def worker(self, variant="fast", module="gc"):
        """Harness core + one property module + the library of the tree under test.
        Modules link separately: an interface change that breaks one leaves the others able to answer."""
        lib, _ = lib_sources()
        base = self.flags(variant)
        rflags = ["-std=gnu++11"] + base
        # the harness is optimised in every variant
        vflags = ["-std=gnu++17"] + [x for x in base if x not in ("-O0", "-O1", "-O3")] + ["-O2", "-I", os.path.join(VERIF, "harness")]
        vs = [os.path.join(VERIF, "harness", f + ".cpp") for f in ("core", "gc", "fam", "main", "p_" + module)]
        jobs = [(p, rflags, b"") for p in lib] + [(p, vflags, self.vh.encode()) for p in vs]
        jobs.sort(key=lambda j: -os.path.getsize(j[0]))
        with ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(lambda j: self.obj(*j), jobs))
        lf = ["-Wl,--wrap=" + w for w in WRAPS + (CONN if module == "conn" else [])]
        lf += ["-fsanitize=address,bounds"] if variant == "asan" else []
        lf += ["-lboost_program_options", "-lcrypto", "-lpthread", "-ldl"]
        return self.link(sorted(objs), lf, "worker-%s-%s" % (module, variant))

    def a23(self, variant="fast"):
        """The processor programs as shared libraries, compiled as the project compiles them (as C++)."""
        d = os.path.join(REPO, "a23")
        san = ["-fsanitize=address,bounds", "-fno-sanitize-recover=bounds", "-g1"] if variant == "asan" else []
        flags = ["-x", "c++", "-std=gnu++11", "-O2", "-w", "-fPIC", "-shared", "-Wl,-z,norelro", "-Wl,-z,now"] + san
        jobs = []
        for n in sorted(os.listdir(d)):
            src = os.path.join(d, n, n + ".c")
            if not os.path.exists(src) or n == "temp":  # temp is not part of the build
                continue
            h = headers_hash([os.path.join(d, n)])
            jobs.append((n, src, sh(read(src) + h.encode() + " ".join(flags).encode() + self.cxxv)[:32]))
        key = sh("|".join(j[0] + j[2] for j in jobs).encode())[:32]
        out = os.path.join(BUILD, "a23", key)
        if not os.path.exists(out):
            tmp = out + ".%d.tmp" % os.getpid()
            os.makedirs(tmp)
            with ThreadPoolExecutor(8) as ex:
                list(ex.map(lambda j: run(["g++"] + flags + [j[1], "-o", os.path.join(tmp, j[0] + ".so")]), jobs))
            try:
                os.rename(tmp, out)
            except OSError:
                shutil.rmtree(tmp, ignore_errors=True)
        return out

    def tool(self, main_rel, variant="fast"):
        """One of the project's own executables, unmodified, from the current tree."""
        lib, mains = lib_sources()
        base = ["-std=gnu++11"] + self.flags(variant)
        with ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(lambda p: self.obj(p, base), lib + [os.path.join(REPO, main_rel)]))
        lf = (["-fsanitize=address,bounds"] if variant == "asan" else []) + ["-lboost_program_options", "-lcrypto", "-lpthread"]
        return self.link(sorted(objs), lf, os.path.basename(main_rel)[:-4])


def prune(limit=3000):
    d = os.path.join(BUILD, "obj")
    fs = sorted((os.path.getmtime(os.path.join(d, f)), f) for f in os.listdir(d))
    for _, f in fs[:-limit]:
        try:
            os.unlink(os.path.join(d, f))
        except OSError:
            pass


if __name__ == "__main__":
    b = Builder()
    mods = sorted(f[2:-4] for f in os.listdir(os.path.join(VERIF, "harness")) if f.startswith("p_") and f.endswith(".cpp"))
    for v in sys.argv[1:] or ["fast", "asan"]:
        for m in mods if v in ("fast", "asan") else ("gc", "ot", "gate") if v == "dump" else ("gc", "net", "ot", "util", "gate", "cfg", "scd"):
            print(b.worker(v, m))
        if v in ("fast", "asan"):
            print(b.a23(v))
        if v == "dump":
            print(b.tool("garbled_circuit/garbled_circuit_main.cpp", v))
    for m in ("garbled_circuit/garbled_circuit_main.cpp", "scd/scd_evaluator_main.cpp", "scd/v_2_scd_main.cpp", "crypto/OT_main.cpp"):
        print(b.tool(m))
    prune()
