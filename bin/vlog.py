"""A small Verilog front end: preprocess, parse, elaborate and bit-blast the synthesisable subset used under
circuit_synthesis into a gate graph with registers. Undriven bits, latches and out-of-range reads become UNDEF
nodes, which the evaluator gives every value the check asks for."""
import os, re, sys
sys.setrecursionlimit(100000)


class VErr(Exception):
    """outside the subset this front end understands"""


class VBad(VErr):
    """not a circuit: two drivers, a combinational loop, a missing port"""


# ------------------------------------------------------------------ preprocessor
def strip_comments(t):
    def rep(m):
        s = m.group(0)
        return s if s[0] == '"' else " " + "\n" * s.count("\n")
    return re.sub(r'"(?:\\.|[^"\\\n])*"|//[^\n]*|/\*.*?\*/|\(\*(?!\s*\)).*?\*\)', rep, t, flags=re.S)


class Pre:
    def __init__(self, incdirs, defs=None):
        self.inc, self.m = list(incdirs), dict(defs or {})

    def expand(self, line, depth=0):
        if "`" not in line:
            return line
        if depth > 40:
            raise VErr("macro recursion")
        out, i = [], 0
        while True:
            j = line.find("`", i)
            if j < 0:
                out.append(line[i:])
                break
            out.append(line[i:j])
            m = re.compile(r"`([A-Za-z_]\w*)").match(line, j)
            if not m:
                raise VErr("bad directive: " + line[j:j + 40])
            name, i = m.group(1), m.end()
            if name not in self.m:
                raise VErr("undefined macro `" + name)
            params, body = self.m[name]
            if params is not None:
                k = i
                while line[k] in " \t":
                    k += 1
                if line[k] != "(":
                    raise VErr("macro arguments: " + name)
                d, args, cur = 0, [], ""
                while True:
                    c = line[k]
                    if c in "([{":
                        d += 1
                        if d == 1 and c == "(":
                            k += 1
                            continue
                    elif c in ")]}":
                        d -= 1
                        if d == 0:
                            args.append(cur)
                            k += 1
                            break
                    elif c == "," and d == 1:
                        args.append(cur)
                        cur = ""
                        k += 1
                        continue
                    cur += c
                    k += 1
                i = k
                args = [self.expand(a.strip(), depth + 1) for a in args]
                sub = dict(zip(params, args))
                body = re.sub(r"[A-Za-z_$][\w$]*", lambda q: sub.get(q.group(0), q.group(0)), body)
            out.append(self.expand(body, depth + 1))
        return "".join(out)

    def run(self, path, text=None):
        t = strip_comments(text if text is not None else open(path, errors="replace").read())
        t = re.sub(r"\\\n", "\\\\\x01", t)
        out, st = [], []
        for line in t.split("\n"):
            s = line.strip()
            m = re.match(r"`(ifdef|ifndef|elsif|else|endif|define|undef|include|timescale|default_nettype|resetall|celldefine|endcelldefine)\b(.*)$", s, re.S)
            live = all(x[0] for x in st)
            if not m:
                if live:
                    out.append(self.expand(line))
                continue
            d, rest = m.group(1), m.group(2).strip()
            if d in ("ifdef", "ifndef"):
                v = (rest.split()[0] in self.m) == (d == "ifdef")
                st.append([v, v])
                if len(rest.split()) > 1 and v and live:
                    tail = rest.split(None, 1)[1]
                    tail, end = (tail[:tail.index("`endif")], True) if "`endif" in tail else (tail, False)
                    out.append(self.expand(tail))
                    if end:
                        st.pop()
            elif d == "elsif":
                v = not st[-1][1] and rest.split()[0] in self.m
                st[-1] = [v, st[-1][1] or v]
            elif d == "else":
                st[-1] = [not st[-1][1], True]
                if rest and all(x[0] for x in st):
                    out.append(self.expand(rest))
            elif d == "endif":
                st.pop()
                if rest and all(x[0] for x in st):
                    out.append(self.expand(rest))
            elif not live:
                continue
            elif d == "define":
                q = re.match(r"([A-Za-z_]\w*)(\(([^)]*)\))?(.*)$", rest.replace("\\\x01", "\n"), re.S)
                self.m[q.group(1)] = ([a.strip() for a in q.group(3).split(",")] if q.group(2) else None, q.group(4).strip())
            elif d == "undef":
                self.m.pop(rest.split()[0], None)
            elif d == "include":
                f = self.expand(rest).strip().strip('"<>')
                for dd in [os.path.dirname(path)] + self.inc:
                    p = os.path.join(dd, f)
                    if not os.path.exists(p):
                        p = os.path.join(dd, os.path.basename(f))
                    if os.path.exists(p):
                        out.append(self.run(p))
                        break
                else:
                    raise VErr("include file not found: " + f)
        if st:
            raise VErr("unterminated `ifdef in " + path)
        return "\n".join(out)


# ------------------------------------------------------------------ lexer
TOK = re.compile(r"""\s+|(?P<num>(?:\d[\d_]*\s*)?'\s*[sS]?[bodhBODH]\s*[0-9a-fA-FxXzZ?_]+|'[01xzXZ](?![\w])|\d[\d_]*(?:\.\d+)?)
 |(?P<id>[A-Za-z_][\w$]*|\\\S+)|(?P<sys>\$[A-Za-z_]\w*)|(?P<str>"(?:\\.|[^"\\])*")
 |(?P<op><<<=|>>>=|<<<|>>>|===|!==|<<=|>>=|\*\*|\+\+|--|[-+*/%&|^]=|<=|>=|==|!=|&&|\|\||<<|>>|~&|~\||~\^|\^~|\+:|-:|->|[-+*/%&|^~!<>=?:;,.()\[\]{}@\#])""", re.X)


ENDS = ("end", "endmodule", "endfunction", "endtask")


def lex(t):
    t = re.sub(r"\(\*(?!\s*\)).*?\*\)", " ", t, flags=re.S)   # attributes
    out, i, n = [], 0, len(t)
    while i < n:
        m = TOK.match(t, i)
        if not m:
            raise VErr("unexpected character %r near %r" % (t[i], t[max(0, i - 40):i + 20]))
        i = m.end()
        k = m.lastgroup
        if k:
            s = m.group(k)
            if k == "id" and s[0] == "\\":
                s = s[1:]
            out.append((k, s))
    if any(out[k][1] in ENDS and out[k + 1][1] == ":" for k in range(len(out) - 1)):   # labels after end
        o2, k = [], 0
        while k < len(out):
            o2.append(out[k])
            k += 3 if out[k][1] in ENDS and out[k + 1:k + 2] == [("op", ":")] else 1
        out = o2
    out.append(("eof", ""))
    return out


def parse_num(s):
    """-> (width or None, signed, [bit chars LSB first])"""
    s = s.replace("_", "")
    if "'" not in s:
        v = int(float(s)) if "." in s else int(s)
        w = max(32, v.bit_length() + 1)
        return (None, True, [(v >> i) & 1 for i in range(w)])
    a, b = s.split("'")
    b = b.strip()
    if b[0] in "01xzXZ" and len(b) == 1:
        c = {"0": 0, "1": 1}.get(b, "x")
        return ("fill", False, [c])
    sg = b[0] in "sS"
    if sg:
        b = b[1:]
    base, dig = b[0].lower(), b[1:].strip().lower()
    bits = []
    if base == "d":
        if dig in "xz?":
            bits = ["x" if dig == "x" else "z"]
        else:
            v = int(dig)
            bits = [(v >> i) & 1 for i in range(max(1, v.bit_length()))]
    else:
        k = {"b": 1, "o": 3, "h": 4}[base]
        for c in reversed(dig):
            if c in "xz?":
                bits += ["x" if c == "x" else "z"] * k
            else:
                v = int(c, 16)
                if v >> k:
                    raise VErr("digit out of range in " + s)
                bits += [(v >> i) & 1 for i in range(k)]
    w = int(a) if a.strip() else None
    n = w if w is not None else max(32, len(bits))
    ext = bits[-1] if bits[-1] in ("x", "z") else 0
    bits = (bits + [ext] * n)[:n]
    return (w if w is not None else None, sg, bits)


# ------------------------------------------------------------------ parser
BINP = {"||": 1, "&&": 2, "|": 3, "^": 4, "^~": 4, "~^": 4, "&": 5, "==": 6, "!=": 6, "===": 6, "!==": 6, "<": 7, "<=": 7, ">": 7, ">=": 7,
        "<<": 8, ">>": 8, "<<<": 8, ">>>": 8, "+": 9, "-": 9, "*": 10, "/": 10, "%": 10, "**": 11}
NETS = {"wire", "reg", "integer", "tri", "logic", "bit", "int", "byte", "wand", "wor", "supply0", "supply1"}
VARS = {"reg", "integer", "logic", "bit", "int", "byte"}
INTS = {"integer", "int"}
GATES = {"and", "or", "nand", "nor", "xor", "xnor", "not", "buf"}


ONE = ("n", None, True, [1] + [0] * 31)


class Parser:
    def __init__(self, text):
        self.t, self.i = lex(text), 0

    def pk(self, s=None):
        return self.t[self.i][1] == s and self.t[self.i][0] != "str" if s is not None else self.t[self.i][1]

    def acc(self, s):
        if self.pk(s):
            self.i += 1
            return True
        return False

    def exp(self, s):
        if not self.acc(s):
            raise VErr("expected %r, found %r near ... %s" % (s, self.pk(), " ".join(x[1] for x in self.t[max(0, self.i - 12):self.i + 6])))

    def ident(self):
        k, s = self.t[self.i]
        if k != "id":
            raise VErr("identifier expected, found %r near %s" % (s, " ".join(x[1] for x in self.t[max(0, self.i - 12):self.i + 6])))
        self.i += 1
        return s

    def ident2(self):
        self.i += 1
        return self.t[self.i - 1][1]

    # expressions
    def expr(self):
        c = self.bin(1)
        if self.acc("?"):
            a = self.expr()
            self.exp(":")
            return ("?", c, a, self.expr())
        return c

    def bin(self, lv):
        a = self.un()
        while True:
            k, op = self.t[self.i]
            p = BINP.get(op) if k == "op" else None
            if p is None or p < lv:
                return a
            self.i += 1
            a = ("b", op, a, self.bin(p + 1))

    def un(self):
        k, s = self.t[self.i]
        if k == "op" and s in ("+", "-", "!", "~", "&", "|", "^", "~&", "~|", "~^", "^~"):
            self.i += 1
            return ("u", s, self.un())
        return self.prim()

    def prim(self):
        k, s = self.t[self.i]
        if k == "num":
            self.i += 1
            # "4 'b0": the lexer has joined these already
            return ("n",) + parse_num(s)
        if k == "str":
            self.i += 1
            return ("str", s)
        if k == "sys":
            self.i += 1
            args = []
            if self.acc("("):
                while not self.acc(")"):
                    args.append(self.expr())
                    self.acc(",")
            return ("sys", s, args)
        if self.acc("("):
            e = self.expr()
            self.exp(")")
            return e
        if self.acc("{"):
            e = self.expr()
            if self.pk("{"):
                self.i += 1
                l = [self.expr()]
                while self.acc(","):
                    l.append(self.expr())
                self.exp("}")
                self.exp("}")
                return ("rep", e, l)
            l = [e]
            while self.acc(","):
                l.append(self.expr())
            self.exp("}")
            return ("cat", l)
        if k == "id":
            nm = self.ident()
            if self.pk("("):
                self.i += 1
                args = []
                while not self.acc(")"):
                    args.append(self.expr())
                    self.acc(",")
                return ("call", nm, args)
            return self.sel(nm)
        raise VErr("expression expected, found %r near %s" % (s, " ".join(x[1] for x in self.t[max(0, self.i - 12):self.i + 6])))

    def sel(self, nm):
        path, sels = [], []
        while True:
            if self.pk(".") and self.t[self.i + 1][0] == "id" and (not sels or len(sels) == 1 and sels[0][0] == "i"):
                self.i += 1
                path.append((nm, sels[0][1] if sels else None))
                nm, sels = self.ident(), []
                continue
            if not self.acc("["):
                break
            a = self.expr()
            if self.acc(":"):
                sels.append(("r", a, self.expr()))
            elif self.acc("+:"):
                sels.append(("+", a, self.expr()))
            elif self.acc("-:"):
                sels.append(("-", a, self.expr()))
            else:
                sels.append(("i", a))
            self.exp("]")
        return ("id", (tuple(path), nm) if path else nm, sels)

    def lval(self):
        if self.acc("{"):
            l = [self.lval()]
            while self.acc(","):
                l.append(self.lval())
            self.exp("}")
            return ("cat", l)
        return self.sel(self.ident())

    def rng(self, size=False):
        if self.acc("["):
            a = self.expr()
            if size and self.acc("]"):      # [N] is [0:N-1]
                return (("n", None, True, [0] * 32), ("b", "-", a, ONE))
            self.exp(":")
            b = self.expr()
            self.exp("]")
            return (a, b)
        return None

    # statements
    def stmt(self):
        while self.pk("#"):
            self.i += 1
            self.prim()
        if self.acc(";"):
            return ("nop",)
        if self.acc("begin"):
            nm = self.ident() if self.acc(":") else None
            l = []
            while not self.acc("end"):
                if self.pk() in ("parameter", "localparam"):
                    k = self.ident()
                    l.append(("decl", self.params(k, ";")))
                    continue
                l.append(self.stmt())
            return ("blk", l, nm)
        if self.acc("if"):
            self.exp("(")
            c = self.expr()
            self.exp(")")
            a = self.stmt()
            b = self.stmt() if self.acc("else") else None
            return ("if", c, a, b)
        if self.pk() in ("unique", "priority", "unique0"):
            self.i += 1
            return self.stmt()
        for kw in ("case", "casez", "casex"):
            if self.pk(kw):
                self.i += 1
                self.exp("(")
                e = self.expr()
                self.exp(")")
                items = []
                while not self.acc("endcase"):
                    if self.acc("default"):
                        self.acc(":")
                        items.append((None, self.stmt()))
                    else:
                        l = [self.expr()]
                        while self.acc(","):
                            l.append(self.expr())
                        self.exp(":")
                        items.append((l, self.stmt()))
                return ("case", kw, e, items)
        if self.acc("for"):
            self.exp("(")
            dc = None
            if self.pk() in VARS:
                kind = self.ident()
                sg = self.acc("signed")
                self.acc("unsigned")
                r = self.rng()
                dc = ("var", None, kind, sg or kind in INTS, r, self.pk(), [], None)
            a = self.asg()
            self.exp(";")
            c = self.expr()
            self.exp(";")
            s = self.asg()
            self.exp(")")
            st = ("for", a, c, s, self.stmt())
            return ("blk", [("decl", [dc]), st], None) if dc else st
        if self.acc("while"):
            self.exp("(")
            c = self.expr()
            self.exp(")")
            return ("for", ("nop",), c, ("nop",), self.stmt())
        if self.acc("repeat"):
            self.exp("(")
            c = self.expr()
            self.exp(")")
            return ("repeat", c, self.stmt())
        if self.t[self.i][0] == "sys":
            self.i += 1
            if self.acc("("):
                d = 1
                while d:
                    s = self.pk()
                    d += (s == "(") - (s == ")")
                    self.i += 1
            self.exp(";")
            return ("nop",)
        if self.pk() in VARS or self.pk() == "automatic":
            self.acc("automatic")
            return ("decl", self.decl())
        if self.t[self.i][0] == "id" and self.t[self.i + 1][1] in ("(", ";"):
            nm, args = self.ident(), []
            if self.acc("("):
                while not self.acc(")"):
                    args.append(self.expr())
                    self.acc(",")
            self.exp(";")
            return ("tcall", nm, args)
        a = self.asg()
        self.exp(";")
        return a

    def asg(self):
        if self.pk("++") or self.pk("--"):
            op = self.ident2()
            l = self.lval()
            return ("asg", False, l, ("b", op[0], l, ONE))
        l = self.lval()
        if self.pk("++") or self.pk("--"):
            return ("asg", False, l, ("b", self.ident2()[0], l, ONE))
        if self.t[self.i][0] == "op" and self.pk() in ("+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>=", "<<<=", ">>>="):
            op = self.ident2()[:-1]
            return ("asg", False, l, ("b", op, l, self.expr()))
        if self.acc("="):
            nb = False
        elif self.acc("<="):
            nb = True
        else:
            raise VErr("assignment expected near %s" % " ".join(x[1] for x in self.t[max(0, self.i - 8):self.i + 4]))
        while self.acc("#"):
            self.prim()
        return ("asg", nb, l, self.expr())

    # declarations
    def decl(self):
        """current token: reg/wire/integer/input/output...; returns list of ('var', dir, kind, signed, rng, name, dims, init)"""
        dr = None
        if self.pk() in ("input", "output", "inout"):
            dr = self.ident()
        kind = None
        if self.pk() in NETS:
            kind = self.ident()
        sg = self.acc("signed")
        self.acc("unsigned")
        r = self.rng()
        out = []
        while True:
            nm = self.ident()
            dims = []
            while self.pk("["):
                dims.append(self.rng(True))
            init = self.expr() if self.acc("=") else None
            out.append(("var", dr, kind, sg or kind in INTS, r, nm, dims, init))
            if not self.acc(","):
                break
        self.exp(";")
        return out

    def params(self, kind, endtok):
        out = []
        sg = self.ptype()
        r = self.rng()
        while True:
            nm = self.ident()
            self.exp("=")
            out.append(("param", kind, sg, r, nm, self.expr()))
            if not self.acc(","):
                break
            if self.acc("parameter"):
                sg = self.ptype()
                r = self.rng()
        self.exp(endtok)
        return out

    def ptype(self):
        if self.pk() in VARS:
            return self.ident() in INTS or self.acc("signed")
        sg = self.acc("signed")
        if self.pk() in VARS:
            self.i += 1
        return sg

    def module(self):
        nm = self.ident()
        items, ports = [], []
        if self.acc("#"):
            self.exp("(")
            self.acc("parameter")
            items += self.params("parameter", ")")
        if self.acc("("):
            cur = (None, None, False, None)
            while not self.acc(")"):
                if self.pk() in ("input", "output", "inout"):
                    dr = self.ident()
                    kind = self.ident() if self.pk() in NETS else None
                    sg = self.acc("signed")
                    cur = (dr, kind, sg, self.rng())
                elif self.acc("."):
                    raise VErr("explicit port expressions")
                p = self.ident()
                ports.append(p)
                if cur[0]:
                    items.append(("var", cur[0], cur[1], cur[2], cur[3], p, [], None))
                self.acc(",")
        self.exp(";")
        while not self.acc("endmodule"):
            items += self.item()
        return ("module", nm, ports, items)

    def item(self):
        s = self.pk()
        k = self.t[self.i][0]
        if s == ";":
            self.i += 1
            return []
        if s in ("parameter", "localparam"):
            self.i += 1
            return self.params(s, ";")
        if s in ("input", "output", "inout") or s in NETS:
            return self.decl()
        if s == "genvar":
            self.i += 1
            while True:
                self.ident()
                if not self.acc(","):
                    break
            self.exp(";")
            return []
        if s == "assign":
            self.i += 1
            while self.acc("#"):
                self.prim()
            out = []
            while True:
                l = self.lval()
                self.exp("=")
                out.append(("assign", l, self.expr()))
                if not self.acc(","):
                    break
            self.exp(";")
            return out
        if s in ("always", "always_comb", "always_ff"):
            self.i += 1
            ev = []
            if self.acc("@"):
                if self.acc("*"):
                    pass
                else:
                    self.exp("(")
                    while not self.acc(")"):
                        if self.pk() in ("posedge", "negedge"):
                            e = self.ident()
                            ev.append((e, self.expr()))
                        elif self.acc("*") or self.acc(",") or self.acc("or"):
                            pass
                        else:
                            self.expr()
            return [("always", ev, self.stmt())]
        if s == "initial":
            self.i += 1
            return [("initial", self.stmt())]
        if s == "task" or s == "function" and self.t[self.i + 1][1] == "void":
            self.i += 1
            end = "end" + s
            self.acc("void")
            self.acc("automatic")
            nm = self.ident()
            args, decls = [], []
            if self.acc("("):
                cur = ("input", None, False, None)
                while not self.acc(")"):
                    if self.pk() in ("input", "output", "inout") or self.pk() in NETS:
                        dr = self.ident() if self.pk() in ("input", "output", "inout") else cur[0]
                        kind = self.ident() if self.pk() in NETS else None
                        cur = (dr, kind, self.acc("signed") or kind in INTS, self.rng())
                    a = self.ident()
                    args.append((cur[0], a))
                    decls.append(("var", cur[0], cur[1], cur[2], cur[3], a, [], None))
                    self.acc(",")
            self.exp(";")
            body = []
            while not self.acc(end):
                if self.pk() in ("input", "output", "inout"):
                    d = self.decl()
                    decls += d
                    args += [(x[1], x[5]) for x in d]
                elif self.pk() in ("parameter", "localparam"):
                    k = self.ident()
                    body.append(("decl", self.params(k, ";")))
                else:
                    body.append(self.stmt())
            return [("task", nm, args, decls, ("blk", body, None))]
        if s == "function":
            self.i += 1
            sg, r, integer = False, None, False
            self.acc("automatic")
            if self.acc("integer") or self.acc("int"):
                sg, integer = True, True
            else:
                if self.pk() in VARS:
                    self.i += 1
                sg = self.acc("signed")
                r = self.rng()
            nm = self.ident()
            args, decls = [], []
            if self.acc("("):
                cur = None
                while not self.acc(")"):
                    if self.acc("input") or self.pk() in NETS:
                        kind = self.ident() if self.pk() in NETS else None
                        cur = (self.acc("signed") or kind in INTS, self.rng(), kind)
                    a = self.ident()
                    args.append(a)
                    decls.append(("var", "input", cur[2], cur[0], cur[1], a, [], None))
                    self.acc(",")
            self.exp(";")
            body = []
            while self.pk() in VARS or self.pk() in ("input", "parameter", "localparam"):
                if self.pk() in ("parameter", "localparam"):
                    k = self.ident()
                    body.append(("decl", self.params(k, ";")))
                    continue
                d = self.decl()
                decls += d
                args += [x[5] for x in d if x[1] == "input"]
            while not self.acc("endfunction"):
                body.append(self.stmt())
            return [("function", nm, sg, r, integer, args, decls, ("blk", body, None))]
        if s == "generate":
            self.i += 1
            out = []
            while not self.acc("endgenerate"):
                out += self.item()
            return out
        if s == "begin":
            return [self.gblk()]
        if s == "for":
            self.i += 1
            self.exp("(")
            self.acc("genvar")
            v = self.ident()
            self.exp("=")
            a = self.expr()
            self.exp(";")
            c = self.expr()
            self.exp(";")
            st = self.asg()
            v2, st = st[2][1], st[3]
            self.exp(")")
            return [("gfor", v, a, c, v2, st, self.gblk())]
        if s == "if":
            self.i += 1
            self.exp("(")
            c = self.expr()
            self.exp(")")
            a = self.gblk()
            b = self.gblk() if self.acc("else") else None
            return [("gif", c, a, b)]
        if s == "case":
            self.i += 1
            self.exp("(")
            e = self.expr()
            self.exp(")")
            items = []
            while not self.acc("endcase"):
                if self.acc("default"):
                    self.acc(":")
                    items.append((None, self.gblk()))
                else:
                    l = [self.expr()]
                    while self.acc(","):
                        l.append(self.expr())
                    self.exp(":")
                    items.append((l, self.gblk()))
            return [("gcase", e, items)]
        if s in GATES and k == "id":
            self.i += 1
            out = []
            while True:
                nm = self.ident() if not self.pk("(") else "g"
                self.exp("(")
                l = [self.expr()]
                while self.acc(","):
                    l.append(self.expr())
                self.exp(")")
                out.append(("gate", s, l))
                if not self.acc(","):
                    break
            self.exp(";")
            return out
        if s == "defparam":
            raise VErr("defparam")
        # instantiation
        mod = self.ident()
        pars, pos = {}, []
        if self.acc("#"):
            if self.acc("("):
                while not self.acc(")"):
                    if self.acc("."):
                        p = self.ident()
                        self.exp("(")
                        if not self.pk(")"):
                            pars[p] = self.expr()
                        self.exp(")")
                    else:
                        pos.append(self.expr())
                    self.acc(",")
            else:
                pos.append(self.prim())
        out = []
        while True:
            nm = self.ident()
            arr = self.rng(True)
            self.exp("(")
            con, named = [], None
            while not self.acc(")"):
                if self.acc("."):
                    named = named or {}
                    p = self.ident()
                    self.exp("(")
                    if p in named:
                        raise VErr("port %s connected twice" % p)
                    named[p] = None if self.pk(")") else self.expr()
                    self.exp(")")
                elif self.pk(","):
                    con.append(None)
                else:
                    con.append(self.expr())
                if not self.pk(")"):
                    self.exp(",")
            out.append(("inst", mod, pars, pos, nm, con, named, arr))
            if not self.acc(","):
                break
        self.exp(";")
        return out

    def gblk(self):
        if self.acc("begin"):
            nm = self.ident() if self.acc(":") else None
            l = []
            while not self.acc("end"):
                l += self.item()
            return ("gblk", nm, l)
        return ("gblk", None, self.item())

    def source(self):
        mods = {}
        while self.t[self.i][0] != "eof":
            if self.acc("module"):
                m = self.module()
                mods[m[1]] = m
            elif self.acc(";"):
                pass
            else:
                raise VErr("module expected, found %r" % self.pk())
        return mods


# ------------------------------------------------------------------ gate graph
AND, XOR, OR, MUXG, INP, REG, UND, NET = "AND", "XOR", "OR", "MUX", "IN", "REG", "UNDEF", "NET"


class Graph:
    """Nodes 0 and 1 are the constants."""

    def __init__(self):
        self.op = ["C0", "C1"]
        self.a = [0, 0]
        self.b = [0, 0]
        self.c = [0, 0]
        self.h = {}
        self.drv = {}

    def new(self, op, a=0, b=0, c=0):
        self.op.append(op)
        self.a.append(a)
        self.b.append(b)
        self.c.append(c)
        return len(self.op) - 1

    def g(self, op, a, b, c=0):
        k = (op, a, b, c)
        n = self.h.get(k)
        if n is None:
            n = self.h[k] = self.new(op, a, b, c)
        return n

    def AND(self, a, b):
        if a > b:
            a, b = b, a
        if a == 0:
            return 0
        if a == 1 or a == b:
            return b
        return self.g(AND, a, b)

    def XOR(self, a, b):
        if a > b:
            a, b = b, a
        if a == 0:
            return b
        if a == b:
            return 0
        if a == 1 and self.op[b] == XOR and self.a[b] == 1:
            return self.b[b]
        return self.g(XOR, a, b)

    def NOT(self, a):
        return self.XOR(a, 1)

    def OR(self, a, b):
        if a > b:
            a, b = b, a
        if a == 0 or a == b:
            return b
        if a == 1:
            return 1
        return self.g(OR, a, b)

    def MUX(self, s, a, b):
        """s ? a : b"""
        if s == 1 or a == b:
            return a
        if s == 0:
            return b
        if a == 1 and b == 0:
            return s
        if a == 0 and b == 1:
            return self.NOT(s)
        if a == 0:
            return self.AND(self.NOT(s), b)
        if b == 0:
            return self.AND(s, a)
        if a == 1:
            return self.OR(s, b)
        if b == 1:
            return self.OR(self.NOT(s), a)
        return self.g(MUXG, s, a, b)


def cval(bits):
    """constant value of a bit vector or None"""
    v = 0
    for i, x in enumerate(bits):
        if x == 1:
            v |= 1 << i
        elif x:
            return None
    return v


def cbits(v, w):
    return [(v >> i) & 1 for i in range(w)]


class Sig:
    __slots__ = ("name", "l", "r", "w", "sg", "dims", "bits", "kind", "n", "dir")

    def __init__(self, name, l, r, sg, dims, kind, dr):
        self.name, self.l, self.r, self.sg, self.dims, self.kind, self.dir = name, l, r, sg, dims, kind, dr
        self.w = abs(l - r) + 1
        self.n = self.w
        for a, b in dims:
            self.n *= abs(a - b) + 1
        self.bits = None


class Scope:
    def __init__(self, parent, name, top):
        self.p, self.name, self.top = parent, name, top
        self.s = {}     # name -> Sig | ("par", bits, signed) | ("fn", item, scope)
        self.blk = {}   # scopes of blocks with declarations
        self.ch = {}

    def find(self, n):
        s = self
        while s is not None:
            if n in s.s:
                return s.s[n]
            if s.top is s:
                return None
            s = s.p
        return None


class Design:
    def __init__(self, mods, top, params=None, clk="clk", steps=None):
        self.mods, self.G = mods, Graph()
        self.warn = []
        self.regs = []       # (q node, d node)
        self.inputs, self.outputs = {}, {}
        self.todo = []
        self.soft, self.init = {}, {}
        self.und = 0
        self.depth = 0
        if top not in mods:
            raise VErr("module %s not found" % top)
        root = Scope(None, top, None)
        root.top = root
        pv = {k: (cbits(v, 32), True) for k, v in (params or {}).items()}
        self.module(mods[top], root, pv)
        for p in mods[top][2]:
            s = root.s.get(p)
            if not isinstance(s, Sig) or not s.dir:
                raise VErr("port %s of %s has no direction" % (p, top))
            if s.dir == "input":
                bits = [self.G.new(INP) for _ in range(s.n)]
                self.inputs[p] = bits
                for x, b in zip(s.bits, bits):
                    self.drive(x, b, p)
            else:
                self.outputs[p] = list(s.bits)
        self.root = root
        self.finish()

    def drive(self, net, node, what):
        if net in self.G.drv:
            if self.G.drv[net] == node:
                return
            raise VBad("two drivers for a bit of " + what)
        self.G.drv[net] = node

    def undef(self):
        self.und += 1
        return self.G.new(UND)

    # -------- declarations
    def mksig(self, sc, v, nets=True):
        _, dr, kind, sg, r, nm, dims, init = v
        if kind in INTS:
            l, rr = 31, 0
        elif kind == "byte" and not r:
            l, rr = 7, 0
        elif r:
            l, rr = self.cint(r[0], sc), self.cint(r[1], sc)
        else:
            l = rr = 0
        old = sc.s.get(nm)
        if isinstance(old, Sig):   # "output o; reg o;"
            if r or old.w == 1:
                pass
            else:
                l, rr = old.l, old.r
            if old.bits is not None and (abs(l - rr) + 1 != old.w) and r:
                raise VErr("%s declared with two widths" % nm)
            old.kind = kind or old.kind
            old.sg = old.sg or sg
            old.dir = old.dir or dr
            return old
        s = Sig(nm, l, rr, sg, [(self.cint(a, sc), self.cint(b, sc)) for a, b in dims], kind or "wire", dr)
        if s.n > 4000000:
            raise VErr("signal too large: " + nm)
        if nets:
            s.bits = [self.G.new(NET) for _ in range(s.n)]
        sc.s[nm] = s
        return s

    def module(self, m, sc, pv):
        self.depth += 1
        if self.depth > 400:
            raise VErr("instantiation too deep (%s)" % m[1])
        # parameters and functions first; declarations in order
        given = dict(pv)
        self.items(m[3], sc, given)
        for k in given:
            if k not in sc.s or sc.s[k][0] != "par":
                raise VErr("module %s has no parameter %s" % (m[1], k))
        self.depth -= 1

    def param(self, it, sc, given=None):
        _, kind, sg, r, nm, e = it
        if kind == "parameter" and given and nm in given:
            bits, s = given[nm]
        else:
            bits, s = self.ev_self(e, sc)
            if r:
                w = abs(self.cint(r[0], sc) - self.cint(r[1], sc)) + 1
                bits, s = self.ext(bits, s, w), sg
            elif len(bits) < 32 and e[0] == "n" and e[1] is None:
                bits = self.ext(bits, s, 32)
        if cval(bits) is None:
            raise VErr("parameter %s is not constant" % nm)
        sc.s[nm] = ("par", bits, s)

    def items(self, its, sc, given=None):
        for it in its:
            if it[0] in ("function", "task"):
                sc.s[it[1]] = ("fn", it, sc)
        later = []
        for it in its:
            k = it[0]
            if k == "param":
                self.param(it, sc, given)
            elif k == "var":
                s = self.mksig(sc, it)
                if it[7] is not None:
                    if it[2] in VARS:
                        later.append(("initial", ("asg", False, ("id", it[5], []), it[7])))
                    else:
                        later.append(("assign", ("id", it[5], []), it[7]))
            elif k in ("function", "task"):
                pass
            else:
                later.append(it)
        for it in later:
            self.item(it, sc)

    def gscope(self, sc, nm):
        c = Scope(sc, nm, sc.top)
        if nm:
            sc.ch[nm] = c
        return c

    def item(self, it, sc):
        k = it[0]
        G = self.G
        if k == "assign":
            self.assign(it[1], it[2], sc)
        elif k == "always":
            self.always(it, sc)
        elif k == "initial":
            try:
                tg, env = set(), Env(self, {})
                self.targets(it[1], sc, tg)
                for s in tg:
                    env.v[s] = [self.G.new(UND) for _ in s.bits]
                self.run(it[1], sc, env)
                for s in tg:
                    for x, d in zip(s.bits, env.v[s]):
                        if d in (0, 1):
                            self.init[x] = d
            except VErr:
                pass
            self.warn.append("initial block in " + sc.top.name)
        elif k == "gblk":
            self.items(it[2], self.gscope(sc, it[1]))
        elif k == "gif":
            c = self.cint(it[1], sc)
            b = it[2] if c else it[3]
            if b:
                self.items(b[2], self.gscope(sc, b[1]))
        elif k == "gcase":
            v = self.cint(it[1], sc)
            dflt = None
            for l, b in it[2]:
                if l is None:
                    dflt = b
                elif any(self.cint(e, sc) == v for e in l):
                    self.items(b[2], self.gscope(sc, b[1]))
                    return
            if dflt:
                self.items(dflt[2], self.gscope(sc, dflt[1]))
        elif k == "gfor":
            _, v, a, c, v2, st, b = it
            if v != v2:
                raise VErr("generate loop variable")
            x = self.cint(a, sc)
            n = 0
            while True:
                l = self.gscope(sc, None)
                l.s[v] = ("par", cbits(x, 32), True)
                if not self.cint(c, l):
                    break
                ch = self.gscope(sc, "%s[%d]" % (b[1], x) if b[1] else None)
                ch.s[v] = ("par", cbits(x, 32), True)
                self.items(b[2], ch)
                x = self.cint(st, l)
                n += 1
                if n > 200000:
                    raise VErr("generate loop does not end")
        elif k == "gate":
            g, l = it[1], it[2]
            if g in ("not", "buf"):
                ins = [self.ev_self(l[-1], sc)[0][0]]
                outs = l[:-1]
            else:
                ins = [self.ev_self(e, sc)[0][0] for e in l[1:]]
                outs = l[:1]
            f = {"and": G.AND, "nand": G.AND, "or": G.OR, "nor": G.OR, "xor": G.XOR, "xnor": G.XOR}.get(g)
            x = ins[0]
            for y in ins[1:]:
                x = f(x, y)
            if g in ("not", "nand", "nor", "xnor"):
                x = G.NOT(x)
            for o in outs:
                self.drive(self.lbits(o, sc)[0], x, "gate output")
        elif k == "inst":
            self.inst(it, sc)
        else:
            raise VErr("item " + k)

    def inst(self, it, sc):
        _, mod, pars, pos, nm, con, named, arr = it
        if arr:
            a, b = self.cint(arr[0], sc), self.cint(arr[1], sc)
            idx = range(b, a + 1) if a >= b else range(b, a - 1, -1)
            for k, i in enumerate(idx):
                self.inst1(mod, pars, pos, "%s[%d]" % (nm, i), con, named, sc, k, len(idx))
        else:
            self.inst1(mod, pars, pos, nm, con, named, sc, 0, 1)

    def inst1(self, mod, pars, pos, nm, con, named, sc, k, cnt):
        m = self.mods.get(mod)
        if m is None:
            raise VErr("module %s not found (instance %s)" % (mod, nm))
        pv = {}
        pnames = [x[4] for x in m[3] if x[0] == "param" and x[1] == "parameter"]
        for i, e in enumerate(pos):
            if i >= len(pnames):
                raise VErr("too many parameters for " + mod)
            pv[pnames[i]] = self.ev_self(e, sc)
        for p, e in pars.items():
            pv[p] = self.ev_self(e, sc)
        ch = Scope(sc, mod, None)
        ch.top = ch
        sc.ch[nm] = ch
        self.module(m, ch, pv)
        if named is None:
            if len(con) > len(m[2]):
                raise VErr("too many connections to " + mod)
            pairs = list(zip(m[2], con))
        else:
            if con:
                raise VErr("mixed connections")
            pairs = list(named.items())
        done = set()
        for p, e in pairs:
            s = ch.s.get(p)
            if p not in m[2] or not isinstance(s, Sig):
                raise VErr("module %s has no port %s" % (mod, p))
            done.add(p)
            if e is None:
                continue
            if s.dir == "input":
                if cnt > 1 and self.size(e, sc)[0] == s.n * cnt:
                    bits = self.ev_self(e, sc)[0][k * s.n:(k + 1) * s.n]
                else:
                    bits, sg = self.ev_ctx(e, sc, s.n)
                for x, b in zip(s.bits, bits):
                    self.drive(x, b, "%s.%s" % (nm, p))
            else:
                if e[0] not in ("id", "cat"):
                    raise VErr("output port %s.%s is connected to an expression" % (nm, p))
                tgt = self.lbits(e, sc, implicit=1)
                if cnt > 1:
                    tgt = tgt[k * s.n:(k + 1) * s.n]
                for i, t in enumerate(tgt):
                    if i < s.n:
                        self.drive(t, s.bits[i], "%s.%s" % (nm, p))

    # -------- continuous assignment
    def look(self, nm, sc, implicit=False):
        if isinstance(nm, tuple):
            return self.hier(nm, sc)
        s = sc.find(nm)
        if s is None:
            if not implicit:
                raise VErr("undeclared identifier %s" % (nm,))
            self.warn.append("implicit net %s in %s" % (nm, sc.top.name))
            return self.mksig(sc.top, ("var", None, "wire", False, None, nm, [], None))
        return s

    def hier(self, nm, sc):
        """a.b[2].c, searched upwards from the scope of the reference"""
        at = sc
        steps = [n if i is None else "%s[%d]" % (n, self.cint(i, sc)) for n, i in nm[0]]
        while at is not None:
            c = at
            for n in steps:
                c = c.ch.get(n) if c is not None else None
            if c is not None and nm[1] in c.s:
                return c.s[nm[1]]
            if at.p is None and at.name == steps[0] and len(steps) == 1 and nm[1] in at.s:
                return at.s[nm[1]]
            at = at.p
        raise VErr("hierarchical name %s.%s" % (".".join(steps), nm[1]))

    def pos(self, s, i):
        """bit offset of index i in the packed range, or None"""
        o = i - s.r if s.l >= s.r else s.r - i
        return o if 0 <= o < s.w else None

    def lbits(self, e, sc, implicit=False):
        """net nodes of an lvalue with constant selects, least significant first"""
        if e[0] == "cat":
            out = []
            for x in reversed(e[1]):
                out += self.lbits(x, sc, implicit)
            return out
        if e[0] != "id":
            raise VErr("lvalue")
        s = self.look(e[1], sc, implicit)
        if not isinstance(s, Sig):
            raise VErr("assignment to %s" % (e[1],))
        idx = self.cidx(s, e, sc)
        return [s.bits[i] if i is not None else self.G.new(NET) for i in idx]

    def cidx(self, s, e, sc):
        """flat bit indexes selected by constant selects"""
        base, size, sels = 0, s.n, list(e[2])
        for a, b in s.dims:
            if not sels:
                raise VErr("array %s used without an index" % s.name)
            k = sels.pop(0)
            if k[0] != "i":
                raise VErr("slice of array " + s.name)
            n = abs(a - b) + 1
            size //= n
            i = self.cint(k[1], sc)
            if not min(a, b) <= i <= max(a, b):
                return [None] * (s.w if not sels else 1)
            base += (i - min(a, b)) * size
        if not sels:
            return list(range(base, base + s.w))
        if len(sels) > 1:
            raise VErr("too many selects on " + s.name)
        k = sels[0]
        if k[0] == "i":
            o = self.pos(s, self.cint(k[1], sc))
            return [None if o is None else base + o]
        lo, hi = self.slice(k, s, sc)
        out = []
        for i in (range(lo, hi + 1) if s.l >= s.r else range(hi, lo - 1, -1)):
            o = self.pos(s, i)
            out.append(None if o is None else base + o)
        return out

    def slice(self, k, s, sc):
        if k[0] == "r":
            a, b = self.cint(k[1], sc), self.cint(k[2], sc)
            if (a > b) != (s.l > s.r) and a != b and s.w > 1:
                raise VErr("reversed part select on " + s.name)
            return min(a, b), max(a, b)
        a, w = self.cint(k[1], sc), self.cint(k[2], sc)
        return (a, a + w - 1) if k[0] == "+" else (a - w + 1, a)

    def assign(self, l, r, sc):
        t = self.lbits(l, sc, implicit=True)
        v, _ = self.ev_ctx(r, sc, len(t))
        for x, b in zip(t, v):
            self.drive(x, b, str(l[1]) if l[0] == "id" else "concatenation")

    # -------- expressions
    def cint(self, e, sc, env=None):
        if e[0] == "n":
            v = cval([1 if x == 1 else 0 for x in e[3]])
            return v - (1 << len(e[3])) if e[2] and e[3][-1] == 1 else v
        if e[0] == "id" and not e[2]:
            s = sc.find(e[1])
            if isinstance(s, tuple) and s[0] == "par":
                v = cval(s[1])
                return v - (1 << len(s[1])) if s[2] and s[1][-1] else v
        bits, sg = self.ev_self(e, sc, env)
        v = cval(bits)
        if v is None:
            raise VErr("constant expression expected: %r" % (e,))
        return v - (1 << len(bits)) if sg and bits and bits[-1] else v

    def ext(self, b, sg, w):
        if len(b) >= w:
            return b[:w]
        return b + [b[-1] if sg and b else 0] * (w - len(b))

    def ev_self(self, e, sc, env=None):
        w, sg = self.size(e, sc, env)
        return self.ev(e, sc, w, sg, env), sg

    def ev_ctx(self, e, sc, w, env=None):
        """evaluate in an assignment to a target of width w"""
        n, sg = self.size(e, sc, env)
        m = max(n, w)
        return self.ev(e, sc, m, sg, env)[:w], sg

    def find(self, nm, sc, env):
        return self.look(nm, sc, implicit=env is None)

    def size(self, e, sc, env=None):
        k = e[0]
        if k == "n":
            return (1 if e[1] == "fill" else e[1] if e[1] is not None else len(e[3])), e[2]
        if k == "str":
            return 8 * max(1, len(e[1]) - 2), False
        if k == "id":
            s = self.find(e[1], sc, env)
            if not isinstance(s, Sig):
                if s[0] != "par":
                    raise VErr("%s is not a value" % e[1])
                if e[2]:
                    if e[2][0][0] == "i":
                        return 1, False
                    a, b = self.cint(e[2][0][1], sc, env), self.cint(e[2][0][2], sc, env)
                    return abs(a - b) + 1, False
                return len(s[1]), s[2]
            sels = e[2][len(s.dims):]
            if len(e[2]) < len(s.dims):
                raise VErr("array %s used without an index" % e[1])
            if not sels:
                return s.w, s.sg
            q = sels[-1]
            if q[0] == "i":
                return 1, False
            if q[0] == "r":
                return abs(self.cint(q[1], sc, env) - self.cint(q[2], sc, env)) + 1, False
            return self.cint(q[2], sc, env), False
        if k == "cat":
            return sum(self.size(x, sc, env)[0] for x in e[1]), False
        if k == "rep":
            return max(0, self.cint(e[1], sc, env)) * sum(self.size(x, sc, env)[0] for x in e[2]), False
        if k == "?":
            a, b = self.size(e[2], sc, env), self.size(e[3], sc, env)
            return max(a[0], b[0]), a[1] and b[1]
        if k == "u":
            if e[1] in ("+", "-", "~"):
                return self.size(e[2], sc, env)
            return 1, False
        if k == "b":
            op = e[1]
            if op in ("&&", "||", "==", "!=", "===", "!==", "<", "<=", ">", ">="):
                return 1, False
            a = self.size(e[2], sc, env)
            if op in ("<<", ">>", "<<<", ">>>", "**"):
                return a
            b = self.size(e[3], sc, env)
            return max(a[0], b[0]), a[1] and b[1]
        if k == "call":
            f = self.fn(e[1], sc)
            r = f[1]
            return (32 if r[4] else abs(self.cint(r[3][0], f[2]) - self.cint(r[3][1], f[2])) + 1 if r[3] else 1), r[2]
        if k == "sys":
            if e[1] in ("$signed", "$unsigned"):
                return self.size(e[2][0], sc, env)[0], e[1] == "$signed"
            if e[1] == "$clog2":
                return 32, True
            if e[1] in ("$time", "$random"):
                raise VErr(e[1])
        raise VErr("expression %r" % (e[:2],))

    def fn(self, nm, sc, kind="function"):
        while sc is not None:
            f = sc.s.get(nm)
            if isinstance(f, tuple) and f[0] == "fn" and f[1][0] == kind:
                return f
            if sc.top is sc:
                break
            sc = sc.p
        raise VErr("%s %s not found" % (kind, nm))

    def boolv(self, e, sc, env):
        b, _ = self.ev_self(e, sc, env)
        return self.orr(b)

    def orr(self, b):
        if 1 in b:
            return 1
        return self.tree([x for x in b if x], self.G.OR, 0)

    def tree(self, l, f, unit):
        if not l:
            return unit
        while len(l) > 1:
            l = [f(l[i], l[i + 1]) if i + 1 < len(l) else l[i] for i in range(0, len(l), 2)]
        return l[0]

    def add(self, a, b, c):
        """ripple sum; returns (sum, carry)"""
        G = self.G
        x, y = cval(a), cval(b)
        if x is not None and y is not None and c < 2:
            s = x + y + c
            return cbits(s, len(a)), (s >> len(a)) & 1
        out = []
        for p, q in zip(a, b):
            t = G.XOR(p, q)
            out.append(G.XOR(t, c))
            c = G.MUX(t, c, p)
        return out, c

    def inv(self, a):
        return [self.G.NOT(x) for x in a]

    def mux(self, s, a, b):
        if s == 1:
            return a
        if s == 0:
            return b
        M = self.G.MUX
        return [M(s, x, y) for x, y in zip(a, b)]

    def lt(self, a, b, sg):
        if not a:
            return 0
        if sg:
            a, b = a[:-1] + [self.G.NOT(a[-1])], b[:-1] + [self.G.NOT(b[-1])]
        return self.G.NOT(self.add(a, self.inv(b), 1)[1])

    def ev(self, e, sc, w, sg, env=None):
        """bits of e in a context of width w and signedness sg"""
        G = self.G
        k = e[0]
        if k == "n":
            if e[1] == "fill":
                b = e[3] * w
            else:
                b = e[3]
                b = b[:w] if len(b) >= w else b + [b[-1] if sg and e[2] else 0] * (w - len(b))
            return [x if x in (0, 1) else self.undef() for x in b]
        if k == "str":
            v = int.from_bytes(e[1][1:-1].encode() or b"\0", "big")
            return cbits(v, w)
        if k == "id":
            s = self.find(e[1], sc, env)
            if not isinstance(s, Sig):
                b, bs = s[1], s[2]
                if e[2]:
                    q = e[2][0]
                    bs = False
                    if q[0] == "i":
                        ib, _ = self.ev_self(q[1], sc, env)
                        v = cval(ib)
                        if v is None:
                            b = [self.muxtree([[x] for x in b], ib)[0]]
                        else:
                            b = [b[v]] if v < len(b) else [self.undef()]
                    else:
                        x, y = self.cint(q[1], sc, env), self.cint(q[2], sc, env)
                        b = b[min(x, y):max(x, y) + 1]
                return self.ext(b, sg and bs, w)
            b = self.read(s, e, sc, env)
            return self.ext(b, sg, w)
        if k == "cat":
            out = []
            for x in reversed(e[1]):
                out += self.ev_self(x, sc, env)[0]
            return self.ext(out, False, w)
        if k == "rep":
            out = []
            for x in reversed(e[2]):
                out += self.ev_self(x, sc, env)[0]
            return self.ext(out * max(0, self.cint(e[1], sc, env)), False, w)
        if k == "?":
            c = self.boolv(e[1], sc, env)
            if c == 1:
                return self.ev(e[2], sc, w, sg, env)
            if c == 0:
                return self.ev(e[3], sc, w, sg, env)
            return self.mux(c, self.ev(e[2], sc, w, sg, env), self.ev(e[3], sc, w, sg, env))
        if k == "u":
            op = e[1]
            if op == "+":
                return self.ev(e[2], sc, w, sg, env)
            if op == "-":
                a = self.ev(e[2], sc, w, sg, env)
                return self.add(self.inv(a), [0] * w, 1)[0]
            if op == "~":
                return self.inv(self.ev(e[2], sc, w, sg, env))
            a, _ = self.ev_self(e[2], sc, env)
            if op == "!":
                r = G.NOT(self.orr(a))
            elif op in ("&", "~&"):
                r = self.tree(a, G.AND, 1)
            elif op in ("|", "~|"):
                r = self.orr(a)
            else:
                r = self.tree(a, G.XOR, 0)
            if op in ("~&", "~|", "~^", "^~"):
                r = G.NOT(r)
            return self.ext([r], False, w)
        if k == "b":
            op = e[1]
            if op in ("&&", "||"):
                a = self.boolv(e[2], sc, env)
                if op == "&&" and a == 0:
                    return self.ext([0], False, w)
                if op == "||" and a == 1:
                    return self.ext([1], False, w)
                b = self.boolv(e[3], sc, env)
                return self.ext([G.AND(a, b) if op == "&&" else G.OR(a, b)], False, w)
            if op in ("==", "!=", "===", "!==", "<", "<=", ">", ">="):
                n1, s1 = self.size(e[2], sc, env)
                n2, s2 = self.size(e[3], sc, env)
                n, s = max(n1, n2), s1 and s2
                a, b = self.ev(e[2], sc, n, s, env), self.ev(e[3], sc, n, s, env)
                if op[0] in "=!":
                    d = self.orr([G.XOR(x, y) for x, y in zip(a, b)])
                    r = d if op[0] == "!" else G.NOT(d)
                elif op == "<":
                    r = self.lt(a, b, s)
                elif op == ">":
                    r = self.lt(b, a, s)
                elif op == "<=":
                    r = G.NOT(self.lt(b, a, s))
                else:
                    r = G.NOT(self.lt(a, b, s))
                return self.ext([r], False, w)
            if op in ("<<", ">>", "<<<", ">>>"):
                a = self.ev(e[2], sc, w, sg, env)
                n, _ = self.ev_self(e[3], sc, env)
                return self.shift(op, a, n, sg)
            if op == "**":
                a, b = self.cint(e[2], sc, env), self.cint(e[3], sc, env)
                return cbits(a ** b if b >= 0 else 0, w)
            a, b = self.ev(e[2], sc, w, sg, env), self.ev(e[3], sc, w, sg, env)
            if op == "&":
                return [G.AND(x, y) for x, y in zip(a, b)]
            if op == "|":
                return [G.OR(x, y) for x, y in zip(a, b)]
            if op == "^":
                return [G.XOR(x, y) for x, y in zip(a, b)]
            if op in ("~^", "^~"):
                return [G.NOT(G.XOR(x, y)) for x, y in zip(a, b)]
            if op == "+":
                return self.add(a, b, 0)[0]
            if op == "-":
                return self.add(a, self.inv(b), 1)[0]
            if op == "*":
                return self.mul(a, b)
            return self.divmod(a, b, sg)[op == "%"]
        if k == "call":
            return self.ext(self.call(e, sc, env), sg, w)
        if k == "sys":
            if e[1] in ("$signed", "$unsigned"):
                b, _ = self.ev_self(e[2][0], sc, env)
                return self.ext(b, sg, w)
            if e[1] == "$clog2":
                v = self.cint(e[2][0], sc, env)
                return cbits(max(0, (v - 1).bit_length()), w)
        raise VErr("expression %r" % (e[:2],))

    def shift(self, op, a, n, sg):
        w = len(a)
        fill = a[-1] if op == ">>>" and sg and a else 0

        def sh(x, k):
            if op in ("<<", "<<<"):
                return ([0] * min(k, w) + x)[:w]
            return x[k:] + [fill] * min(k, w) if k < w else [fill] * w
        v = cval(n)
        if v is not None:
            return sh(a, min(v, w))
        for i, s in enumerate(n):
            a = self.mux(s, sh(a, min(1 << min(i, 40), w)), a)
        return a

    def mul(self, a, b):
        x, y = cval(a), cval(b)
        w = len(a)
        if x is not None and y is not None:
            return cbits(x * y, w)
        if x is not None:
            a, b = b, a
        acc = [0] * w
        for i, s in enumerate(b):
            if s == 0:
                continue
            p = ([0] * i + [self.G.AND(t, s) for t in a])[:w]
            acc = self.add(acc, p, 0)[0]
        return acc

    def divmod(self, a, b, sg):
        w = len(a)
        x, y = cval(a), cval(b)
        if x is not None and y is not None:
            if y == 0:
                return [self.undef() for _ in a], [self.undef() for _ in a]
            if sg:
                x -= (1 << w) if x >> (w - 1) & 1 else 0
                y -= (1 << w) if y >> (w - 1) & 1 else 0
            q = abs(x) // abs(y)
            q = -q if (x < 0) != (y < 0) else q
            return cbits(q, w), cbits(x - q * y, w)
        neg = lambda v: self.add(self.inv(v), [0] * len(v), 1)[0]
        if sg:
            sa, sb = a[-1], b[-1]
            q, r = self.divmod(self.mux(sa, neg(a), a), self.mux(sb, neg(b), b), False)
            return self.mux(self.G.XOR(sa, sb), neg(q), q), self.mux(sa, neg(r), r)
        r, q = [0] * w, [0] * w
        bb = b + [0]
        for i in range(w - 1, -1, -1):
            t = [a[i]] + r
            d, c = self.add(t, self.inv(bb), 1)
            q[i] = c
            r = self.mux(c, d, t)[:w]
        z = self.G.NOT(self.orr(b))
        if z:
            u = self.undef()
            q = [self.G.MUX(z, u, x) for x in q]
            r = [self.G.MUX(z, u, x) for x in r]
        return q, r

    def muxtree(self, els, idx):
        """select els[idx]; missing elements are undefined"""
        w = len(els[0])
        v = cval(idx)
        if v is not None:
            return els[v] if v < len(els) else [self.undef() for _ in range(w)]
        over = None
        n = len(els)
        k = max(0, (n - 1).bit_length())
        low, high = idx[:k], idx[k:]
        low = low + [0] * (k - len(low))
        und = None
        l = list(els)
        for s in low:
            m = []
            for i in range(0, len(l), 2):
                if i + 1 < len(l):
                    m.append(self.mux(s, l[i + 1], l[i]))
                elif s == 0:
                    m.append(l[i])
                else:
                    und = und or [self.undef()] * w
                    m.append(self.mux(s, und, l[i]))
            l = m
        r = l[0]
        o = self.orr(high)
        if o:
            und = und or [self.undef()] * w
            r = self.mux(o, und, r)
        return r

    def read(self, s, e, sc, env):
        sels = e[2]
        b = env.get(s) if env is not None else s.bits
        if b is None:
            raise VErr("value of %s" % s.name)
        if not sels:
            if s.dims:
                raise VErr("array %s used without an index" % s.name)
            return b
        sels = list(sels)
        for a, c in s.dims:
            if not sels:
                raise VErr("array %s used without an index" % s.name)
            q = sels.pop(0)
            if q[0] != "i":
                raise VErr("slice of array " + s.name)
            n = abs(a - c) + 1
            m = len(b) // n
            ib, isg = self.ev_self(q[1], sc, env)
            b = self.pick(b, n, m, ib, isg, min(a, c))
        if not sels:
            return b
        if len(sels) > 1:
            raise VErr("too many selects on " + s.name)
        q = sels[0]
        if q[0] == "i":
            ib, isg = self.ev_self(q[1], sc, env)
            if s.l >= s.r:
                return self.pick(b, s.w, 1, ib, isg, s.r)
            return self.pick(b[::-1], s.w, 1, ib, isg, s.l)
        if q[0] in "+-":
            ib, isg = self.ev_self(q[1], sc, env)
            wd = self.cint(q[2], sc, env)
            if cval(ib) is None:
                out = []
                for i in range(wd):
                    off = i if q[0] == "+" else i - wd + 1
                    t, _ = self.add(self.ext(ib, isg, 32), cbits(off, 32), 0)
                    out += self.pick(b if s.l >= s.r else b[::-1], s.w, 1, t, True, min(s.l, s.r))
                return out
        lo, hi = self.slice2(q, s, sc, env)
        out = []
        for i in (range(lo, hi + 1) if s.l >= s.r else range(hi, lo - 1, -1)):
            o = self.pos(s, i)
            out.append(self.undef() if o is None else b[o])
        return out

    def slice2(self, k, s, sc, env):
        if k[0] == "r":
            a, b = self.cint(k[1], sc, env), self.cint(k[2], sc, env)
            if s.w > 1 and a != b and (a > b) != (s.l > s.r):
                raise VErr("reversed part select on " + s.name)
            return min(a, b), max(a, b)
        a, w = self.cint(k[1], sc, env), self.cint(k[2], sc, env)
        return (a, a + w - 1) if k[0] == "+" else (a - w + 1, a)

    def pick(self, b, n, m, ib, isg, lo):
        v = cval(ib)
        if v is not None:
            if isg and ib and ib[-1]:
                v -= 1 << len(ib)
            v -= lo
            return b[v * m:v * m + m] if 0 <= v < n else [self.undef() for _ in range(m)]
        if lo:
            w = max(len(ib), 32)
            ib, _ = self.add(self.ext(ib, isg, w), cbits(-lo, w), 0)
        return self.muxtree([b[i * m:i * m + m] for i in range(n)], ib)

    # -------- procedural code
    def call(self, e, sc, env):
        f = self.fn(e[1], sc)
        _, nm, sg, r, integer, args, decls, body = f[1]
        fsc = f[2]
        if len(args) != len(e[2]):
            raise VErr("arguments of function " + nm)
        fr = Env(self, {})
        fr.ext = env
        tmp = Scope(fsc, None, fsc.top)
        rs = self.mksig(tmp, ("var", None, "integer" if integer else "reg", sg, r, nm, [], None), nets=False)
        fr.v[rs] = [0] * rs.n if integer else [self.undef() for _ in range(rs.n)]
        for d in decls:
            s = self.mksig(tmp, d, nets=False)
            fr.v.setdefault(s, None)
        for a, x in zip(args, e[2]):
            s = tmp.s[a]
            fr.v[s] = self.ev_ctx(x, sc, s.n, env)[0]
        for s in list(fr.v):
            if fr.v[s] is None:
                fr.v[s] = [self.undef() for _ in range(s.n)]
        self.depth += 1
        if self.depth > 300:
            raise VErr("function recursion " + nm)
        self.run(body, tmp, fr)
        self.depth -= 1
        return fr.v[rs]

    def always(self, it, sc):
        _, ev, body = it
        env = Env(self, {})
        tg = set()
        self.targets(body, sc, tg)
        if ev:
            edges = [x for x in ev]
            for s in tg:
                env.v[s] = list(s.bits)
            self.run(body, sc, env)
            for s, b in env.nb.items():
                env.v[s] = b
            if all(x[0] == "negedge" for x in edges):
                raise VErr("negedge")
            for s in tg:
                for x, d in zip(s.bits, env.v[s]):
                    if s.kind not in INTS:
                        self.drvreg(s, x, d)
                    elif d != x and d > 1:
                        self.soft.setdefault(x, []).append((True, d))
        else:
            # latches: a bit that keeps its old value is undefined
            for s in tg:
                env.v[s] = [self.G.new(UND) for _ in s.bits]
            start = {s: list(env.v[s]) for s in tg}
            self.run(body, sc, env)
            for s, b in env.nb.items():
                env.v[s] = b
            for s in tg:
                for x, d, u in zip(s.bits, env.v[s], start[s]):
                    if d == u:
                        continue      # never assigned here
                    if s.kind in INTS:
                        self.soft.setdefault(x, []).append((False, d))
                    else:
                        self.drive(x, d, s.name)

    def drvreg(self, s, x, d):
        if x == d:
            # this always block never changes the bit; another one may drive it
            self.todo.append((s, x))
            return
        q = self.G.new(REG)
        self.drive(x, q, s.name)
        self.regs.append((q, d))

    def bscope(self, st, sc, nets, env=None):
        """scope of a block: a new one if the block declares anything"""
        if not any(x[0] == "decl" for x in st[1]):
            return sc
        c = sc.blk.get(id(st))
        if c is None:
            c = sc.blk[id(st)] = Scope(sc, st[2], sc.top)
            for x in st[1]:
                if x[0] == "decl":
                    for v in x[1]:
                        if v[0] == "param":
                            self.param(v, c)
                        else:
                            self.mksig(c, v, nets)
        if env is not None and not nets:
            for s in c.s.values():
                if isinstance(s, Sig) and s.bits is None and s not in env.v:
                    env.v[s] = [self.undef() for _ in range(s.n)]
        return c

    def targets(self, st, sc, out, nets=True):
        k = st[0]
        if k == "asg":
            def lv(l):
                if l[0] == "cat":
                    for x in l[1]:
                        lv(x)
                else:
                    s = self.look(l[1], sc)
                    if not isinstance(s, Sig):
                        raise VErr("assignment to %s" % (l[1],))
                    out.add(s)
            lv(st[2])
        elif k == "blk":
            c = self.bscope(st, sc, nets)
            for x in st[1]:
                if x[0] == "decl":
                    for v in x[1]:
                        if v[0] == "var" and v[7] is not None:
                            out.add(c.s[v[5]])
                else:
                    self.targets(x, c, out, nets)
        elif k == "if":
            self.targets(st[2], sc, out, nets)
            if st[3]:
                self.targets(st[3], sc, out, nets)
        elif k == "case":
            for _, s in st[3]:
                self.targets(s, sc, out, nets)
        elif k == "for":
            for s in (st[1], st[3], st[4]):
                self.targets(s, sc, out, nets)
        elif k == "repeat":
            self.targets(st[2], sc, out, nets)
        elif k == "tcall":
            f = self.fn(st[1], sc, "task")
            _, nm, args, decls, body = f[1]
            if len(args) != len(st[2]):
                raise VErr("arguments of task " + nm)
            for (dr, _), e in zip(args, st[2]):
                if dr != "input":
                    self.targets(("asg", False, e, None), sc, out, nets)
            tmp = Scope(f[2], None, f[2].top)
            for d in decls:
                self.mksig(tmp, d, nets=False)
            self.depth += 1
            if self.depth > 300:
                raise VErr("task recursion " + nm)
            o = set()
            self.targets(body, tmp, o, False)
            out.update(s for s in o if s.bits is not None)
            self.depth -= 1

    def tcall(self, st, sc, env):
        f = self.fn(st[1], sc, "task")
        _, nm, args, decls, body = f[1]
        if len(args) != len(st[2]):
            raise VErr("arguments of task " + nm)
        tmp = Scope(f[2], None, f[2].top)
        for d in decls:
            self.mksig(tmp, d, nets=False)
        for (dr, a), e in zip(args, st[2]):
            s = tmp.s[a]
            env.v[s] = [self.undef() for _ in range(s.n)] if dr == "output" else self.ev_ctx(e, sc, s.n, env)[0]
        for s in tmp.s.values():
            if s not in env.v:
                env.v[s] = [self.undef() for _ in range(s.n)]
        self.depth += 1
        self.run(body, tmp, env)
        self.depth -= 1
        for (dr, a), e in zip(args, st[2]):
            if dr != "input":
                s = tmp.s[a]
                self.put(e, self.ext(list(env.v[s]), s.sg, self.width(e, sc, env)), sc, env, False)
        for s in tmp.s.values():
            env.v.pop(s, None)

    def run(self, st, sc, env):
        k = st[0]
        if k == "nop":
            return
        if k == "decl":
            for v in st[1]:
                if v[0] == "var" and v[7] is not None:
                    self.pasg(("asg", False, ("id", v[5], []), v[7]), sc, env)
            return
        if k == "blk":
            sc = self.bscope(st, sc, False, env)
            for x in st[1]:
                self.run(x, sc, env)
        elif k == "tcall":
            self.tcall(st, sc, env)
        elif k == "asg":
            self.pasg(st, sc, env)
        elif k == "if":
            c = self.boolv(st[1], sc, env)
            if c == 1:
                self.run(st[2], sc, env)
            elif c == 0:
                if st[3]:
                    self.run(st[3], sc, env)
            else:
                a, b = env.fork(), env.fork()
                self.run(st[2], sc, a)
                if st[3]:
                    self.run(st[3], sc, b)
                env.join(c, a, b)
        elif k == "case":
            self.case(st, sc, env)
        elif k == "for":
            self.run(st[1], sc, env)
            n = 0
            while True:
                c = self.boolv(st[2], sc, env)
                if c == 0:
                    break
                if c != 1:
                    raise VErr("loop condition is not constant")
                self.run(st[4], sc, env)
                self.run(st[3], sc, env)
                n += 1
                if n > 100000:
                    raise VErr("loop does not end")
        elif k == "repeat":
            for _ in range(self.cint(st[1], sc, env)):
                self.run(st[2], sc, env)
        else:
            raise VErr("statement " + k)

    def case(self, st, sc, env):
        _, kw, e, items = st
        w, sg = self.size(e, sc, env)
        for l, _ in items:
            for x in l or []:
                n, s = self.size(x, sc, env)
                w, sg = max(w, n), sg and s
        v = self.ev(e, sc, w, sg, env)
        G = self.G

        def match(x):
            if x[0] == "n" and x[1] != "fill":
                p = x[3]
                p = p[:w] if len(p) >= w else p + [p[-1] if sg else 0] * (w - len(p))
                l = []
                for a, b in zip(v, p):
                    if b == "z" and kw in ("casez", "casex") or b == "x" and kw == "casex":
                        continue
                    if b in ("x", "z"):
                        return 0
                    l.append(a if b else G.NOT(a))
                if 0 in l:
                    return 0
                return self.tree(l, G.AND, 1)
            b = self.ev(x, sc, w, sg, env)
            return G.NOT(self.orr([G.XOR(p, q) for p, q in zip(v, b)]))
        order = [(l, s) for l, s in items if l is not None] + [(None, s) for l, s in items if l is None]

        def go(i, env):
            while i < len(order):
                l, s = order[i]
                if l is None:
                    self.run(s, sc, env)
                    return
                m = 0
                for x in l:
                    m = G.OR(m, match(x))
                if m == 1:
                    self.run(s, sc, env)
                    return
                if m == 0:
                    i += 1
                    continue
                a, b = env.fork(), env.fork()
                self.run(s, sc, a)
                go(i + 1, b)
                env.join(m, a, b)
                return
        go(0, env)

    def pasg(self, st, sc, env):
        _, nb, l, r = st

        w = self.width(l, sc, env)
        self.put(l, list(self.ev_ctx(r, sc, w, env)[0]), sc, env, nb)

    def width(self, l, sc, env):
        return sum(self.width(x, sc, env) for x in l[1]) if l[0] == "cat" else self.size(l, sc, env)[0]

    def put(self, l, v, sc, env, nb):
        """store the bits v into the lvalue l; takes what it stores off v"""
        if l[0] == "cat":
            for x in reversed(l[1]):
                self.put(x, v, sc, env, nb)
            return
        s = self.find(l[1], sc, env)
        if not isinstance(s, Sig):
            raise VErr("assignment to %s" % (l[1],))
        n = self.size(l, sc, env)[0]
        part = v[:n]
        del v[:n]
        self.store(s, l, part, sc, env, nb)

    def store(self, s, l, val, sc, env, nb):
        cur = list(env.nb[s]) if nb and s in env.nb else list(env.get(s))
        sels = list(l[2])
        # enumerate elements with their selection condition
        locs = [(1, 0, s.n)]
        for a, c in s.dims:
            if not sels:
                raise VErr("array %s assigned without an index" % s.name)
            q = sels.pop(0)
            n = abs(a - c) + 1
            ib, isg = self.ev_self(q[1], sc, env)
            locs = self.locs(locs, n, ib, isg, min(a, c))
        if sels:
            q = sels[0]
            if q[0] == "i":
                ib, isg = self.ev_self(q[1], sc, env)
                if s.l >= s.r:
                    locs = self.locs(locs, s.w, ib, isg, s.r)
                else:
                    locs = [(c, b0 * 1, n) for c, b0, n in self.locs(locs, s.w, ib, isg, s.l)]
                    locs = [(c, self.flip(b0, s), n) for c, b0, n in locs]
            elif q[0] in "+-" and cval(self.ev_self(q[1], sc, env)[0]) is None:
                ib, isg = self.ev_self(q[1], sc, env)
                wd = self.cint(q[2], sc, env)
                for i in range(wd):
                    off = i if q[0] == "+" else i - wd + 1
                    t, _ = self.add(self.ext(ib, isg, 32), cbits(off, 32), 0)
                    for c, b0, n in self.locs(locs, s.w, t, True, min(s.l, s.r)):
                        cur[b0] = self.G.MUX(c, val[i], cur[b0])
                (env.nb if nb else env.v)[s] = cur
                return
            else:
                lo, hi = self.slice2(q, s, sc, env)
                idx = [self.pos(s, i) for i in (range(lo, hi + 1) if s.l >= s.r else range(hi, lo - 1, -1))]
                for c, b0, n in locs:
                    for o, x in zip(idx, val):
                        if o is not None:
                            cur[b0 + o] = self.G.MUX(c, x, cur[b0 + o])
                (env.nb if nb else env.v)[s] = cur
                return
        for c, b0, n in locs:
            if c == 1:
                cur[b0:b0 + n] = val
            else:
                cur[b0:b0 + n] = [self.G.MUX(c, x, y) for x, y in zip(val, cur[b0:b0 + n])]
        (env.nb if nb else env.v)[s] = cur

    def flip(self, b, s):
        base = b // s.w * s.w
        return base + (s.w - 1 - (b - base))

    def locs(self, locs, n, ib, isg, lo):
        v = cval(ib)
        out = []
        if v is not None:
            if isg and ib and ib[-1]:
                v -= 1 << len(ib)
            v -= lo
            if 0 <= v < n:
                out = [(c, b0 + v * (sz // n), sz // n) for c, b0, sz in locs]
            return out
        if lo:
            w = max(len(ib), 32)
            ib, _ = self.add(self.ext(ib, isg, w), cbits(-lo, w), 0)
        G = self.G
        for i in range(n):
            if i >> len(ib):
                break
            m = self.tree([x if (i >> k) & 1 else G.NOT(x) for k, x in enumerate(ib)], G.AND, 1)
            for c, b0, sz in locs:
                out.append((G.AND(c, m), b0 + i * (sz // n), sz // n))
        return out

    # -------- resolution
    def finish(self):
        G = self.G
        for s, x in self.todo:
            if x not in G.drv:
                u = G.new(REG)         # a register that only ever holds its own value
                G.drv[x] = u
                self.regs.append((u, u))
        for x, l in self.soft.items():         # an integer that one block alone assigns
            if x not in G.drv and len(l) == 1:
                clocked, d = l[0]
                if clocked:
                    q = self.G.new(REG)
                    self.regs.append((q, d))
                    d = q
                G.drv[x] = d
        for x, d in self.init.items():
            if x not in G.drv:
                G.drv[x] = d
        order = []
        state = {}
        op, A, B, C, drv = G.op, G.a, G.b, G.c, G.drv

        def visit(root):
            st = [(root, 0)]
            while st:
                n, ph = st.pop()
                if ph == 0:
                    s = state.get(n)
                    if s == 2:
                        continue
                    if s == 1:
                        raise VBad("combinational loop")
                    o = op[n]
                    if o == NET:
                        d = drv.get(n)
                        state[n] = 1
                        if d is None:
                            op[n] = UND
                            self.und += 1
                            state[n] = 2
                            order.append(n)
                            continue
                        st.append((n, 1))
                        if state.get(d) == 1:
                            raise VBad("combinational loop")
                        if state.get(d) != 2:
                            st.append((d, 0))
                    elif o in (AND, XOR, OR, MUXG):
                        state[n] = 1
                        st.append((n, 1))
                        for x in ((A[n], B[n], C[n]) if o == MUXG else (A[n], B[n])):
                            q = state.get(x)
                            if q == 1:
                                raise VBad("combinational loop")
                            if q != 2:
                                st.append((x, 0))
                    else:
                        state[n] = 2
                        order.append(n)
                else:
                    state[n] = 2
                    order.append(n)
        for bits in self.outputs.values():
            for x in bits:
                visit(x)
        for q, d in self.regs:
            visit(d)
        self.order = order

    def compile(self):
        """gate list with nets resolved: (n_slots, ops[], slots of inputs/outputs/registers/undef)"""
        G = self.G
        slot = {0: 0, 1: 1}
        n = 2
        und, ops = [], []
        for bits in self.inputs.values():
            for x in bits:
                slot[x] = n
                n += 1
        for q, _ in self.regs:
            slot[q] = n
            n += 1
        code = {AND: 0, XOR: 1, OR: 2, MUXG: 3}
        # rebuilt with hashing: nets resolved make more gates equal
        seen = {}
        for x in self.order:
            o = G.op[x]
            if x in slot:
                continue
            if o == NET:
                slot[x] = slot[G.drv[x]]
            elif o == UND:
                slot[x] = n
                und.append(n)
                n += 1
            elif o in code:
                a, b = slot[G.a[x]], slot[G.b[x]]
                c = slot[G.c[x]] if o == MUXG else 0
                k = (code[o], a, b, c)
                s = seen.get(k)
                if s is None:
                    s = seen[k] = n
                    ops.append((code[o], n, a, b, c))
                    n += 1
                slot[x] = s
            else:
                raise VErr("node " + o)
        return {"n": n, "ops": ops, "und": und,
                "in": {k: [slot[x] for x in v] for k, v in self.inputs.items()},
                "out": {k: [slot[x] for x in v] for k, v in self.outputs.items()},
                "q": [slot[q] for q, _ in self.regs], "d": [slot[d] for _, d in self.regs]}


class Env:
    def __init__(self, D, v):
        self.D, self.v, self.nb, self.ext = D, v, {}, None

    def get(self, s):
        if s in self.v:
            return self.v[s]
        if self.ext is not None:
            return self.ext.get(s)
        return s.bits

    def fork(self):
        e = Env(self.D, dict(self.v))
        e.nb, e.ext = dict(self.nb), self.ext
        return e

    def join(self, c, a, b):
        D = self.D
        for s in set(a.v) | set(b.v):
            x, y = a.get(s), b.get(s)
            if x is None or y is None:      # local to one branch
                continue
            self.v[s] = x if x is y else D.mux(c, x, y)
        for s in set(a.nb) | set(b.nb):
            x = a.nb[s] if s in a.nb else a.get(s) if s not in self.nb else self.nb[s]
            y = b.nb[s] if s in b.nb else b.get(s) if s not in self.nb else self.nb[s]
            self.nb[s] = x if x is y else D.mux(c, x, y)


def load(files, incdirs=(), defs=None, text=""):
    """modules of the files; those of `text` take the place of modules of the same name"""
    mods = {}
    p = Pre(incdirs, defs)
    for f in files:
        try:
            mods.update(Parser(p.run(f)).source())
        except VErr as e:
            raise VErr("%s: %s" % (os.path.basename(f), e))
    if text:
        mods.update(Parser(p.run("", text)).source())
    return mods
