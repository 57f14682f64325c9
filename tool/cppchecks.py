"""P01..P04: the preprocessor (lcc/cpp)."""
import os, re
from pbt import Check, Discard, run
import toolchain

PPTOK = re.compile(r'L?"(?:\\.|[^"\\\n])*"|L?\'(?:\\.|[^\'\\\n])*\'|\.?\d(?:[eE][+-]|[\w.])*|[A-Za-z_]\w*|<<=|>>=|\.\.\.|##|->|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||[-+*/%&|^]=|[^\s]')


def tok(text):
    return PPTOK.findall(text)


def setup():
    n, a = toolchain.build()
    return {"tools": n, "san": a}


def marks(text):
    return re.sub(r"(?m)^#.*$", "", text)


def cpp(ctx, env, args, san=False, cwd=None):
    r = run([env["san" if san else "tools"] + "/q3cpp"] + args, cwd=cwd or ctx.dir, timeout=20)
    ctx.check(not r.crashed, "q3cpp crashed (%d): %s" % (r.rc, r.err.decode("latin-1")[-1500:]))
    return r


# ------------------------------------------------------------------ model of macro expansion
class Model:
    """token rows [(text, space before, hide set)]; rule: what a call with its arguments outside of the expansion hides"""
    def __init__(self, macros, inner):
        self.m, self.inner, self.fuel = macros, inner, 4000

    def expand(self, ts):
        out = []
        ts = list(ts)
        while ts:
            self.fuel -= 1
            if self.fuel < 0:
                raise Discard("expansion too long")
            t, h = ts.pop(0)
            m = self.m.get(t)
            if m is None or t in h:
                out.append((t, h))
                continue
            params, body = m
            if params is None:
                hs = h | {t}
                new = self.subst(body, {}, hs)
            else:
                if not ts or ts[0][0] != "(":
                    out.append((t, h))
                    continue
                args, cur, depth, k = [], [], 0, 1
                while True:
                    if k >= len(ts):
                        raise Discard("no closing parenthesis")
                    x = ts[k][0]
                    if x == ")" and depth == 0:
                        break
                    if x == "," and depth == 0:
                        args.append(cur)
                        cur = []
                    else:
                        depth += (x == "(") - (x == ")")
                        cur.append(ts[k])
                    k += 1
                rp = ts[k][1]
                if params or cur or args:
                    args.append(cur)
                if len(args) != len(params):
                    raise Discard("number of arguments")
                if any(not a for a in args):
                    raise Discard("empty argument")
                del ts[:k + 1]
                hs = (h | {t}) if self.inner else ((h & rp) | {t})
                new = self.subst(body, dict(zip(params, args)), hs)
            ts = new + ts
        return out

    def subst(self, body, args, hs):
        out, i = [], 0
        while i < len(body):
            b = body[i]
            if b == "#" and i + 1 < len(body) and body[i + 1] in args:
                out.append(('"?"', frozenset()))
                i += 2
                continue
            if b == "##" and out:
                n = body[i + 1]
                r = list(args[n]) if n in args else [(n, frozenset())]
                l = out.pop()
                pasted = l[0] + r[0][0]
                if tok(pasted) != [pasted] or pasted in ("//", "/*"):
                    raise Discard("invalid paste " + pasted)
                out.append((pasted, l[1] & r[0][1]))
                out += r[1:]
                i += 2
                continue
            if b in args:
                a = args[b]
                out += list(a) if i + 1 < len(body) and body[i + 1] == "##" else self.expand(a)
            else:
                out.append((b, frozenset()))
            i += 1
        return [(t, h | hs) for t, h in out]

    def line(self, toks):
        return [t for t, h in self.expand([(t, frozenset()) for t in toks])]


# ------------------------------------------------------------------ P01
PLAIN = ["a", "b", "c", "d", "if", "x1", "_y", "define", "include", "1", "23", "0x1F", "1.5e+3", "077u", ".5", "3.", '"s"', '"q\\"r\\\\"', "'c'", "'\\''", '"a b"', "'\"'", '"//"', '"/* "']
PUNCT = ["+", "-", "*", "/", "%", "=", "==", "<", ">", "<=", "<<", ">>=", "&", "&&", "|", "^", "!", "~", "?", ":", ";", ".", "->", "++", "--", "[", "]", "{", "}", "...", "+=", "#", "##"]
OBJ = ["M0", "M1", "M2", "LONG_object_macro_name", "m", "M", "e1"]
FUN = ["F0", "F1", "F2", "LONG_function_macro_name", "f", "FF", "G3"]
PAR = ["p", "q", "r", "x", "a", "M0", "F1", "arg_with_a_long_name"]
PASTE = [("a", "b"), ("x", "1"), ("M", "0"), ("F", "1"), ("1", "2"), ("1", "a"), ("+", "+"), ("-", ">"), ("<", "<"), ("&", "&"), ("|", "|"), ("=", "="), ("<<", "="), (".", "5"), ("LONG_object_", "macro_name"), ("f", "f")]


class Gen:
    def __init__(self, s):
        self.s, self.m, self.n = s, {}, 0
        self.paste, self.strs = {}, {}

    def plain(self, hashes=False):
        s = self.s
        c = s.below(5)
        if c <= 1:
            return s.pick(PLAIN)
        if c == 2:
            t = s.pick(PUNCT)
            return t if hashes or t[0] != "#" else "@"
        return "k%d" % s.below(6)

    def fits(self):
        """arity per function macro, fixed while it is defined"""
        return [f for f in FUN if f in self.m]

    def call(self, f, depth, params=()):
        s = self.s
        par, body = self.m[f] if f in self.m else (["z"] * s.below(3), [])
        r = [f, "("]
        for i, p in enumerate(par):
            if i:
                r.append(",")
            if p in self.paste.get(f, ()):
                r.append(s.pick(["a", "b", "M", "0", "1", "7", "x", "M0", "F", "f", "k1"]))
            else:
                r += self.seq(s.range(1, 3), depth - 1, params) or ["a"]
        return r + [")"]

    def seq(self, n, depth, params=()):
        s = self.s
        r = []
        for _ in range(n):
            c = s.below(10)
            if c <= 3 or depth <= 0:
                r.append(self.plain())
            elif c == 4:
                r.append(s.pick([o for o in OBJ if o in self.m] if s.below(4) and any(o in self.m for o in OBJ) else OBJ))
            elif c == 5:
                r += ["("] + self.seq(s.below(3), depth - 1, params) + s.pick([[], [","] + self.seq(1, 0, params)]) + [")"]
            elif c <= 7:
                r += self.call(s.pick(self.fits() if s.below(4) and self.fits() else FUN), depth, params)
            elif c == 8 and params:
                r.append(s.pick(list(params)))
            elif c == 9 and s.below(3) == 0:
                r += [s.pick(FUN), s.pick(["a", ";", "+", "k1"])]
            else:
                r.append(self.plain())
        return r

    def define(self):
        s = self.s
        if s.below(2):
            name, params = s.pick(OBJ), None
        else:
            name = s.pick(FUN)
            params = []
            for _ in range(s.below(4)):
                p = s.pick(PAR)
                if p not in params and p != name:
                    params.append(p)
        body, paste = [], set()
        for _ in range(s.below(6)):
            c = s.below(8)
            if c == 0 and params:
                body += ["#", s.pick(params)]
            elif c == 1:
                a, b = s.pick(PASTE)
                if params and s.below(2):
                    a = s.pick(params)
                    paste.add(a)
                    if s.below(2):
                        b = s.pick(params)
                        paste.add(b)
                    elif b in ("+", ">", "<", "=", "&", "|", "5", '"s"'):
                        b = "x"
                if a in (".", "1") and body and (body[-1][-1] in ".+-" or body[-1][-1].isalnum()):
                    body.append(";")
                body += [a, "##", b]
                if s.below(4) == 0 and b[0].isalnum() and a[0].isalpha():
                    body += ["##", "k"]
            elif c <= 3 and params:
                body.append(s.pick(params))
            else:
                body += self.seq(1, 2, params or ())
        body = [x for i, x in enumerate(body) if not (x in ("#", "##") and i == 0 and False)]
        if body and body[0] == "##" or body and body[-1] in ("##",):
            body = body[1:] if body[0] == "##" else body[:-1]
        return name, params, body, paste


def space(s, need, multi):
    c = s.below(12)
    if c == 0 and multi:
        return s.pick(["\n", " \n ", "\n\n"])
    if c == 1:
        return s.pick(["/**/", "/* c */", " /* 'x \" */ ", "/* * / // */"])
    if c == 2:
        return " " + s.pick(["\\\n", "\\\n \\\n", "\t", "  ", "\v"])
    if c <= 6 and not need:
        return ""
    return " "


def apart(a, b):
    """whether white space between the tokens is needed"""
    if (a[-1].isalnum() or a[-1] in "_.") and (b[0].isalnum() or b[0] in "_.") or a[-1] in "eE" and b[0] in "+-" or b[0] in "\"'" and a[-1] == "L":
        return True
    if a[-1] == "." and b[0].isdigit() or a[0].isdigit() and b[0] in ".+-" or a[0] == "." and len(a) > 1 and b[0] in "+-.":
        return True
    m = tok(a + b)
    return m != [a, b] or a[-1] == "/" and b[0] in "*/" or a[-1] == "?" and b[0] == "?" or a + b in ("<:", "<%", "%:", ":>", "%>", "..")


def layout(s, toks, multi=False, want=None):
    out = []
    for i, t in enumerate(toks):
        if len(t) > 2 and s.below(60) == 0 and t[0] not in "\"'":
            k = s.range(1, len(t) - 1)
            t = t[:k] + "\\\n" + t[k:]
        out.append(t)
        if i + 1 < len(toks):
            sp = space(s, apart(toks[i], toks[i + 1]), multi)
            out.append(" " + sp if t[-1] == "/" and sp[:1] == "/" else sp)
    return "".join(out)


def p01(ctx, env):
    s = ctx.src
    g = Gen(s)
    text = []
    ambiguous = False
    models = []
    cmd = []
    if s.below(4) == 0:
        for _ in range(s.range(1, 3)):
            n = s.pick(OBJ)
            v = [t for t in g.seq(s.range(1, 3), 1) if t != "\\"]
            if s.below(4) == 0 or v[0][0] == "=":
                cmd.append("-D" + n)
                v = ["1"]
            else:
                cmd.append("-D" + n + "=" + " ".join(v))
            if n in g.m:
                cmd.append("-U" + n)
                cmd[-1], cmd[-2] = cmd[-2], cmd[-1]
            g.m[n] = (None, v)
            ctx.label("macro from the command line")
    nuse = 0
    for _ in range(s.range(4, 22)):
        c = s.below(10)
        if c <= 4:
            name, params, body, paste = g.define()
            if name in g.m:
                if s.below(3) == 0:      # the same definition again is allowed
                    params, body = g.m[name]
                    continue
                text.append("#undef " + name)
                ctx.label("undef")
            h = name + ("(" + layout(s, sum([[p, ","] for p in params], [])[:-1]) + ")" if params is not None else "")
            sp = " " if params is None or s.below(2) or body and apart(")", body[0]) else ""
            line = s.pick(["#define ", "# define ", " #\tdefine  ", "#define /* c */ "]) + h + sp + layout(s, body) + s.pick(["", " ", " /* end */", " // end"])
            text.append(line)
            if s.below(6) == 0:
                text.append(line)
            g.m[name] = (params, body)
            g.paste[name] = paste
            if "#" in body and params is not None:
                ctx.label("stringify")
            if "##" in body:
                ctx.label("paste")
        elif c == 5 and g.m:
            n = s.pick(sorted(g.m) + ["nothere"])
            text.append("#undef " + n)
            g.m.pop(n, None)
        else:
            toks = g.seq(s.range(1, 8), 3)
            if toks[0] in ("#", "##"):
                toks[0] = ";"
            toks.append(";")
            if toks[0] == "(":
                toks.insert(0, ";")
            if s.below(6) == 0 and g.fits():
                toks.append(s.pick(g.fits()))
                ctx.label("function-like macro name at the end of a line")
            m = dict(g.m)
            A, B = Model(m, False).line(toks), Model(m, True).line(toks)
            if A != B:
                ctx.label("ambiguous nesting, left out")
                continue
            models.append(A)
            nuse += any(t in m for t in toks)
            multi = s.below(3) == 0
            if multi:
                ctx.label("call over several lines")
            l = layout(s, toks, multi)
            if re.search(r"\n\s*#", l.replace("\\\n", "  ")):
                continue
            text.append(l)
    if s.below(12) == 11:
        n, par = s.range(20, 60), s.below(2)
        back = s.below(n)
        ctx.label("chain of macros")
        name = "CF%d" if par else "CO%d"
        for i in range(n):
            body = [s.pick(["x", "1", ";", "+"]), name % (i + 1 if i + 1 < n else back)] + (["(", "a", ")"] if par else [])
            g.m[name % i] = (["a"] if par else None, body)
            text.append("#define " + name % i + ("(a) " if par else " ") + " ".join(body))
        toks = [name % 0] + (["(", "M0", ")"] if par else []) + [";"]
        models.append(Model(dict(g.m), False).line(toks))
        if models[-1] != Model(dict(g.m), True).line(toks):
            raise Discard("ambiguous chain")
        text.append(" ".join(toks))
    src = "\n".join(text) + "\n"
    if "??" in src or len(src) > 20000:
        raise Discard("trigraph")
    ctx.write("t.c", src)
    ctx.say("%s\n%s" % (cmd, src))
    q = run(["gcc", "-E", "-P", "-std=gnu89", "-undef", "-w", "-nostdinc", "-I."] + cmd + ["t.c"], cwd=ctx.dir)
    if q.rc:
        raise Discard("gcc: " + q.err.decode("latin-1").split("\n")[0][:60])
    want = tok(q.out.decode("latin-1"))
    r = cpp(ctx, env, cmd + ["t.c"], san=s.below(2))
    if any(len(t) > 480 for t in want):
        raise Discard("long string")
    ctx.check(r.rc == 0, "q3cpp refused the valid file (%d): %s" % (r.rc, r.err.decode("latin-1")[:800]))
    got = tok(marks(r.out.decode("latin-1")))
    model = [t for m in models for t in m]
    ctx.say("expected: " + " ".join(model))
    same = lambda x, y: x == y or y == '"?"' and x[0] == '"'
    glued = "".join(q.out.decode("latin-1").split())
    if not re.fullmatch("".join('"(?:[^"\\\\]|\\\\.)*"' if t == '"?"' else re.escape(t).replace("\\ ", "") for t in model), glued):
        ctx.label("gcc and the model disagree")
        raise RuntimeError("gcc and the model disagree: " + q.out.decode("latin-1"))
    if len(got) != len(model) or not all(map(same, got, model)):
        i = next((i for i in range(min(len(got), len(model))) if not same(got[i], model[i])), min(len(got), len(model)))
        ctx.fail("token %d: expected %s, preprocessed %s\nq3cpp: %s" % (i, " ".join(model[max(0, i - 4):i + 4]), " ".join(got[max(0, i - 4):i + 4]), " ".join(got)))
    ctx.check([t for t in want if t[0] == '"'] == [t for t in got if t[0] == '"'], "expected the strings %s\ngot %s" % ([t for t in want if t[0] == '"'], [t for t in got if t[0] == '"']))
    ctx.key = src
    ctx.nontrivial = nuse >= 2


# ------------------------------------------------------------------ P02
class Undef(Exception):
    pass


def wrap(v, bits, uns):
    v &= (1 << bits) - 1
    return v if uns or not v >> (bits - 1) else v - (1 << bits)


def lit(text, bits):
    t = text.rstrip("uUlL")
    uns = "u" in text[len(t):].lower()
    v = int(t, 16) if t[:2].lower() == "0x" else int(t, 8) if len(t) > 1 and t[0] == "0" else int(t)
    if v >> (bits - 1):
        if v >> bits:
            raise Undef()
        uns = True
    return v, uns


BIN = [["*", "/", "%"], ["+", "-"], ["<<", ">>"], ["<", ">", "<=", ">="], ["==", "!="], ["&"], ["^"], ["|"], ["&&"], ["||"]]
PREC = {o: 10 - i for i, l in enumerate(BIN) for o in l}


class Expr:
    """expression tree -> tokens with few parentheses, and its value for long of 32 and 64 bits"""
    def __init__(self, s, macros):
        self.s, self.macros = s, macros       # name -> (token list, tree) or None if not defined

    def gen(self, d):
        s = self.s
        c = s.below(10) if d > 0 else s.below(4)
        if c <= 2:
            t = s.pick([lambda: str(s.below(10)), lambda: str(s.pick([0, 1, 2, 31, 127, 128, 255, 32767, 65535, 65536, 2147483647])), lambda: "0x%X" % s.below(65536), lambda: "0%o" % s.below(512),
                        lambda: s.pick(["0u", "1U", "1ul", "4294967295u", "0xFFFFFFFF", "0x80000000", "0x7fffffff", "037777777777", "3L", "100000lu"])])()
            return ("n", t)
        if c == 3:
            k = s.below(4)
            if k == 0:
                if s.below(3) == 0:
                    v = s.below(128)
                    return ("c", s.pick(["'\\%o'", "'\\%03o'", "'\\x%x'", "'\\x%02X'", "'\\x0%x'"]) % v)
                if s.below(3) == 0:
                    return ("c", "'%s'" % s.pick([chr(i) for i in range(32, 127) if chr(i) not in "'\\"]))
                return ("c", s.pick(["'a'", "'0'", "' '", "'\\n'", "'\\0'", "'\\''", "'\\\\'", "'\"'", "'\\x41'", "'\\101'", "'\\t'", "'\\a'", "'\\b'", "'\\f'", "'\\v'", "'\\r'", "'\\7'", "'\\?'", "'?'", "'\\\"'"]))
            if k == 1:
                return ("d", s.pick(sorted(self.macros)), s.below(2))
            return ("i", s.pick(sorted(self.macros)))
        if c <= 7:
            return ("b", s.pick(s.pick(BIN)), self.gen(d - 1), self.gen(d - 1))
        if c == 8:
            return ("u", s.pick(["-", "+", "~", "!"]), self.gen(d - 1))
        return ("?", self.gen(d - 1), self.gen(d - 1), self.gen(d - 1))

    def toks(self, t, prec=0):
        k = t[0]
        if k in "nc":
            r, p = [t[1]], 20
        elif k == "d":
            r, p = (["defined", "(", t[1], ")"] if t[2] else ["defined", t[1]]), 20
        elif k == "i":
            r, p = [t[1]], 20
        elif k == "u":
            r, p = [t[1]] + self.toks(t[2], 15), 15
        elif k == "b":
            p = PREC[t[1]]
            r = self.toks(t[2], p) + [t[1]] + self.toks(t[3], p + 1)
        else:
            p = 0
            r = self.toks(t[1], 1) + ["?"] + self.toks(t[2], 0) + [":"] + self.toks(t[3], 0)
        if p < prec or self.s.below(8) == 0:
            r = ["("] + r + [")"]
        return r

    def uns(self, t, bits):
        k = t[0]
        if k == "n":
            return lit(t[1], bits)[1]
        if k == "i":
            m = self.macros[t[1]]
            return m is not None and self.uns(m, bits)
        if k == "u":
            return t[1] != "!" and self.uns(t[2], bits)
        if k == "?":
            return self.uns(t[2], bits) or self.uns(t[3], bits)
        if k == "b" and PREC[t[1]] >= PREC["|"] and t[1] not in ("<", ">", "<=", ">=", "==", "!="):
            return self.uns(t[2], bits) or t[1] not in ("<<", ">>") and self.uns(t[3], bits)
        return False

    def val(self, t, bits):
        """(value, unsigned)"""
        k = t[0]
        if k == "n":
            return lit(t[1], bits)
        if k == "c":
            x = t[1][1:-1]
            if x[0] == "\\":
                e = {"n": 10, "'": 39, "\\": 92, "t": 9, "a": 7, "b": 8, "f": 12, "v": 11, "r": 13, "?": 63, '"': 34}
                return (int(x[2:], 16) if x[1] == "x" else e[x[1]] if x[1] in e else int(x[1:], 8)), False
            return ord(x), False
        if k == "d":
            return int(self.macros[t[1]] is not None), False
        if k == "i":
            m = self.macros[t[1]]
            return (0, False) if m is None else self.val(m, bits)
        if k == "u":
            v, u = self.val(t[2], bits)
            if t[1] == "!":
                return int(v == 0), False
            v = {"-": -v, "+": v, "~": ~v}[t[1]]
            if not u and wrap(v, bits, False) != v:
                raise Undef()
            return wrap(v, bits, u), u
        if k == "?":
            c, _ = self.val(t[1], bits)
            u = self.uns(t[2], bits) or self.uns(t[3], bits)
            return wrap(self.val(t[2] if c else t[3], bits)[0], bits, u), u
        o = t[1]
        a, ua = self.val(t[2], bits)
        if o in ("&&", "||"):
            if bool(a) == (o == "||"):
                return int(bool(a)), False
            return int(bool(self.val(t[3], bits)[0])), False
        b, ub = self.val(t[3], bits)
        u = ua or ub
        if o in ("<<", ">>"):
            if b < 0 or b >= 32:
                raise Undef()
            if o == "<<":
                if not ua and (a < 0 or a << b >> (bits - 1)):
                    raise Undef()
                return wrap(a << b, bits, ua), ua
            if a < 0:
                raise Undef()
            return a >> b, ua
        a, b = wrap(a, bits, u), wrap(b, bits, u)
        if o in ("<", ">", "<=", ">=", "==", "!="):
            return int({"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b, "==": a == b, "!=": a != b}[o]), False
        if o in "/%":
            if b == 0:
                raise Undef()
            if not u and (a < 0 or b < 0):
                if abs(a) % abs(b):
                    raise Undef()         # implementation-defined in C89
            q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
            v = q if o == "/" else a - q * b
        else:
            v = {"*": a * b, "+": a + b, "-": a - b, "&": a & b, "|": a | b, "^": a ^ b}[o]
        if not u and wrap(v, bits, False) != v:
            raise Undef()
        return wrap(v, bits, u), u


def p02(ctx, env):
    s = ctx.src
    macros = {n: None for n in ("UND", "_undef1", "A0", "A1", "A2", "A3")}
    e = Expr(s, macros)
    want, lines, n = [], [], [0]
    stat = {"taken": 0, "skipped": 0, "expr": 0, "depth": 0}

    def cond():
        """(directive words after #if or #elif, truth)"""
        for _ in range(20):
            t = e.gen(s.range(0, 4))
            try:
                v32, v64 = e.val(t, 32), e.val(t, 64)
            except Undef:
                continue
            if bool(v32[0]) != bool(v64[0]):
                continue
            if v32 == v64 and s.below(2):     # the value and its signedness, not only whether it is 0
                v, u = v32
                lit_ = lambda v, u: ("n", (s.pick(["%d", "0x%x", "0%o"]) % v) + ("u" if u else "")) if v >= 0 else ("u", "-", ("n", "%d" % -v))
                p = [lambda: ("b", "==", t, lit_(v, u)), lambda: ("b", "!=", t, lit_(v, u)), lambda: ("b", "<", ("b", "-", t, lit_(v + 1, u)), ("n", "0")),
                     lambda: ("b", ">", ("u", "-", ("?", ("n", "1"), ("n", "1"), t)), ("n", "0")), lambda: ("b", "<", ("b", "-", ("b", "*", t, ("n", "0")), ("n", "1")), ("n", "0")),
                     lambda: ("?", ("b", "==", lit_(v, u), t), lit_(s.below(2), False), ("n", "0"))]
                q = s.pick(p)()
                try:
                    v32, v64 = e.val(q, 32), e.val(q, 64)
                except Undef:
                    continue
                if bool(v32[0]) != bool(v64[0]):
                    continue
                t = q
                stat["probe"] = stat.get("probe", 0) + 1
            stat["expr"] += 1
            toks = e.toks(t)
            if s.below(20) == 19:
                for _ in range(s.pick([5, 30, 33, 60])):
                    toks = s.pick([["("], ["0", "||", "("], ["1", "?", "("], ["+", "("]]) + toks + [")"]
                    if toks[1] == "?":
                        toks += [":", "0"]
                    elif toks[1] == "||":
                        toks = ["("] + toks + [")", "!=", "0"]
                return layout(s, toks), bool(v32[0])
            return layout(s, toks), bool(v32[0])
        return "1", True

    def junk():
        """text of a skipped group"""
        return s.pick(["skipped junk 1 + ;", "#foo bar", "#A0", "#error no", "#include \"nothere.h\"", "#define BADDEF 1", "#undef A0", "# 5 what", "#", "  #  ", "#line", "#define", "#if (", "", "/* #endif */", "\"#endif\"", "a \\\n#endif b", "#pragma x", "#eval 1/0", "#warning w", "#UND x", "# define A1 (", "#A1 #A2"])

    def block(depth, live):
        stat["depth"] = max(stat["depth"], depth)
        for _ in range(s.range(1, 4 if depth < 2 else 2)):
            c = s.below(8) if len(lines) < 120 else 0
            if c <= 1:
                m = "m%d" % n[0]
                n[0] += 1
                lines.append(m)
                if live:
                    want.append(m)
            elif c == 2:
                name = s.pick(sorted(macros)[:6])
                if name in ("UND", "_undef1"):
                    continue
                if not live:
                    lines.append("#undef " + name)
                elif macros[name] is not None:
                    lines.append("#undef " + name)
                    macros[name] = None
                else:
                    old = dict(macros)
                    for _ in range(8):
                        t = e.gen(s.below(3))
                        if "'d'" in repr(t) or any("'%s'" % x in repr(t) for x in macros):
                            continue
                        lines.append("#define %s (%s)" % (name, layout(s, e.toks(t))))
                        macros[name] = t
                        break
            elif c == 3 and not live:
                j = junk()
                if j == "#if (":
                    lines.extend([j, "junk", "#endif"])
                else:
                    lines.append(j)
            elif depth < 7 and c > 4 + depth // 3:
                branch(depth + 1, live)

    def branch(depth, live):
        k = s.below(4)
        if k == 0:
            name = s.pick(sorted(macros) + ["__LINE__", "__FILE__", "__DATE__"])
            neg = s.below(2)
            lines.append(s.pick(["#%s %s", " # %s  %s ", "#%s %s /* c */", "#%s /**/ %s // c"]) % ("ifndef" if neg else "ifdef", name))
            truth = (macros.get(name, 1) is not None) != bool(neg)
        else:
            if live:
                c, truth = cond()
            else:
                c, truth = s.pick(["1", "0", "1/0", "(", "defined", "A0", "'", "\"x\"", "1 +"]), True
                if c == "'":
                    c = "0"
            lines.append(s.pick(["#if ", "# if\t", "#if/**/"]) + c)
        taken = live and truth
        stat["taken" if taken else "skipped"] += 1
        done = taken
        block(depth, taken)
        for _ in range(s.pick([0, 0, 1, 2, 3])):
            if live and not done:
                c, truth = cond()
            elif live and done and s.below(4):
                c, truth = cond()
            else:
                c, truth = s.pick(["1/0", "(", "1 +", "defined", "0", "1", "\"x\"", "UND UND"]), True
            lines.append("#elif " + c)
            t = live and not done and truth
            done = done or t
            stat["taken" if t else "skipped"] += 1
            block(depth, t)
        if s.below(2):
            lines.append(s.pick(["#else", "# else /* c */", "#else // c"]))
            block(depth, live and not done)
        lines.append(s.pick(["#endif", " #endif", "#endif /* x */"]))

    for _ in range(s.range(1, 4)):
        block(0, True)
    lines.append("last")
    want.append("last")
    src = "\n".join(lines) + "\n"
    if "??" in src:
        raise Discard("trigraph")
    ctx.say(src + "expected: " + " ".join(want))
    ctx.write("t.c", src)
    r = cpp(ctx, env, ["t.c"], san=s.below(2))
    ctx.check(r.rc == 0, "q3cpp refused the valid file (%d): %s" % (r.rc, r.err.decode("latin-1")[:800]))
    got = tok(marks(r.out.decode("latin-1")))
    ctx.check(got == want, "expected the lines %s\ngot %s" % (want, got))
    ctx.key = src
    ctx.nontrivial = stat["expr"] >= 2 and stat["taken"] >= 1 and stat["skipped"] >= 1
    ctx.label("nesting depth %d" % stat["depth"])


# ------------------------------------------------------------------ P03
class Files:
    def __init__(self, ctx, s):
        self.ctx, self.s, self.n, self.fn = ctx, s, 0, 0
        self.files = {}          # path -> items
        self.text = {}

    def comment(self):
        s = self.s
        c = s.below(8)
        if c <= 4:
            return s.pick(["", " ", " /* c */", " // to the end", "\t/* \"'\\ #endif */", " /***/ /**/", " /* a\n b */", " /*\n\n\n*/ ", " /* // */", " // /* not opened", " /* x *\n*/"])
        n = s.pick([3, 10, 500, 3000, 12000, 28000, 33000, 70000]) if s.below(6) == 0 else s.below(12)
        w = s.pick([0, 1, 7, 60, 300])
        self.ctx.label("long comment" if n > 10000 else "comment")
        body, l, k = [], 0, 0
        while l < n:
            x = s.pick(["*", "/", "", "\n" if k > 60 else "x"]) + "c" * (w * ((k * 7) % 5) // 4)
            body.append(x)
            l += len(x) + 1
            k += 1
        return " /*" + "\n".join(body).replace("*/", "* /").replace("/*", "/ *") + s.pick(["\n*/", "*/", "\n\n*/", " */"])

    def file(self, path, depth, pool):
        """items: (physical line, kind, data)"""
        s, lines, items = self.s, [], []
        self.files[path] = items

        def add(text, kind=None, data=None, pure=False):
            items.append((sum(x.count("\n") + 1 for x in lines) + 1, kind, data))
            lines.append(text)

        for _ in range(s.range(1, 14)):
            c = s.below(14)
            m = "mk%d" % self.n
            if c <= 3:
                self.n += 1
                ind = s.pick(["", " ", "\t ", "/* x */ ", " /* a\n b */" if s.below(3) == 0 else ""])
                add(ind + m + s.pick(["", " ;", " a b", " \"s // s\"", " '/*'", " + \"/* s\"", " \\\n b", " ??/\n c", " L'\\''"]) + self.comment(), "mark", (m, ind.count("\n")))
            elif c == 4:
                self.n += 1
                add(m + " __LINE__", "line", m)
            elif c == 5:
                self.n += 1
                add(m + " __FILE__", "file", m)
            elif c == 6:
                add("\n" * s.pick([0, 1, 2, 9, 30, 300]) + s.pick(["", " ", "\t", "// c", "/* c */", "#", "# ", "#pragma once upon", "??=", "# /* x */"]))
            elif c == 7:
                add(self.comment())
            elif c == 8:
                n = s.pick([1, 2, 5, 100, 32767, 1000])
                f = s.pick([None, None, "other.c", "dir/x y.h", "a.b.c"])
                add("#%s %d%s" % (s.pick(["line", " line ", "", "line/**/"]), n, " \"%s\"" % f if f else ""), "setline", (n, f))
                self.ctx.label("#line")
            elif c == 9:
                k = "LN%d" % s.below(3)
                add("#undef %s\n#define %s %s\\\n %d" % (k, k, "\\\n" * s.below(3), s.below(10)))
            elif c == 10:
                self.n += 1
                add(m + " " + "x" * s.pick([500, 2000, 4000, 12000]) + " " + "y " * s.pick([10, 1000, 2500]), "mark", (m, 0))
                self.ctx.label("long line")
            elif c == 11:
                add(s.pick(["#if 0\nskipped 'x' /* #endif\n*/\n#endif", "#ifdef NOTDEFINED\n#else\n#endif", "#if 1\\\n+1 /*\n*/\n#endif", "#define EMPTY\n EMPTY"]))
            elif c == 12 and s.below(2):
                self.n += 1
                add("#undef FN\n#define FN(a) a %s\nFN(\n%s1) %s" % (m, "\n" * s.below(4), s.pick(["", "/*\n*/"])), "call", m)
            elif depth > 0 and pool:
                h, name, kind = s.pick(pool)
                inc = {"q": "\"%s\"", "a": "<%s>"}[kind] % name
                guard = self.text.get(h) is not None and s.below(2)
                if s.below(4) == 0:
                    add("#undef HDR\n#define HDR %s\n#include HDR%s" % (inc, s.pick(["", " /* c */", " // c"])), "include", (h, 2))
                    self.ctx.label("include of a macro")
                else:
                    add(s.pick(["#include %s", "# include %s", "#include%s", "#include %s /* c */", "#include\t%s // c", "#include \\\n%s", "#\\\ninc\\\nlude %s \\\n", "#include /*\n\n*/ %s", "#include %s /* a\n b\n*/"]) % inc, "include", (h, 0))
                if h not in self.files:
                    self.file(h, depth - 1, [x for x in pool if x[0] != h and x[0] not in self.files])
        self.text[path] = "\n".join(lines) + "\n"
        if s.below(8) == 7 and lines and lines[-1][-1:] not in ("", "\n"):
            self.text[path] = "\n".join(lines)
            self.ctx.label("no newline at the end of the file")

    def walk(self, path, shown, depth, out):
        if len(out) > 4000 or depth > 10:
            raise Discard("too many includes")
        delta, name = 0, shown
        for line, kind, d in self.files[path]:
            if kind == "mark":
                out.append((d[0], name, line + delta, None, d[1]))
            elif kind == "line":
                out.append((d, name, line + delta, str(line + delta), 0))
            elif kind == "file":
                out.append((d, name, line + delta, name, 0))
            elif kind == "call":
                out.append((d, name, line + 2 + delta, None, 0))
            elif kind == "setline":
                delta, name = d[0] - line - 1, d[1] or name
            elif kind == "include":
                self.walk(d[0], d[0], depth + 1, out)
        return out


def p03(ctx, env):
    s = ctx.src
    f = Files(ctx, s)
    where = s.pick(["", "", "src/"])
    dirs = [("in%d" % i) for i in range(s.below(4))]
    pool = []
    args = []
    absolute = where != "" or s.below(3) == 0
    for d in dirs:
        args.append("-I" + (os.path.join(ctx.dir, d) if absolute else d))
    for i in range(s.below(5)):
        n = s.pick(["h%d.h" % i, "h%d" % i, "sub/h%d.h" % i, "with-dash%d.h" % i])
        place = s.pick(["own"] + dirs)
        if place == "own":
            pool.append((where + n, n, "q"))
        else:
            kind = s.pick("qa")
            pool.append((place + "/" + n, n, kind))
            if kind == "a" and s.below(3) == 0:
                ctx.write(where + n, "wrong file %s\n" % n)
                ctx.label("same name in the directory of the source")
            for other in dirs[dirs.index(place) + 1:]:
                if s.below(3) == 0:
                    ctx.write(other + "/" + n, "wrong file %s\n" % other)
                    ctx.label("same name in a later directory")
    main = where + "t.c"
    f.file(main, 4, pool)
    for h, x in f.text.items():
        ctx.write(h, x)
        ctx.say("=== %s\n%s" % (h, re.sub(r"(\n[*c]*){8,}", lambda m: "\n[%d comment lines]" % m.group().count("\n"), x)[:4000]))
    want = f.walk(main, main, 0, [])
    how = s.below(3)
    san = s.below(4) == 0
    if how == 0:
        r = cpp(ctx, env, args + [main], san)
        out = r.out
    elif how == 1:
        r = cpp(ctx, env, args + [main, "out.i"], san)
        out = ctx.read("out.i") or b""
        ctx.check(r.out == b"", "output besides the output file")
    else:
        if where or len([1 for x in pool if x[2] == "q" and x[0] == x[1]]) and False:
            r = cpp(ctx, env, args + [main], san)
        else:
            r = run([env["san" if san else "tools"] + "/q3cpp"] + args, cwd=ctx.dir, input=f.text[main].encode("latin-1"))
            ctx.check(not r.crashed, "q3cpp crashed (%d): %s" % (r.rc, r.err.decode("latin-1")[-1500:]))
            want = [(m, "<stdin>" if n == main else n, l, "<stdin>" if v == main else v, k) for m, n, l, v, k in want]
            ctx.label("standard input")
        out = r.out
    ctx.say("arguments: %s" % args)
    ctx.check(r.rc == 0, "q3cpp refused the valid file (%d): %s" % (r.rc, r.err.decode("latin-1")[:800]))
    got, line, name = [], None, None
    norm = lambda n: n if n is None or n == "<stdin>" else os.path.normpath(n.replace(ctx.dir + "/", ""))
    for l in out.decode("latin-1").split("\n"):
        m = re.match(r'[ \t]*#[ \t]*(?:line)?[ \t]*(\d+)[ \t]*(?:"([^"]*)")?[ \t]*$', l)
        if m:
            line, name = int(m.group(1)), m.group(2) or name
            continue
        for x in re.finditer(r"\b(mk\d+)\b(?: (\d+|\"[^\"]*\")(?=\s*$))?", l):
            got.append((x.group(1), norm(name), line, x.group(2)))
        line = None if line is None else line + 1
    ctx.check([g[0] for g in got] == [w[0] for w in want], "expected the markers %s\ngot %s" % ([w[0] for w in want], [g[0] for g in got]))
    for g, w in zip(got, want):
        ctx.check(g[1] == norm(w[1]) and w[2] <= g[2] + w[4] and g[2] <= w[2] + w[4], "%s stands in %s:%d, the output says %s:%s" % (w[0], w[1], w[2], g[1], g[2]))
        if w[3] is not None:
            v = g[3] or ""
            ctx.check((norm(v[1:-1]) if v[:1] == '"' else v) == (norm(w[3]) if not w[3].isdigit() else w[3]), "%s: __LINE__ or __FILE__ is %s, expected %s" % (w[0], v, w[3]))
    ctx.key = "".join(f.text.values())
    ctx.nontrivial = len(want) >= 3
    ctx.label("%d files" % len(f.text))


# ------------------------------------------------------------------ P04
def soup(s):
    """text that may be anything"""
    def ident():
        return s.pick(OBJ + FUN + ["a", "b", "p", "__LINE__", "__FILE__", "__DATE__", "__TIME__", "__STDC__", "defined", "n" * s.pick([1, 30, 64, 127, 128, 129, 200, 600])])

    def word(d=2):
        c = s.below(12)
        if c <= 3:
            return ident()
        if c == 4:
            return s.pick(PLAIN + ["'", '"', "\\", "@", "$", "`", "L'", "'ab'", "''", "'\\", "0x", "08", "99999999999999999999", "1e", "..", "\f", "\r", "\0", "\xfe", "\xfd", "\xff", "??=", "??/", "???", "//", "/*", "*/"])
        if c <= 7:
            return s.pick(PUNCT + ["(", ")", ",", "(", ")", "##", "#"])
        if c == 8 and d:
            return ident() + "(" + ",".join(words(2, d - 1) for _ in range(s.pick([0, 1, 2, 3, 4, 33]))) + s.pick([")", ")", ")", ""])
        if c == 9 and d:
            return '"' + "s" * s.pick([0, 3, 100, 600, 2500]) + s.pick(['"', '"', '"', "", "\\"])
        if c == 10 and d:
            return s.pick(["(", "!", "-", "0?", "1?2:", "1+", "defined ", "defined(", "~("]) * s.pick([1, 2, 10, 31, 33, 60])
        return ident()

    def words(n, d=2):
        return s.pick([" ", "", " ", "\t", "/**/"]).join(word(d) for _ in range(s.below(n + 1)))

    lines = []
    for _ in range(s.range(1, 20)):
        c = s.below(20)
        if c <= 4:
            n = ident()
            ps = s.pick(["", "", "()", "(p)", "(p,q)", "(p, q, r)", "(", "(p", "(p,", "(p,p)", "(1)", "(...)", "(" + ",".join("p%d" % i for i in range(s.pick([30, 31, 32, 33, 50]))) + ")"])
            lines.append("#define " + n + ps + " " + words(6) + s.pick(["", "", "##", "#", " # p", "p##q", "#p #q", "p ## n" + "x" * 140]))
        elif c <= 8:
            lines.append(words(8))
        elif c == 9:
            lines.append("#" + s.pick(["if", "elif", "ifdef", "ifndef"]) + " " + words(6))
        elif c == 10:
            lines.append("#" + s.pick(["else", "endif", "else x", "endif y", "else", "endif"]))
        elif c == 11:
            lines += ["#if " + s.pick(["1", "0"])] * s.pick([1, 2, 31, 32, 40])
        elif c == 12:
            lines += ["#endif"] * s.pick([1, 2, 31])
        elif c == 13:
            lines.append("#include " + s.pick(['"t.c"', '"h.h"', "<h.h>", '"sub/h.h"', '""', "<>", "<h.h", '"h.h', "h.h", '"' + "x" * s.pick([200, 253, 254, 255, 256, 300]) + '"', "<" + "x/" * s.pick([100, 127, 150]) + ">", "<a b>", '"h.h" x', words(2)]))
        elif c == 14:
            lines.append("#line " + s.pick(["1", "0", "-1", "99999999999", "5 \"f\"", "5 \"" + "f" * s.pick([10, 100, 3000]) + "\"", "5 L\"f\"", "\"f\" 5", "__LINE__", words(2)]))
        elif c == 15:
            lines.append("#" + s.pick(["undef", "pragma", "error", "warning", "eval", "foo", "define", "line", "if", "include", "defined", "5", "", "\"x\"", "'", "undef defined", "undef __LINE__", "define defined 1", "define __FILE__ x"]) + " " + words(2))
        elif c == 16:
            lines.append((ident() + " ") * s.pick([2, 100, 1000]))
        elif c == 17:
            lines.append("/*" + "c\n" * s.pick([1, 100, 20000]) + s.pick(["*/", "*/", "", "*"]))
        elif c == 18:
            n = s.pick(FUN)
            lines.append("#define %s(p,q) p##q #p __FILE__ __LINE__\n%s(%s,%s)" % (n, n, "a" * s.pick([1, 60, 127, 128, 300]), "b" * s.pick([1, 67, 127, 128])))
        else:
            lines.append("#define D0 x __FILE__ __LINE__\n" + "".join("#define D%d D%d D%d\n" % (i, i - 1, i - 1) for i in range(1, s.pick([3, 8, 11]))) + s.pick(["D2", "D7", "D10", "D10 D10 D10"]))
        if s.below(8) == 0 and lines[-1]:
            k = s.below(len(lines[-1]) + 1)
            lines[-1] = lines[-1][:k] + s.pick(["\\\n", "\\", "??/\n", "\n", "\0", "\xfe"]) + lines[-1][k:]
    x = "\n".join(lines) + s.pick(["\n", "\n", "\n", ""])
    for _ in range(s.pick([0, 0, 0, 1, 3])):
        if x:
            i, j = s.below(len(x)), s.below(len(x))
            c = s.below(3)
            n = s.pick([1, 2, 10, 100])
            x = x[:i] + x[i + n:] if c == 0 else x[:i] + x[j:j + n] + x[i:] if c == 1 else x[:i] + chr(s.below(256)) + x[i + 1:]
    return x


def p04(ctx, env):
    s = ctx.src
    x = soup(s)
    ctx.write("t.c", x)
    if s.below(3):
        ctx.write("h.h", soup(s))
        ctx.write("sub/h.h", "#include \"h.h\"\nx\n")
    args = []
    for _ in range(s.pick([0, 0, 0, 1, 2, 5])):
        args.append(s.pick(["-D" + s.pick(["A", "F0(x)=x", "M0=F0", "A=", "=", "1", "A=\"x", "A B", "defined", "__LINE__=3", "if=else", "A=/*", "A=\\", "M0=M0 M1", "A='"]), "-U" + s.pick(["A", "M0", "1", "defined", "A B", "", "__FILE__"]),
                            "-Isub", "-I" + "d" * s.pick([1, 200, 255, 256, 300, 1000]), "-M", "-V", "-N", "-v", "-+", "-l", "-g", "-x", "-O", "-F", "-D", "-"]))
    if s.below(20) == 19:
        args += ["-Id%d" % i for i in range(s.pick([29, 30, 31, 32, 33, 40, 70]))]
        ctx.label("many include directories")
    how = s.below(8)
    ctx.say("arguments: %s\n%s" % (args, x[:6000]))
    if how == 0:
        r = run([env["san"] + "/q3cpp"] + args, cwd=ctx.dir, input=x.encode("latin-1"), timeout=30)
    elif how == 1:
        r = run([env["san"] + "/q3cpp"] + args + [s.pick(["nothere.c", "sub", "", "t.c"]), s.pick(["out.i", "nowhere/out.i", "sub"])], cwd=ctx.dir, timeout=30)
    else:
        r = run([env["san"] + "/q3cpp"] + args + ["t.c"], cwd=ctx.dir, timeout=30)
    ctx.check(not r.crashed, "q3cpp crashed or hangs (%d): %s" % (r.rc, r.err.decode("latin-1")[-2500:]))
    ctx.check(r.rc in (0, 1), "exit status %d" % r.rc)
    err = [l for l in r.err.decode("latin-1").split("\n") if l.startswith("cpp: ")]
    ctx.check(r.rc == 0 or err, "failure without a message")
    ctx.label("refused" if r.rc else "accepted")
    ctx.key = x
    ctx.nontrivial = x.count("\n") >= 3


# ------------------------------------------------------------------ P05
def toklist(s, n):
    return [s.pick(["a", "b", "xy", "1", "2u", "+", "(", ")", "\"s\"", "'c'", "<<=", ",", "zz9"]) for _ in range(n)]


def e_redef(s):
    """a macro defined twice, the second time with one difference"""
    n = "RD%d" % s.below(100)
    ps = ["p%d" % i for i in range(s.below(5))] if s.below(2) else None
    body = toklist(s, s.range(1, 7))
    gaps = [s.below(2) for _ in body]
    gaps[0] = 1
    ps2, body2, gaps2 = ps and list(ps), list(body), list(gaps)
    i = s.below(len(body))
    k = s.below(6)
    if k == 0 and ps:
        ps2[s.below(len(ps))] = "q"
    elif k == 1:
        ps2 = (ps + ["q"]) if ps is not None else []
    elif k == 2:
        body2.insert(i, "zz")
        gaps2.insert(i, 1)
        gaps = [1] * len(gaps)
        gaps2 = [1] * len(gaps2)
    elif k == 3 and len(body) > 1:
        del body2[i]
        gaps = [1] * len(gaps)
        gaps2 = [1] * len(body2)
    elif k == 4 and len(body) > 1:
        j = s.range(1, len(body) - 1)
        gaps = [1] * len(gaps)
        gaps2 = [1] * len(gaps)
        body = [x for x in body]
        body[j - 1:j + 1] = ["+", "("]
        body2[j - 1:j + 1] = ["+", "("]
        gaps2[j] = 0
    else:
        gaps = gaps2 = [1] * len(gaps)
        body2[i] = body2[i] + "_" if body2[i][0].isalnum() else "w"
    def text(ps, body, gaps, extra):
        return "#define " + n + ("" if ps is None else "(" + ", ".join(ps) + ")") + "".join((" " * (1 + extra * s.below(3)) if g else "") + b for g, b in zip(gaps, body))
    if k != 4 and not all(gaps):
        gaps = gaps2 = [1] * max(len(gaps), len(gaps2))
    return text(ps, body, gaps, 0) + "\n" + text(ps2, body2, gaps2, 1)


def e_nargs(s):
    k, m = s.range(0, 6), s.range(1, 8)
    if m == k or (k == 0 and m == 0):
        m += 1
    arg = lambda: s.pick(["1", "a b", "(1, 2)", "f(x, y)", "\"a,b\"", "'c'", "((,))", "+ -"])
    n = "NA%d" % s.below(100)
    return "#define %s(%s) %s\n%s%s%s(%s) y" % (n, ", ".join("p%d" % i for i in range(k)), " ".join("p%d" % i for i in range(k)), s.pick(["", "x ", "( "]), n, s.pick(["", " "]), s.pick([",", ", "]).join(arg() for _ in range(m)))


def e_params(s):
    ps = ["p%d" % i for i in range(s.range(1, 8))]
    k = s.below(5)
    i = s.below(len(ps))
    if k <= 1:
        ps.insert(s.below(len(ps) + 1), s.pick(ps))
    elif k == 2:
        ps[i] = s.pick(["1", "+", "\"x\"", "" if len(ps) > 1 else "2", "a b", "(", "..."])
    elif k == 3:
        return "#define PM%d(%s" % (s.below(100), ", ".join(ps))
    else:
        ps[i] = ps[i] + s.pick([";", " 1", " (x", " +"])
    return "#define PM%d(%s) %s" % (s.below(100), s.pick([",", ", "]).join(ps), s.pick(["", "p0", "x y"]))


def e_if(s):
    """a condition with one token left out, added or changed"""
    def gen(d):
        c = s.below(6) if d else 0
        if c <= 1:
            return [s.pick(["1", "0", "07", "0x1F", "'a'", "defined X", "defined ( X )", "NAME", "3u"])]
        if c == 2:
            return ["("] + gen(d - 1) + [")"]
        if c == 3:
            return [s.pick(["!", "-", "~", "+"])] + gen(d - 1)
        if c == 4 and s.below(3) == 0:
            return ["("] + gen(d - 1) + ["?"] + gen(d - 1) + [":"] + gen(d - 1) + [")"]
        return gen(d - 1) + [s.pick(["+", "-", "*", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "&", "^", "|", "&&", "||"])] + gen(d - 1)
    t = gen(s.range(0, 3))
    k = s.below(8)
    i = s.below(len(t) + 1)
    if k == 0:
        t.append(s.pick(["*", "/", "&&", "||", "<", "==", "|", "?", "+", "-", "!", "("]))
    elif k == 1:
        t.insert(0, s.pick(["*", "/", "<", "==", ")", "?", ":", "&&", "|"]))
    elif k == 2:
        t.insert(i, s.pick(["(", ")"]))
    elif k == 3:
        t.append(s.pick(["1", "NAME", "'x'", ")", "0x5"]))
    elif k == 4:
        t = ["("] + t + [")", s.pick(["/", "%"]), s.pick(["0", "0x0", "(1-1)", "!1"])]
    elif k == 5:
        t = t + ["+", s.pick(["09z", "1.5", "0x", "2q", "\"s\"", "1 2", "defined", "defined ( )", "defined 1"])]
        if t[-1] == "0x":
            t[-1] = "4zz"
    elif k == 6:
        t.insert(i, s.pick(["=", "+=", "{", "}", ";", "[", "->", ".", "++", "<<="]))
    else:
        return s.pick(["#if", "#if /* c */"]) + "\n#endif"
    x = " ".join(t)
    return s.pick(["#if %s\n#endif", "#if %s\nx\n#else\ny\n#endif", "#if 0\n#elif %s\n#endif", "#if 0\nx\n#elif 0\n#elif %s\ny\n#endif"]) % x


def e_else(s):
    """#else or #elif after #else of the same conditional"""
    r = ["#if %d" % s.below(2)]
    def inner():
        for _ in range(s.below(3)):
            r.extend(s.pick([["x"], ["#if 1", "y", "#else", "z", "#endif"], ["#if 0", "#elif 1", "#endif"], ["#ifdef A", "#else", "#endif"], ["#define EE 1"], ["#ifndef Q", "#if 0", "#else", "#endif", "#endif"]]))
    inner()
    for _ in range(s.below(3)):
        r.append("#elif %d" % s.below(2))
        inner()
    r.append("#else")
    inner()
    for _ in range(s.below(2)):
        r.append("#else" if True else "")
        inner()
    r.append("BAD")
    inner()
    r.append("#endif")
    return r


ERRORS = [
    ("#error", lambda s: s.pick(["#error", "#error stop here", "# error \"x\""]), "#error directive"),
    ("#else alone", lambda s: "#else", "#else with no #if"),
    ("#endif alone", lambda s: "#endif", "#endif with no #if"),
    ("#elif alone", lambda s: "#elif 1", "#elif with no #if"),
    ("two #else", lambda s: "#if %d\n#else\n#else\n#endif" % s.below(2), "#else after #else"),
    ("#elif after #else", lambda s: "#if 0\n#else\n#elif 1\n#endif", "#elif after #else"),
    ("several groups, then two #else", lambda s: "\n".join(e_else(s)).replace("BAD", "#else"), "#else after #else"),
    ("several groups, then #elif after #else", lambda s: "\n".join(e_else(s)).replace("BAD", "#elif %d" % s.below(2)), "#elif after #else|#else after #else"),
    ("difference in a redefinition", e_redef, "Macro redefinition"),
    ("other number of arguments", e_nargs, "Disagreement in number of macro arguments"),
    ("parameter list", e_params, "Duplicate macro argument|Syntax error in macro parameters"),
    ("condition", e_if, "#if|defined|String|expression|Bad number|Eval botch"),
    ("missing include", lambda s: s.pick(['#include "nothere.h"', "#include <nothere.h>", "#define HH <no/there.h>\n#include HH"]), "Could not find include file"),
    ("include without name", lambda s: s.pick(["#include", "#include x", "#include \"\"", "#include <", "#include 5"]), "#include"),
    ("redefinition", lambda s: s.pick(["#define R1 1\n#define R1 2", "#define R2(a) a\n#define R2 a", "#define R3(a) a\n#define R3(b) b", "#define R4 x y\n#define R4 xy", "#define R5 a\n#define R5 a b", "#define R6(a,b) a\n#define R6(a) a"]), "Macro redefinition"),
    ("number of arguments", lambda s: s.pick(["#define N2(a,b) a\nN2(1)", "#define N1(a) a\nN1(1,2)", "#define N0() a\nN0(1)", "#define N3(a,b,c) a\nx N3(N3(1,2,3),2) y"]), "Disagreement in number of macro arguments"),
    ("syntax of #if", lambda s: s.pick(["#if\n#endif", "#if 1 +\n#endif", "#if (1\n#endif", "#if 1)\n#endif", "#if 1 1\n#endif", "#if \"x\"\n#endif", "#if defined\n#endif", "#if 1 = 1\n#endif", "#if 1/0\n#endif", "#if 1 % 0\n#endif", "#if 2z\n#endif", "#if * 1\n#endif"]), "#if|defined|String|expression|Bad number"),
    ("syntax of #ifdef", lambda s: s.pick(["#ifdef\n#endif", "#ifdef 1\n#endif", "#ifndef A B\n#endif"]), "Syntax error in #ifdef"),
    ("macro parameters", lambda s: s.pick(["#define P(a a", "#define P(1) a", "#define P(a,) a", "#define P(,a) a", "#define P(a", "#define P(a,a) a"]), "macro"),
    ("name of a macro", lambda s: s.pick(["#define", "#define 1 2", "#define \"x\"", "#define + 1"]), "#defined token is not a name"),
    ("reserved name", lambda s: s.pick(["#define defined 1", "#define __LINE__ 1", "#define __FILE__", "#define __STDC__ 2"]), "can't be redefined"),
    ("# without parameter", lambda s: "#define Q(a) # b\nQ(1)", "# not followed by macro parameter"),
    ("## at the end", lambda s: s.pick(["#define B1 ## a\nB1", "#define B2 a ##\nB2", "#define B3(x) x ##\nB3(1)"]), "## occurs at border"),
    ("#line", lambda s: s.pick(["#line", "#line x", "#line 5 x", "#line \"f\" 5", "#line 5 \"a\" \"b\""]), "Syntax error in #line"),
    ("#undef", lambda s: s.pick(["#undef", "#undef 1", "#undef A B"]), "Syntax error in #undef"),
    ("open string", lambda s: s.pick(["x \"abc", "x 'a", "x \"abc\\"]), "Unterminated string or char const|EOF in string"),
    ("unknown", lambda s: "#\"x\"", "Unidentifiable control line"),
]
LAST = [
    ("open #if", lambda s: s.pick(["#if 1\nx", "#if 0\nx", "#ifdef A\n#else\nx", "#if 1\n#if 1\n#endif"]), "Unterminated"),
    ("open argument list", lambda s: "#define O(a) a\nO(1, x\n y", "EOF in macro arglist"),
    ("EOF in string", lambda s: "x \"abc", None),
]


def p05(ctx, env):
    s = ctx.src
    lines, n = [], 0
    for _ in range(s.below(8)):
        lines.append(s.pick(["a b c", "#define X%d 1" % len(lines), "", "/* c\n c */", "#if 1\nx\n#endif", "#if 0\n#error no\n#endif", "f(1,\n2)"]))
    kinds = []
    for _ in range(s.pick([1, 1, 1, 2, 5])):
        k, f, msg = s.pick(ERRORS)
        kinds.append((k, f(s), msg))
    if len(kinds) > 1:         # an open string that goes on in the next line may end there
        kinds = [(k, x[:-1] if x.endswith("\\") else x, m) for k, x, m in kinds]
    pre = post = []
    if len(kinds) == 1 and kinds[0][0] not in ("#else alone", "#endif alone", "#elif alone") and s.below(3) == 0:
        for _ in range(s.range(1, 3)):        # inside groups that are not skipped
            p, q = s.pick([(["#if 1"], ["#endif"]), (["#if 0", "x", "#else"], ["#endif"]), (["#ifndef NOTDEF"], ["#else", "#error no", "#endif"]), (["#if 0", "#error no", "#elif 1"], ["#else", "y", "#endif"])])
            pre, post = pre + p, q + post
        ctx.label("inside a group")
    lines += pre
    for k, x, msg in kinds:
        lines.insert(s.below(len(lines) + 1) if len(kinds) > 1 else len(lines), x)
    tail = ""
    at = None
    if len(kinds) == 1:
        at = sum(l.count("\n") + 1 for l in lines[:-1]) + 1
        at = (at, at + lines[-1].count("\n"))
    lines += post
    for _ in range(s.below(4)):
        lines.append(s.pick(["a b c", "", "#define Y 1", "/* c\n c */"]))
    if s.below(4) == 0:
        k, f, msg = s.pick(LAST)
        if any(x and x.endswith("\\") for _, x, _ in kinds):     # an open string that goes on in the next line
            k, f, msg = LAST[0]
        kinds = kinds + [(k, None, msg)] if s.below(2) else [(k, None, msg)]
        if len(kinds) == 1:
            lines = ["a", "b"]
        lines.append(f(s))
        at = None
        ctx.label(k)
    text = "\n".join(lines) + "\n"
    inc = s.below(3) == 0 and at is not None
    ctx.say(text)
    main = "t.c"
    if inc:
        ctx.write("h.h", text)
        ctx.write("t.c", "x\n#include \"h.h\"\ny\n")
    else:
        ctx.write("t.c", text)
    r = cpp(ctx, env, ["t.c"] + s.pick([[], ["out.i"]]))
    err = r.err.decode("latin-1")
    ctx.check(r.rc == 1, "q3cpp accepted the file with an error (%s), exit status %d: %s" % (", ".join(k for k, _, _ in kinds), r.rc, err[:600]))
    msgs = [l for l in err.split("\n") if l.startswith("cpp: ")]
    ctx.check(msgs, "no message for %s: %s" % (kinds, err[:600]))
    if len(kinds) == 1 and kinds[0][2]:
        ctx.check(any(re.search(kinds[0][2], l) for l in msgs), "no message about %s: %s" % (kinds[0][0], err[:600]))
        if at:
            m = [re.match(r"cpp: (?:<\S+>:\d+ )*(?:\./)?(\S+?):(\d+) ", l) for l in msgs]
            want = "h.h" if inc else "t.c"
            ctx.check(any(x and x.group(1) == want and at[0] <= int(x.group(2)) <= at[1] for x in m), "the error is in %s:%d..%d, the messages say: %s" % (want, at[0], at[1], err[:600]))
    for k, _, _ in kinds:
        ctx.label(k)
    ctx.key = text
    ctx.nontrivial = True


CHECKS = [
    Check("P04", p04, 9000, 150000, "Arbitrary source and header text: random macros, directives and words, long tokens, unbalanced parentheses, comments, quotes and conditionals, deep nesting, special bytes, mutations; random options; under AddressSanitizer. Non-trivial: at least 4 lines; distinct by text.", setup),
    Check("P05", p05, 8000, 100000, "Valid text with 1..5 errors of %d kinds, in the file or a header; every case is non-trivial; distinct by text." % (len(ERRORS) + len(LAST)), setup),
    Check("P03", p03, 8000, 200000, "Source files with up to 5 headers in the same directory, a subdirectory or up to 3 include directories, found by quotes, angle brackets or macros; comments up to 70000 characters and line ends everywhere, spliced, long and empty lines, trigraphs, #line, __LINE__ and __FILE__, output to a file, input from standard input; "
          "every marker token has to appear once, in order, under the file name and line number where it stands. Non-trivial: at least 3 markers; distinct by text.", setup),
    Check("P01", p01, 7000, 100000, "Files with up to 14 definitions (object-like, 0..3 parameters, # and ##, self and mutual reference), #undef and uses (nested calls, several lines, comments, line splices), macros from the command line; oracle: gcc -E; lines whose expansion C89 leaves unspecified are left out (two models of the standard disagree). "
          "Non-trivial: at least 2 lines with a macro; distinct by text.", setup),
    Check("P02", p02, 12000, 100000, "Files with nested conditional groups up to 6 deep, generated conditions with all operators, defined, character constants and macros; expected lines computed by the generator with C89's rules for long of 32 and of 64 bits (cases where they differ are left out). Non-trivial: at least 2 evaluated conditions, 1 group taken, 1 skipped; distinct by text.", setup),
]
