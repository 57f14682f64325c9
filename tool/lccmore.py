"""Compiler checks L05, L08-L11: static data, diagnostics, several files, options, robustness."""
import os, re
import cexpr, cmicro, cprog, toolchain
from cexpr import TYPES, conv
from lccchecks import setup, tail, compile_c, build_image, execute, compare, native, ORACLE, SYSCALLS, DECL
from pbt import Check, Discard, load_known, run


# ------------------------------------------------------------------ L05 static data
def is_aggr(t):
    return t[0] in "as"


class Data(cprog.CProg):
    """objects with initialisers in every form C allows"""
    def make_types(self):
        super().make_types()
        self.strs = 0

    def some_type(self, d=2):
        s = self.s
        if d > 0 and s.below(8) == 0:
            return ("a", s.pick([1, 2, 3, 4, 6, 9]), ("i", s.pick(["char", "unsigned char", "signed char"])))
        if d > 0 and s.below(8) == 0:
            return ("p", s.pick([("str",), ("i", "int"), ("i", "char"), ("i", "unsigned int"), ("i", "short")]))
        return super().some_type(d)

    def tname(self, t):
        return "char" if t[0] == "str" else super().tname(t)

    def size(self, t):
        return 4 if t[0] == "str" else super().size(t)

    def string(self, n, full=False):
        """a string literal of at most n characters"""
        s = self.s
        k = n if full else s.range(0, n)
        r = ""
        for i in range(k):
            c = s.pick(list("abcxyz09 !%,;{}") + ["\\n", "\\t", "\\\\", "\\\"", "\\0", "\\177", "\\x7f", "\\'", "\\377", "\\200", "\\001", "\\12", "\\a", "?"])
            if r[-2:-1] == "\\" and c[0] in "019" or re.search(r"\\(x[0-9a-f]*|[0-7]{1,2})$", r) and c[0] in "0123456789abcdef":
                r += '" "'
            r += c
        self.strs += 1
        return '"%s"' % r

    def addr_const(self, t):
        s = self.s
        if t[0] == "str":
            return self.string(6)
        if t == ("i", "char") and s.below(3) == 0:
            return '"%s" + %d' % ("hello", s.below(5))
        c = []
        for g in self.globals:
            if not g.const and not g.reg:
                self.reach("", g.name, g.ty, t, c, 0)
        return s.pick(c) if c else None

    def reach(self, pre, text, ty, want, out, d):
        """address constants of the parts of text that have the type wanted"""
        s = self.s
        if ty == want:
            out.append("&" + text)
        if ty[0] == "a":
            if ty[2] == want:
                k = s.below(ty[1])
                out += [text, "%s + %d" % (text, k), "&%s[%d]" % (text, k), "&*(%s + %d)" % (text, k), "%d + %s" % (k, text), "&%s[%d] - %d" % (text, ty[1] - 1, s.below(ty[1])),
                        "&%d[%s]" % (k, text), "(%s) + %d" % (text, k)]
            elif d < 4:
                self.reach(pre, "%s[%d]" % (text, s.below(ty[1])), ty[2], want, out, d + 1)
        if ty[0] == "s" and d < 4:
            for m, ft, b in self.tags[ty[1]][1]:
                if not b:
                    self.reach(pre, "%s.%s" % (text, m), ft, want, out, d + 1)

    def need_ptr(self, t):
        if t[0] == "p" and t[1][0] == "str":
            return
        super().need_ptr(t)

    def add_global(self, t=None):
        """one object, with the declarations that go with it"""
        s = self.s
        if t is None:
            t = self.any_type(3)
        self.need_ptr(t)
        n = self.fresh("g")
        init = None
        if self.has(t, "p") or s.below(10) < 8:
            init = self.init(t)
        unknown = False
        if init is not None and t[0] == "a" and s.below(4) == 0:
            c = self.counted(t)
            if c:
                t, init = c
                unknown = True
                self.labels.add("array of unknown size")
        if init is None and self.has(t, "p"):
            return self.add_global(("i", "int"))
        const = init is not None and s.below(6) == 0 and not self.has(t, "p")
        v = cprog.Var(n, t, const, True)
        st = s.pick(["", "", "static "])
        cv = "const " if const else ""
        d = cv + self.declare(t, n)
        du = cv + self.declare(("a", 0, t[2]), n).replace(n + "[0]", n + "[]") if t[0] == "a" else d
        pre, post = [], []
        if not unknown or not st:
            for _ in range(s.below(3) if s.below(3) == 0 else 0):
                k = s.below(3)
                x = st + d + ";" if k == 0 and not unknown else "extern %s;" % (d if s.below(2) else du) if not st and not unknown else "extern %s;" % du if not st else ""
                if st and not x:
                    x = st + d + ";"
                (pre if s.below(2) or unknown else post).append(x)
                self.labels.add("several declarations")
        text = (st + (du if unknown else d)).strip() + (" = " + init if init is not None else "") + ";"
        self.globals.append(v)
        self.gdef[n] = (st, d, init)
        self.texts += pre + [text] + post
        return v

    # text of an initialiser; braced: whether the whole must stand in braces
    def init(self, t, top=True):
        s = self.s
        if t[0] in "ife":
            x = self.const_of(t)
            if s.below(12) == 0 and top is not None:
                self.labels.add("braces around a scalar")
                return "{ %s }" % x
            return x
        if t[0] == "p":
            self.labels.add("address constant")
            return self.addr_const(t[1])
        if t[0] == "a":
            if t[2][0] == "i" and TYPES[t[2][1]][0] == 8 and s.below(2):
                self.labels.add("string")
                x = self.string(t[1], s.below(4) == 0)
                return "{ %s }" % x if s.below(5) == 0 else x
            elems = [t[2]] * t[1]
            n = t[1] if not self.can_default(t[2]) else s.range(1, t[1])
            full = n == t[1]
        else:
            kind, fs = self.tags[t[1]]
            elems = [f[1] for f in fs]
            bits = [f[2] for f in fs]
            n = len(elems)
            if kind == "union":
                elems, n = elems[:1], 1
            elif s.below(4) == 0:
                while n > 1 and self.can_default(elems[n - 1]):
                    n -= 1
                n = s.range(n, len(elems))
            full = n == len(elems)
        l = []
        for e in elems[:n]:
            x = self.init(e)
            if x is None:
                return None
            l.append(x)
        if not full:
            self.labels.add("fewer initialisers than members")
        if not top:
            return "{ " + ", ".join(l) + s.pick(["", ","]) + " }"
        if top is True and full and s.below(3) == 0:
            y = self.elided(t, True)
            if y is not None:
                self.labels.add("braces left out")
                return "{ " + ", ".join(y) + s.pick(["", ","]) + " }"
        return "{ " + ", ".join(l) + s.pick(["", ",", " ,"]) + " }"

    def elided(self, t, outer=False, plain=False):
        """all values of t as a flat list, some parts in braces; plain: the first must not begin with a brace"""
        s = self.s
        if t[0] in "ifep":
            x = self.init(t, None)
            return None if x is None else [x]
        if not outer and not plain and s.below(3) == 0:
            x = self.init(t, False)
            return None if x is None else [x]
        if t[0] == "a":
            if t[2][0] == "i" and TYPES[t[2][1]][0] == 8 and s.below(2) and not outer:
                return [self.string(t[1])]
            elems = [t[2]] * t[1]
        else:
            kind, fs = self.tags[t[1]]
            elems = [f[1] for f in (fs[:1] if kind == "union" else fs)]
        r = []
        for i, e in enumerate(elems):
            x = self.elided(e, False, not outer and i == 0)
            if x is None:
                return None
            r += x
        return r

    def counted(self, t):
        """array of unknown size: (complete type, initialiser)"""
        s = self.s
        e = t[2]
        if e[0] == "i" and TYPES[e[1]][0] == 8 and s.below(2):
            k = s.range(0, 9)
            x = self.string(k, True)
            n = len(re.sub(r"\\(x[0-9a-f]+|[0-7]{1,3}|.)", "q", x.replace('" "', "")[1:-1])) + 1
            return ("a", n, e), x
        n = s.range(1, 6)
        l = []
        for _ in range(n):
            x = self.elided(e, False, is_aggr(e)) if s.below(2) else [self.init(e)]
            if x is None or None in x:
                return None
            l += x
        return ("a", n, e), "{ " + ", ".join(l) + s.pick(["", ","]) + " }"

    def dump(self, text, t, ind, out, depth=0):
        if t[0] == "p" and t[1][0] == "str":
            out.append("%souts(%s);" % (ind, text))
        else:
            super().dump(text, t, ind, out, depth)

    def program(self, nglob, nfun):
        s = self.s
        self.make_types()
        self.texts = []
        self.scopes, self.pure = [], False
        for _ in range(nglob):
            self.add_global()
        body, funs = [], []
        for g in self.globals:
            self.dump(g.name, g.ty, "    ", body)
            if g.ty[0] == "a":
                body.append("    out(sizeof %s / sizeof %s[0]);" % (g.name, g.name))
        for i in range(nfun):       # the same forms in static and automatic locals, entered several times
            f = ["int f%d(int k) {" % i]
            uses = []
            for _ in range(s.range(1, 3)):
                t = self.any_type(2)
                self.need_ptr(t)
                st = s.pick(["static ", ""])
                x = self.init(t)
                n = self.fresh("l")
                if x is None or not st and (self.has(t, "p") and False):
                    if self.has(t, "p"):
                        continue
                    st, x = "static ", None
                f.append("    %s%s%s%s;" % (st, s.pick(["", "", "const "]) if x and not st and not self.has(t, "p") else "", self.declare(t, n), " = " + x if x else ""))
                self.dump(n, t, "        ", uses)
                self.labels.add("static local" if st else "local aggregate")
            f += uses + ["    return k;", "}"]
            funs.append("\n".join(f))
            body += ["    f%d(%d);" % (i, i)] * s.range(1, 2)
        main = "int vmMain(int command) {\n" + "\n".join(body) + "\n    return 1;\n}"
        return self.DECL + "\n".join(self.types + self.texts + ["int f%d(int k);" % i for i in range(nfun)] + [main] + funs) + "\n"


def l05(ctx, env):
    s = ctx.src
    p = Data(s, dict(aggr=5, ptr=2, bits=3, floats=2))
    text = p.program(s.range(1, 8), s.below(3))
    for i in range(s.pick([0, 0, 1, 2])):
        protos, calls, fn, labels = cmicro.wide(s, i)
        j = text.index("int vmMain(")
        text = text[:j] + "\n".join(protos) + "\n" + text[j:]
        j = text.index("\n    return 1;\n}")
        text = text[:j] + "\n" + "\n".join("    " + c for c in calls) + text[j:] + fn + "\n"
        p.labels |= labels
    text = text.replace("vmMain(int command)", "vmMain(int command, int a0, int a1, int a2, int a3, int a4, int a5, int a6, int a7, int a8, int a9, int a10, int a11)")
    ctx.say(text)
    want = native(ctx, env, text)
    build_image(ctx, env, [("t", cprog.vm_text(text))], s.pick([(), (), ("-g",)]), shorts=True)
    compare(ctx, want, execute(ctx, env))
    ctx.key = text
    ctx.nontrivial = len(want) >= 8 and len(p.labels) >= 1
    for l in p.labels:
        ctx.label(l)


# ------------------------------------------------------------------ L09 programs in several files
def unsized(g, d):
    """the declaration without the first bound, if it is that of an array"""
    return re.sub(re.escape(g.name) + r"\[\d+\]", g.name + "[]", d, count=1) if g.ty[0] == "a" else d


def define(s, p, g, d, init):
    """a definition with the declarations C allows before and after it: [lines], [lines further down]"""
    own, late = [], []
    for k in range(s.pick([0, 0, 0, 1, 2])):
        own.append("extern %s;" % s.pick([d, unsized(g, d)]))
        p.labels.add("declared before the definition")
    text = d + (" = " + init if init else "") + ";"
    if init and s.below(4) == 0:
        own.append(d + ";")
        p.labels.add("tentative definition")
    if not init and s.below(4) == 0:
        late.append(d + ";")
        p.labels.add("tentative definition")
    own.append(text)
    for k in range(s.pick([0, 0, 0, 1, 2])):
        (own if s.below(2) else late).append("extern %s;" % s.pick([d, unsized(g, d)]))
        p.labels.add("declared after the definition")
    return own, late


def in_block(s, p, body):
    """some objects declared again within the function"""
    if s.below(4):
        return body
    for g in p.globals:
        if s.below(3) == 0 and re.search(r"\b%s\b" % g.name, body):
            st, d, init = p.gdef[g.name]
            i = body.index("{") + 1
            body = body[:i] + "\n    extern %s;" % s.pick([d, unsized(g, d)]) + body[i:]
            p.labels.add("declared within a block")
    return body


def split(s, p, nfiles):
    """the items of the program spread over files; statics of equal name in each file"""
    nf = nfiles
    where_g = [s.below(nf) for _ in p.globals]
    where_f = [s.below(nf) for _ in p.funs]
    private = [(s.i32(), s.pick(["static int priv = %d;", "static int priv[2] = { 5, %d };", "static unsigned char priv = %d & 255;", "static const int priv = %d;"])) for _ in range(nf)]
    files = []
    allt = p.main + "".join(f["body"] for f in p.funs)
    for i in range(nf):
        t = [p.DECL, ("int fuel;" if i == 0 else "extern int fuel;")]
        t += p.types
        own, late = [], []
        for k, g in enumerate(p.globals):
            st, d, init = p.gdef[g.name]
            if where_g[k] == i:
                o, l = define(s, p, g, d, init)
                own += o
                late += l
            elif s.below(3) == 0 and g.ty[0] == "a" and not re.search(r"sizeof[ (]*%s\b" % g.name, allt):
                own.append("extern " + re.sub(re.escape(g.name) + r"\[\d+\]", g.name + "[]", d, count=1) + ";" if d.count("[") and (g.name + "[") in d else "extern " + d + ";")
            else:
                own.append("extern " + d + ";")
        t += own
        t += [s.pick(["", "extern "]) + x.replace("static ", "", 1) if x.startswith("static ") else x for x in p.protos]
        v, form = private[i]
        t.append(form % conv(v, "int") if conv(v, "int") >= 0 else form % v if v >= 0 else form.replace("%d", "(%d)") % max(v, -2147483647))
        use = "priv[1]" if "[" in form else "priv"
        t.append("int show%d(void);" % i)
        body = "static int helper(int k) { static int calls = %d; return k + ++calls; }\nint show%d(void) { out(helper((int)%s)); out(helper(1)); %souts(\"file %d\"); %sreturn 0; }" % (
            s.below(100), i, use, "%s = %s + 1; " % (use, use) if "const" not in form else "", i,
            "".join("out(sizeof %s / sizeof %s[0]); " % (g.name, g.name) for k, g in enumerate(p.globals) if where_g[k] == i and g.ty[0] == "a"))
        if i == 0:
            t += ["int show%d(void);" % j for j in range(1, nf)]
            t.append(p.main.replace("\n    return", "\n" + "".join("    show%d();\n" % j for j in range(nf)) * 2 + "    return", 1) if "\n    return" in p.main else p.main)
        bodies = [body] + [in_block(s, p, re.sub(r"^static ", "", f["body"])) for k, f in enumerate(p.funs) if where_f[k] == i]
        while late:
            bodies.insert(s.below(len(bodies) + 1), late.pop())
        t += bodies
        files.append(("m%d" % i, "\n".join(t) + "\n"))
    return files


SAMESTATIC = "file-scope static names of one file collide with equal names of other files (q3asm: Multiple definitions)"


def l09(ctx, env):
    s = ctx.src
    p = cprog.CProg(s, dict(control=1, aggr=3, ptr=4, calls=4, floats=1))
    p.generate(s.range(1, 8), s.range(2, 6), s.range(3, 12), 2)
    files = split(s, p, s.range(2, 5))
    for n, t in files:
        ctx.say("=== " + n + ".c\n" + t)
        ctx.write(n + "h.c", cprog.host_text(t))
    import shutil
    shutil.copy(env["tools"] + "/native.obj", ctx.dir + "/native.o")
    r = run(["gcc", "-O0", "-w", "-fwrapv", "-fno-strict-aliasing", "-ffp-contract=off", "-o", "n"] + [n + "h.c" for n, _ in files] + ["native.o"], cwd=ctx.dir)
    if r.rc:
        raise RuntimeError("the host compiler refuses the program: " + r.err.decode("latin-1")[:900])
    r = run(["./n"], cwd=ctx.dir, timeout=5)
    if r.rc:
        raise Discard("native run %d" % r.rc)
    want = [l for l in r.out.decode("latin-1").split("\n") if l]
    rest = files[1:]
    order = [files[0]]
    while rest:
        order.append(rest.pop(s.below(len(rest))))
    opts = s.pick([(), (), ("-g",)])
    if s.below(8):
        own = lambda n, t: re.sub(r"\b(priv|helper)\b", r"\1_" + n, t)
    else:                # statics of one name in all files
        own = lambda n, t: t
    vm = [(n, own(n, cprog.vm_text(t))) for n, t in order]
    for n, t in vm:
        r = compile_c(ctx, env, n, t, opts)
        ctx.check(r.rc == 0, "q3rcc refused the valid program %s.c (%d): %s" % (n, r.rc, tail(r)))
    ctx.write("sys.asm", SYSCALLS)
    cmd = [env["tools"] + "/q3asm", "-o", "t"] + [n for n, _ in vm] + ["sys"]
    r = run(cmd, cwd=ctx.dir)
    if own("x", "priv") == "priv":
        ctx.label("equal static names")
        errs = [l for l in (r.out + r.err).decode("latin-1").split("\n") if "Multiple definitions" in l]
        if r.rc and errs and all(re.match(r"m\d+:\d+ Multiple definitions for (priv|helper)$", l.strip()) for l in errs) and SAMESTATIC in load_known("L09"):
            ctx.known.append(SAMESTATIC)
            build_image(ctx, env, [(n, re.sub(r"\b(priv|helper)\b", r"\1_" + n, t)) for n, t in vm], opts)
            r = run(cmd, cwd=ctx.dir)
    ctx.check(r.rc == 0, "q3asm failed (%d) on the output of the compiler: %s" % (r.rc, tail(r)))
    compare(ctx, want, execute(ctx, env))
    ctx.key = "".join(t for _, t in files)
    ctx.nontrivial = len(want) >= 8
    ctx.label("%d files" % len(files))
    for l in p.labels:
        ctx.label(l)


# ------------------------------------------------------------------ L10 what must not matter
TOKEN = re.compile(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|\.?\d(?:[eE][+-]|[\w.])*|[A-Za-z_]\w*|<<=|>>=|\.\.\.|->|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||[-+*/%&|^]=|[^\s]')
KEEP = set("auto break case char const continue default do double else enum extern float for goto if int long register return short signed sizeof static struct switch typedef union unsigned void volatile while vmMain out outf outs out2 ATTR".split())


C_WORDS = sorted(KEEP - set("vmMain out outf outs out2 ATTR".split()))


def tokens(text):
    return TOKEN.findall(text)


def glue(a, b):
    """whether the tokens have to be kept apart"""
    if (a[-1].isalnum() or a[-1] in "_.") and (b[0].isalnum() or b[0] in "_."):
        return True
    if a[-1] in "eE" and b[0] in "+-":
        return True
    m = TOKEN.match(a + b)
    return m is None or m.end() != len(a) or (a == "/" and b[0] in "*/") or a[-1] == "." and b[0] == "."


def reformat(s, toks):
    """the tokens with other white space; only /* */ comments, as the preprocessor would have left none"""
    out = []
    style = s.below(4)
    col = 0
    for i, t in enumerate(toks):
        out.append(t)
        col += len(t)
        if i + 1 == len(toks):
            break
        need = glue(t, toks[i + 1])
        if style == 0:
            sep = " " if need else ""
            if col > 400 and s.below(5) == 0:
                sep = "\n"
        elif style == 1:
            sep = "\n"
        else:
            sep = s.pick([" ", " ", " ", "  ", "\t", "\n", "\n\n", " \n ", "\f", "\v", "\r\n"] if style == 3 else [" ", "\n", "  "])
            if not need and s.below(2):
                sep = ""
        if s.below(300) == 0:
            sep += s.pick([" " * s.pick([100, 1000, 4000, 4096, 5000]), "\n" * s.pick([10, 2000, 4100]), "\n# %d \"other.c\"\n" % s.range(1, 30000), "\n#line %d\n" % s.range(1, 30000), "\n#pragma something odd\n"])
        if "\n" in sep:
            col = len(sep) - sep.rindex("\n") - 1
        else:
            col += len(sep)
        out.append(sep)
    return "".join(out) + s.pick(["\n", "", "\n\n", " "])


WORDS = ["proc", "endproc", "code", "data", "bss", "lit", "skip", "equ", "byte", "address", "align", "export", "import", "file", "line", "LABELV", "ADDRL4", "ADDRGP4", "CNSTI4", "pop", "arg", "ret", "main", "LT", "b", "i", "printf", "L1", "_", "__", "a_b", "A", "a"]


def rename(s, toks):
    m, used = {}, set(KEEP) | set(C_WORDS)
    style = s.below(5)
    r = []
    for i, t in enumerate(toks):
        if not re.match(r"[A-Za-z_]", t) or t in KEEP:
            r.append(t)
            continue
        if t not in m:
            k = len(m)
            while True:
                if style == 0:
                    n = "x%d" % k
                elif style == 1:
                    n = s.pick(WORDS) + ("" if s.below(2) else "_%d" % k)
                elif style == 2:
                    n = "n" + "q" * s.pick([8, 30, 31, 32, 60, 200]) + "%d" % k
                elif style == 4:
                    n = s.pick(C_WORDS)
                    n = s.pick([n + "%d" % k, n + "_", "_" + n, n.upper(), n.capitalize(), n[:-1], n + n, n + "x", n[:-1] + n[-1].upper(), n + s.pick(C_WORDS), n + "%d" % s.below(10)])
                else:
                    n = s.pick(["Ab", "aB", "ab", "AB", "aaa", "aa", "a1", "a_1"]) + s.pick(["", "_", "%d" % s.below(9), "%d" % k])
                if n not in used and n not in m:
                    break
                k += 1
            used.add(n)
            m[t] = n
        r.append(m[t])
    return r


def l10(ctx, env):
    s = ctx.src
    p = cprog.CProg(s, dict(control=3, aggr=3, ptr=3, calls=3, floats=s.below(3)))
    p.generate(s.range(1, 5), s.range(1, 4), s.range(3, 20), 3)
    text = cprog.vm_text(p.single())
    toks = tokens(text)
    what = s.pick(["format", "format", "rename", "options", "again", "unused"])
    ctx.label(what)

    def asm(name, t, opts=()):
        r = compile_c(ctx, env, name, t, opts)
        ctx.check(not r.crashed, "q3rcc crashed (%d): %s" % (r.rc, tail(r)))
        ctx.check(r.rc == 0, "q3rcc refused the valid program (%d): %s" % (r.rc, tail(r)))
        return ctx.read(name + ".asm")

    def result(names, out):
        r = run([env["tools"] + "/q3asm", "-o", out] + names + ["sys"], cwd=ctx.dir)
        ctx.check(r.rc == 0, "q3asm failed (%d) on the output of the compiler: %s" % (r.rc, tail(r)))
        return execute(ctx, env, out=out)

    ctx.write("sys.asm", SYSCALLS)
    base = asm("t", text)
    other = None
    if what == "format":
        t2 = reformat(s, toks)
        ctx.say(text + "=== reformatted\n" + t2)
        ctx.check(tokens(re.sub(r"(?m)^#.*$", "", t2)) == toks, "HARNESS: other tokens")
        ctx.check(asm("u", t2) == base, "other assembly code after changes of white space only")
        if s.below(3) == 0:
            asm("u", t2, ["-g"])
            other = "white space and -g"
    elif what == "again":
        ctx.say(text)
        ctx.check(asm("u", text) == base, "other assembly code when the same file is compiled again")
    elif what == "rename":
        t2 = reformat(s, rename(s, toks))
        ctx.say(text + "=== renamed\n" + t2)
        asm("u", t2)
        other = "other names"
    elif what == "options":
        opts = [o for o in (s.pick(["-g", "-g2", "-g1", None]), s.pick(["-w", "-A", None]), s.pick(["-s0.1", "-s0.5", "-s0.9", "-s1.0", "-s2.0", None]), s.pick(["-e5", None])) if o]
        ctx.say("%s\n=== options %s" % (text, opts))
        a = asm("u", text, opts)
        if not any(o[1] in "sg" for o in opts):
            ctx.check(a == base, "the options %s change the code" % opts)
        other = "the options %s" % opts
    else:       # declarations that nothing uses
        extra = s.pick(["typedef struct unusedT { int a; char b[3]; } unusedT;\n", "static int unused1(int x) { switch (x) { case 1: return 2; } return unused0; }\n", "int unused2[100];\n", "static char *unused3 = \"never\";\n",
                        "extern int unused4, unused5[];\n", "enum { unused6 = 3, unused7 };\n", "static float unused8(float x) { return x * 2; }\n"])
        if "unused0" in extra:
            extra = "static int unused0;\n" + extra
        pos = text.index("int vmMain")
        t2 = text[:pos] + extra + text[pos:] if "{ s" not in extra and "{ ret" not in extra else text + extra
        ctx.say(t2)
        asm("u", t2)
        other = "an unused declaration"
    want = result(["t"], "t")
    if other:
        compare(ctx, want, result(["u"], "u"), "with " + other + " the program")
    ctx.key = text + what
    ctx.nontrivial = len(want) >= 5


CHECKS = [
    Check("L05", l05, 4000, 60000, "Programs with up to 8 static objects and up to 3 functions with static and automatic locals of nested array, structure, union, bit field, string and pointer type, initialised fully or partly, with and without inner braces, by strings and wide strings, with address constants, "
          "with unknown sizes and several declarations; all members are printed; " + ORACLE + "Non-trivial: at least 8 lines and one of these forms; distinct by text.", setup),
    Check("L09", l09, 2000, 40000, "Programs with up to 8 objects and up to 6 functions spread over 2..5 files in random order, with pointers and calls across the files, equal static names in every file, repeated, tentative, incomplete and block declarations before and after the definitions; " + ORACLE +
          "Non-trivial: at least 8 lines of output; distinct by text.", setup),
    Check("L10", l10, 2000, 60000, "A generated program compiled twice: with other white space, line ends and line directives (the assembly code must be the same), renamed identifiers (long names, equal up to the case or the last character, assembler words, keywords with something added), options (-g, -A, -w, -s, -e), "
          "an unused declaration, or unchanged; the runs must print the same. Non-trivial: at least 5 lines of output; distinct by text and kind of change.", setup),
]
