"""Compiler checks L01-..: C programs run through the whole tool chain."""
import os, re, shutil, struct, subprocess
import cexpr, cmicro, cprog, driver, toolchain
from cexpr import N, Gen, Overflow, TYPES, NAMES, SPELL, conv, render, typed_const
from pbt import Check, Discard, run

SYSCALLS = "code\nequ out -1\nequ outf -2\nequ outs -3\nequ out2 -4\n"
DECL = "int out(int);\nint outf(float);\nint outs(const char*);\nint out2(int, int);\n"


def setup():
    a, b = toolchain.build()
    return {"tools": a, "san": b}


def tail(r, n=600):
    return (r.out[-n:] + r.err[-n:]).decode("latin-1")


def compile_c(ctx, env, name, text, opts=(), san=False):
    """q3rcc alone: text has no preprocessor directives.  Gives the Result; assembly in name.asm"""
    ctx.write(name + ".c", text)
    return run([env["san" if san else "tools"] + "/q3rcc", "-target=bytecode"] + list(opts) + [name + ".c", name + ".asm"], cwd=ctx.dir)


def halves(m):
    v = int(m.group(1))
    return "byte 1 %d\nbyte 1 %d" % (v & 255, v >> 8 & 255)


def build_image(ctx, env, files, opts=(), out="t", shorts=False):
    """files: [(name, C text)] -> image out.qvm; every step must succeed. The assembler refuses objects of two bytes with
    a value by design; with shorts each is given to it as the two bytes it stands for"""
    for n, t in files:
        r = compile_c(ctx, env, n, t, opts)
        ctx.check(not r.crashed, "q3rcc crashed (%d) on %s.c: %s" % (r.rc, n, tail(r)))
        ctx.check(r.rc == 0, "q3rcc refused the valid program %s.c (%d): %s" % (n, r.rc, tail(r)))
        if shorts:
            with open(ctx.dir + "/%s.asm" % n, encoding="latin-1") as f:
                a = f.read()
            ctx.write(n + ".asm", re.sub(r"(?m)^byte 2 (-?\d+)$", halves, a))
    ctx.write("sys.asm", SYSCALLS)
    r = run([env["tools"] + "/q3asm", "-o", out] + [n for n, _ in files] + ["sys"], cwd=ctx.dir)
    ctx.check(r.rc == 0, "q3asm failed (%d) on the output of the compiler: %s" % (r.rc, tail(r)))


def execute(ctx, env, args=(), out="t"):
    r = run([env["tools"] + "/run", out + ".qvm"] + [str(a) for a in args], cwd=ctx.dir)
    lines = r.out.decode("latin-1").split("\n")
    if lines and lines[0].startswith("Loading"):
        lines = lines[1:]
    ctx.check(not r.crashed, "the interpreter crashed or does not end (%d)" % r.rc)
    return [l for l in lines if l]


def compare(ctx, want, got, what="the run"):
    if want == got:
        return
    for i in range(max(len(want), len(got))):
        w = want[i] if i < len(want) else "(end)"
        g = got[i] if i < len(got) else "(end)"
        if w != g:
            ctx.fail("%s prints %r as line %d, expected %r" % (what, g, i + 1, w))


# ------------------------------------------------------------------ L01 integer expressions
class Vars:
    """variables of all kinds with known values"""
    def __init__(self, s):
        self.s, self.n = s, 0
        self.globals, self.decl = [], []      # nodes; declaration lines
        self.state = {}                       # name -> value

    def fresh(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def value(self, t):
        return conv(self.s.i32(), t)


def decl(s, t):
    return s.pick(SPELL[t])


def init_text(s, t, v):
    """initialiser of value v: any constant expression that converts to it"""
    if s.below(3) == 0:
        return render(typed_const(s, t, v), s)
    w = v
    return render(typed_const(s, "int", conv(w, "int")), s)


class Program:
    """functions of expressions over globals, parameters and locals, with everything's value known"""
    def __init__(self, s, mode="vars"):
        self.s, self.mode = s, mode
        self.lines, self.want = [], []
        self.v = Vars(s)
        self.glob = []           # [name, type, value-holder]
        self.val = {}
        self.ops = set()
        self.dead = 0

    # ---- variables
    def add_globals(self, n):
        s = self.s
        for _ in range(n):
            t = s.pick(NAMES)
            k = s.below(8)
            nm = self.v.fresh("g")
            v = self.v.value(t)
            if k <= 3 and TYPES[t][0] != 16:
                self.lines.append("%s%s %s = %s;" % (s.pick(["", "static ", "const ", "volatile "]), decl(s, t), nm, init_text(s, t, v)))
            elif k == 4 and TYPES[t][0] != 16:
                i = s.below(4)
                vs = [self.v.value(t) for _ in range(4)]
                vs[i] = v
                self.lines.append("%s %s[4] = { %s };" % (decl(s, t), nm, ", ".join(init_text(s, t, x) for x in vs)))
                nm = "%s[%d]" % (nm, i)
            elif k == 5:
                self.lines.append("struct { char a; %s m; short z; } %s;" % (decl(s, t), nm))
                nm += ".m"
                self.pre.append("%s = %s;" % (nm, init_text(s, t, v)))
            elif k == 6:
                self.lines.append("%s %s; %s *p%s = &%s;" % (decl(s, t), nm, decl(s, t), nm, nm))
                self.pre.append("%s = %s;" % (nm, init_text(s, t, v)))
                nm = "*p" + nm
            elif k == 7:
                w = s.range(1, 32)
                sg = s.below(2)
                bt = "int" if sg else "unsigned"
                self.lines.append("struct { unsigned a : %d; %s m : %d; int z : %d; } %s;" % (s.range(1, 32), bt, w, s.range(1, 32), nm))
                nm += ".m"
                v = s.i32() & ((1 << w) - 1)
                if sg and v >> (w - 1):
                    v -= 1 << w
                t = "int"
                if not sg:        # whether it promotes to int or unsigned differs between compilers
                    t = s.pick(["int", "unsigned int"])
                    nm = "(%s)%s" % (t, nm)
                self.pre.append("%s = %s;" % (nm[nm.index(")") + 1:] if not sg else nm, init_text(s, "int", conv(v, "int"))))
                v = conv(v, t)
                self.ops.add("bit field")
            else:
                self.lines.append("%s %s;" % (decl(s, t), nm))
                self.pre.append("%s = %s;" % (nm, init_text(s, t, v)))
            self.glob.append((nm, t, v))

    def leafnode(self, env):
        nm, t, v = self.s.pick(env)
        if nm[0] in "(*":
            nm = "(%s)" % nm
        return N("var", nm, [], t, v)

    def build(self, nfun, nstat, depth):
        s = self.s
        self.pre = []
        self.add_globals(s.range(3, 8))
        funs = []
        ids = {}
        calls = []
        self.idfun = []
        for t in NAMES:
            u = s.pick(NAMES)
            if s.below(3) == 2:
                nm = self.v.fresh("f")
                if s.below(4) < 3:
                    self.lines.append("%s %s(%s x) { return x; }" % (decl(s, t), nm, decl(s, u)))
                else:
                    self.lines.append("%s %s(x) %s x; { return x; }" % (decl(s, t), nm, decl(s, u)))
                self.idfun.append((nm, t, u))
        for i in range(nfun):
            funs.append(self.function(i, nstat, depth))
        main = ["int vmMain(int command) {"] + ["    " + x for x in self.pre] + funs + ["    return 77;", "}"]
        self.want.append("ret 77")
        # vmMain has to be the first function of the image
        decls = [l for l in self.lines if "{ return x; }" not in l and not l.startswith(("int F", "static int F"))]
        protos, bodies = [], []
        for l in self.lines:
            if l in decls:
                continue
            bodies.append(l)
        return DECL + "\n".join(self.protos() + decls + main + bodies) + "\n"

    def protos(self):
        r = []
        for l in self.lines:
            if "{ return x; }" in l:
                h = l[:l.index("{")].strip()
                if ") " in h and h.endswith(";"):      # old style definition
                    r.append(h[:h.index("(")] + "();")
                else:
                    r.append(h + ";")
        return r + list(self.fprotos)

    fprotos = ()

    def function(self, i, nstat, depth):
        s = self.s
        name = "F%d" % i
        params, args, env = [], [], list(self.glob)
        for k in range(s.below(5)):
            t = s.pick(NAMES)
            v = s.i32()
            params.append("%s p%d" % (decl(s, t), k))
            args.append(render(typed_const(s, "int", v), s))
            env.append(("p%d" % k, t, conv(v, t)))
        body = []
        for k in range(s.below(4)):
            t = s.pick(NAMES)
            v = s.i32()
            body.append("    %s%s l%d = %s;" % (s.pick(["", "register ", "auto ", "volatile "]), decl(s, t), k, render(typed_const(s, "int", v), s)))
            env.append(("l%d" % k, t, conv(v, t)))
        # variables that are written: one per statement, read back afterwards
        wvars = []
        for k in range(2):
            t = s.pick(NAMES)
            v = s.i32()
            loc = s.below(2)
            nm = self.v.fresh("w")
            if loc:
                body.append("    %s %s = %s;" % (decl(s, t), nm, render(typed_const(s, "int", v), s)))
            else:
                self.lines.append("%s %s;" % (decl(s, t), nm))
                self.pre.append("%s = %s;" % (nm, render(typed_const(s, "int", v), s)))
            wvars.append([nm, t, conv(v, t)])
        stats = []
        for _ in range(s.range(1, nstat)):
            stats += self.statement(env, wvars, depth)
        head = "%sint %s(%s)" % (s.pick(["", "static "]), name, ", ".join(params) or "void")
        self.fprotos = tuple(self.fprotos) + (head + ";",)
        self.lines.append(head + " {\n" + "\n".join(body + stats) + "\n    return 0;\n}")
        if not getattr(self, "last_returns", False):
            pass
        return "    %s(%s);" % (name, ", ".join(args))

    def gen(self, env):
        g = Gen(self.s, lambda: self.leafnode(env))
        s = self.s

        def size(d):
            t = s.pick(NAMES)
            if s.below(2):
                return N("sizeof0", t, [], "unsigned long", TYPES[t][0] // 8)
            e = g.gen(min(d - 1, 2))
            if "." in render(e, None):      # sizeof a bit field is an error
                return N("sizeof0", t, [], "unsigned long", TYPES[t][0] // 8)
            return N("sizeof", "", [e], "unsigned long", TYPES[e.ty][0] // 8)

        def call(d):
            nm, t, u = s.pick(self.idfun)
            e = g.gen(d - 1)
            return N("call", nm, [e], t, conv(conv(e.val, u), t))
        g.extra = [size] + ([call, call] if self.idfun else [])
        return g

    def note(self, n):
        st = [n]
        while st:
            x = st.pop()
            if x.k in ("bin", "un", "asg", "pre", "post"):
                self.ops.add(x.k + " " + x.op)
            elif x.k in ("cast", "cond", "call", "sizeof"):
                self.ops.add(x.k)
            st += x.kids

    def statement(self, env, wvars, depth):
        s = self.s
        g = self.gen(env)
        k = s.below(10)
        d = s.range(1, depth)
        if k <= 3:
            e = g.gen(d)
            self.note(e)
            self.want.append("i %d" % conv(e.val, "int"))
            return ["    out(%s);" % render(cexpr.cast("int", e) if False else e, s) if e.op != "," else "    out((%s));" % render(e, s)]
        if k == 4:
            e = g.gen(d)
            self.note(e)
            self.want.append("i %d" % (1 if e.val else 2))
            return ["    if (%s) out(1); else out(2);" % render(e, s)]
        w = s.pick(wvars)
        nm, t, v = w
        var = N("var", nm, [], t, v)
        if k == 5:
            op = s.pick(["++", "--"])
            n = conv(v + (1 if op == "++" else -1), t)
            form = s.pick(["pre", "post"])
            x = N(form, op, [var], t, n if form == "pre" else v)
        elif k == 6:
            e = g.gen(d)
            x = N("asg", "=", [var, e], t, conv(e.val, t))
            n = x.val
        else:
            op = s.pick(["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>"])
            e = g.gen(d)
            try:
                r = cexpr.binary(op, var, e)
            except Overflow:
                op = "^"
                r = cexpr.binary(op, var, e)
            n = conv(r.val, t)
            x = N("asg", op + "=", [var, e], t, n)
        w[2] = n
        # use the value in an expression without any other read of the variable
        if s.below(2):
            x2 = g.gen(1)
            try:
                y = cexpr.binary(s.pick(["+", "-", "^", "*", ">", "=="]), x2, x)
            except Overflow:
                y = x
        else:
            y = x
        self.note(y)
        st = []
        c = s.below(4)
        if c == 0:          # in an operand that may not be evaluated
            e = g.gen(1)
            op = s.pick(["&&", "||"])
            run_it = bool(e.val) == (op == "&&")
            z = cexpr.binary(op, e, y)
            if not run_it:
                w[2] = v
            self.note(z)
            self.ops.add("short circuit with side effect")
            self.want.append("i %d" % z.val)
            st.append("    out(%s);" % render(z, s))
        elif c == 1:
            st.append("    %s;" % render(y, s))
        else:
            self.want.append("i %d" % conv(y.val, "int"))
            st.append("    out(%s);" % render(y, s))
        self.want.append("i %d" % conv(w[2], "int"))
        st.append("    out(%s);" % nm)
        return st


def l01(ctx, env):
    s = ctx.src
    p = Program(s)
    text = p.build(s.range(1, 5), 6, 5)
    ctx.say(text)
    opts = s.pick([(), (), ("-g",)])
    build_image(ctx, env, [("t", text)], opts)
    compare(ctx, p.want, execute(ctx, env))
    ctx.key = text
    ctx.nontrivial = len(p.ops) >= 3
    for o in p.ops:
        ctx.label(o)


# ------------------------------------------------------------------ L02 constants
def l02(ctx, env):
    """the same expression as constant in every place that asks for one, and at run time"""
    s = ctx.src
    v = Vars(s)
    decls, pre, body, want = [], [], [], []
    leaves = []
    for i in range(s.range(1, 5)):
        t = s.pick(NAMES)
        x = v.value(t)
        leaves.append(N("var", "g%d" % i, [], t, x))
        decls.append("%s%s g%d;" % (s.pick(["", "volatile ", "static "]), decl(s, t), i))
        pre.append("    g%d = %s;" % (i, render(typed_const(s, "int", conv(x, "int")), s)))

    def flcast(d):
        t = s.pick(NAMES)
        b, sg = TYPES[t]
        m = min(s.pick([3, 100, 30000, 70000, 1 << 24, 2000000000]), (1 << (b - sg)) - 1)
        w = s.below(m + 1)
        frac = s.pick([0, 25, 5, 75, 99])
        txt = "%d.%s%s" % (w, frac or "", s.pick(["", "", "e0", "E+0"]))
        if w > 1 << 24:
            txt = "%d." % (w & ~127)
            w &= ~127
        if s.below(4) == 0:
            if frac in (99, 5) or w > 1 << 20:      # a float constant may keep more precision than a float
                txt, w = "1.5", 1
            txt += s.pick(["f", "F"])
        if sg and s.below(3) == 0:
            return N("cast", t, [N("un", "-", [N("lit", txt, [], "double", w)], "double", -w)], t, -w)
        return N("cast", t, [N("lit", txt, [], "double", w)], t, w)

    def size(d):
        n = s.range(1, 9)
        t = s.pick(NAMES)
        z = TYPES[t][0] // 8
        txt, val = s.pick([("%s[%d]" % (t, n), z * n), ("%s *" % t, 4), ("struct { %s a[%d]; }" % (t, n), z * n + 3 & ~3), ("%s (*)[%d]" % (t, n), 4), ("%s *[%d]" % (t, n), 4 * n),
                           ("float [%d]" % n, 4 * n), ("union { char x; %s y; }" % t, 4), ("struct { char x; %s y; }" % t, 2 * z + 3 & ~3)])
        return N("sizeof0", txt, [], "unsigned long", val)

    g = Gen(s, lambda: s.pick(leaves), strict=True, comma=False)
    g.extra = [flcast, size]
    text = lambda e: render(e, s, lambda n: "(%s)" % render(typed_const(s, n.ty, n.val), s))
    kinds = set()

    def expect(x, out):
        body.append("    out(%s);" % x)
        want.append("i %d" % conv(out, "int"))

    for i in range(s.range(2, 8)):
        e = g.gen(s.range(1, 4))
        st = [e]
        while st:
            x = st.pop()
            if x.k in ("bin", "un", "cast", "cond", "sizeof0"):
                kinds.add(x.k)
            st += x.kids
        for _ in range(s.range(1, 3)):
            k = s.below(10)
            nm = "c%d_%d" % (i, len(body))
            if k <= 1:
                t = s.pick([t for t in NAMES if TYPES[t][0] != 16])
                d = "static %s %s = %s;" % (decl(s, t), nm, text(e))
                (body if s.below(2) and not any("out" in b for b in body) else decls).append(d)
                expect(nm, conv(e.val, t))
                ctx.label("static initialiser")
            elif k == 2:
                t = s.pick([t for t in NAMES if TYPES[t][0] != 16])
                decls.append("%s %s[] = { %s, %s%s };" % (decl(s, t), nm, s.range(-9, 9), text(e), s.pick(["", ","])))
                expect(nm + "[1]", conv(e.val, t))
                ctx.label("array initialiser")
            elif k == 3:
                ty = cexpr.prom(e.ty)
                other = conv(e.val + s.pick([1, -1, 256, 65536]), ty)
                sel, hit = (e.val, 1) if s.below(3) else (other, 2)
                body.append("    switch (%s) { default: out(3); break; case %s: out(1); break; case %s: out(2); }" % (
                    render(typed_const(s, ty, sel), s), text(e), render(typed_const(s, ty, other), s)))
                want.append("i %d" % hit)
                ctx.label("case label")
            elif k == 4:
                w = conv(e.val, "int")
                decls.append("enum { %s = %s, %sn };" % (nm, text(e if e.val == w else cexpr.cast("int", e)), nm)
                             if w < 0x7fffffff else "enum { %s = %s };" % (nm, text(e)))
                expect(nm, w)
                if w < 0x7fffffff and s.below(2):
                    expect(nm + "n", w + 1)
                leaves.append(N("enum", nm, [], "int", w))
                ctx.label("enumeration constant")
            elif k == 5:
                n = (e.val & 63) + 1
                decls.append("%schar %s[((%s) & 63) + 1];" % (s.pick(["", "static "]), nm, text(e)))
                expect("sizeof " + nm, n)
                ctx.label("array size")
            elif k == 6:
                n = (e.val & 31) + 1
                decls.append("struct { unsigned a : %d, m : ((%s) & 31) + 1; } %s;" % (s.range(1, 32), text(e), nm))
                body.append("    %s.m = -1;" % nm)
                expect("(unsigned)%s.m" % nm, (1 << n) - 1)
                ctx.label("bit field width")
            elif k == 7:
                z = s.below(2)
                body.append("    if (%s) out(1); else out(2);" % text(e))
                want.append("i %d" % (1 if e.val else 2))
                ctx.label("constant condition")
            else:
                expect("(%s)" % text(e), e.val)
                ctx.label("constant in an expression")
            if s.below(2):      # some leaves variable, some constant
                mixed = render(e, s, lambda n: "(%s)" % (n.op if s.below(2) else render(typed_const(s, n.ty, n.val), s)))
                expect("(%s)" % mixed, e.val)
    prog = DECL + "\n".join(decls) + "\nint vmMain(int command) {\n" + "\n".join(b for b in body if b.startswith("static")) + "\n" + "\n".join(pre) + "\n" + "\n".join(b for b in body if not b.startswith("static")) + "\n    return 77;\n}\n"
    want.append("ret 77")
    ctx.say(prog)
    build_image(ctx, env, [("t", prog)], s.pick([(), (), ("-g",)]))
    compare(ctx, want, execute(ctx, env))
    ctx.key = prog
    ctx.nontrivial = len(kinds) >= 2
    for k in kinds:
        ctx.label("expression with " + {"bin": "operator", "un": "unary operator", "cond": "conditional", "sizeof0": "sizeof", "cast": "cast"}[k])


# ------------------------------------------------------------------ whole programs against the host compiler
def native(ctx, env, text, name="n"):
    """output lines of the program compiled by the host's compiler, None if it takes too long"""
    ctx.write(name + "h.c", cprog.host_text(text))
    if not os.path.exists(ctx.dir + "/native.o"):
        shutil.copy(env["tools"] + "/native.obj", ctx.dir + "/native.o")
    r = run(["gcc", "-O0", "-w", "-fwrapv", "-fno-strict-aliasing", "-ffp-contract=off", "-fshort-wchar", "-o", name, name + "h.c", "native.o"], cwd=ctx.dir)
    if r.rc:
        raise RuntimeError("the host compiler refuses the program: " + r.err.decode("latin-1")[:600])
    r = run(["./" + name], cwd=ctx.dir, timeout=5)
    if r.rc:
        raise Discard("native run %d" % r.rc)
    return [l for l in r.out.decode("latin-1").split("\n") if l]


def differential(profile, nglob, nfun, size, depth, needs, micro=()):
    def check(ctx, env):
        s = ctx.src
        p = cprog.CProg(s, profile)
        p.generate(s.range(1, nglob), s.range(1, nfun), s.range(3, size), s.range(1, depth))
        if profile.get("extras"):
            p.extras()
        for i in range(s.below(4) if micro else 0):
            p.add(*s.pick(micro)(s, i))
        text = p.single()
        ctx.say(text)
        want = native(ctx, env, text)
        build_image(ctx, env, [("t", cprog.vm_text(text))], s.pick([(), (), ("-g",)]))
        compare(ctx, want, execute(ctx, env))
        ctx.key = text
        ctx.nontrivial = len(want) >= 8 and len(p.labels & needs) >= 1
        for l in p.labels:
            ctx.label(l)
        ctx.label("lines printed: " + ("< 20" if len(want) < 20 else "20..199" if len(want) < 200 else ">= 200"))
    return check


CONTROL = {"if", "for", "while", "do", "switch", "duff", "back", "jump", "goto"}
ORACLE = "the output is compared with that of the same program compiled by the host's C compiler. "

CHECKS = [
    Check("L01", l01, 12000, 200000, "A program of 1..5 functions with up to 6 statements each over global, static, array, member, bit field, pointed-to, parameter and local variables of all integer types: operators, casts, assignments, "
          "conditional evaluation and calls, up to 5 operators deep; every value printed is compared with the value computed from the rules of C. Non-trivial: at least 3 different operators; distinct by text.", setup),
    Check("L02", l02, 8000, 200000, "A program with 2..8 constant expressions (operators, casts, conditions, sizeof, float constants cast to integers, enumeration constants) without overflow, each used as static initialiser, array element, case label, enumeration value, "
          "array size, bit field width, condition, plain expression and with some of its constants replaced by variables; every use is compared with the value computed from the rules of C. Non-trivial: at least 2 kinds of operation; distinct by text.", setup),
    Check("L03", differential(dict(control=5, aggr=1, ptr=1, calls=2), 5, 4, 30, 4, CONTROL, (cmicro.switch, cmicro.loops, cmicro.logic)), 2400, 60000, "Programs of nested if, for, while, do, switch (dense, sparse, clustered, negative, of all types, with fall through), break, continue, goto "
          "in both directions, jumps into loops, returns, blocks with shadowed names and static locals, recursion-free calls, and up to three functions dense in one feature (a switch applied to its labels and their neighbours, loops whose first test is decided at compile time, conditional evaluation with a trace); " + ORACLE + "Non-trivial: at least 8 lines of output and a control statement; distinct by text.", setup),
    Check("L04", differential(dict(control=1, aggr=5, ptr=5, calls=2, bits=3), 8, 3, 25, 2, {"structure assignment", "pointer assignment", "pointer loop", "bit field"}, (cmicro.bits, cmicro.bits, cmicro.pointers, cmicro.structs)), 2400, 60000, "Programs over nested structures, unions, arrays, bit fields, enumerations and "
          "pointers to all of them: member access, indexing in all its spellings, pointer arithmetic and comparison, structure assignment, addresses of parts, pointer loops, and up to three functions dense in one feature (bit fields, pointers into arrays of elements of many sizes, structures by value); every object is printed at the end; " + ORACLE +
          "Non-trivial: at least 8 lines of output and a structure, pointer or bit field statement; distinct by text.", setup),
    Check("L06", differential(dict(control=2, aggr=2, ptr=1, calls=2, floats=5), 6, 3, 25, 2, {"call", "if", "for", "while", "do", "switch"}, (cmicro.fconv,)), 2400, 60000, "Programs with float objects, constants, operators, comparisons, "
          "conversions from and to integers at their borders, parameters and results; " + ORACLE + "Values are compared bit by bit, all NaNs taken as equal; no arithmetic of two float constants, which may be done with more precision. Non-trivial: at least 8 lines of output and a call or a control statement; distinct by text.", setup),
    Check("L07", differential(dict(control=1, aggr=2, ptr=3, calls=6, floats=2, extras=1), 4, 8, 15, 2, {"call", "call through pointer", "structure result", "conditional call"}, (cmicro.args, cmicro.args, cmicro.structs)), 2400, 60000, "Programs of up to 8 functions with up to 8 parameters of "
          "integer, float, pointer and structure type, prototypes or old style definitions, calls nested in arguments, function pointers and arrays of them, structures passed and returned by value, mutual recursion, variable argument lists, calls nested in conditional branches of arguments; " + ORACLE +
          "Non-trivial: at least 8 lines of output and a call; distinct by text.", setup),
]
