"""L14: declarators, type compatibility and composite types, and the declarations -P prints."""
import re
from pbt import Check, Discard, run
import toolchain
from lccchecks import tail

BASES = {"char": ["char"], "signed char": ["signed char"], "unsigned char": ["unsigned char"],
         "short": ["short", "short int", "signed short", "signed short int"], "unsigned short": ["unsigned short", "unsigned short int"],
         "int": ["int", "signed", "signed int", "int"], "unsigned": ["unsigned", "unsigned int"],
         "long": ["long", "long int", "signed long", "signed long int"], "unsigned long": ["unsigned long", "unsigned long int"],
         "float": ["float"], "double": ["double"], "struct S0": ["struct S0"], "struct S1": ["struct S1"], "union U0": ["union U0"], "enum E0": ["enum E0"], "enum E1": ["enum E1"], "void": ["void"]}
SIZE = {"char": 1, "signed char": 1, "unsigned char": 1, "short": 2, "unsigned short": 2}
ARITH = [b for b in BASES if b[0] not in "sU" and not b.startswith(("struct", "union", "enum", "void"))] + ["short", "signed char"]
HEAD = "struct S0 { int a; char b; }; struct S1 { int a; char b; }; union U0 { int a; char b[9]; }; enum E0 { K0 }; enum E1 { K1 };"
NOQ = frozenset()


def qual(t, q):
    if t[0] == "a":
        return ("a", t[1], qual(t[2], q))
    if t[0] == "f" or not q:
        return t
    return ("q", t[1] | q, t[2]) if t[0] == "q" else ("q", frozenset(q), t)


def unq(t):
    return t[2] if t[0] == "q" else t


def quals(t):
    return t[1] if t[0] == "q" else NOQ


def gen(s, depth, kind="obj"):
    """a type; kind: obj (an object), elem (of an array), ret, ptr (pointed to)"""
    if depth <= 0 or s.below(5) == 0:
        b = s.pick(sorted(BASES))
        if b == "void" and kind not in ("ret", "ptr"):
            b = "int"
        t = ("b", b)
        return t if kind == "ret" and s.below(4) or b == "void" and s.below(2) else qual(t, s.pick([NOQ, NOQ, NOQ, {"const"}, {"volatile"}, {"const", "volatile"}]))
    c = s.below(9)
    if c <= 3 or c <= 5 and kind in ("ret",):
        t = ("p", gen(s, depth - 1, "ptr"))
        return t if kind == "ret" else qual(t, s.pick([NOQ, NOQ, NOQ, {"const"}, {"volatile"}]))
    if c <= 5:
        return ("a", s.pick([None, 1, 2, 3, 7]) if kind in ("obj", "ptr") else s.pick([1, 2, 5]), gen(s, depth - 1, "elem"))
    if kind in ("obj", "ptr"):
        return func(s, depth)
    return ("b", "int")


def func(s, depth):
    if s.below(5) == 0:
        return ("f", gen(s, depth - 1, "ret"), None, False)
    ps = tuple(param(gen(s, depth - 2, "obj")) for _ in range(s.pick([0, 1, 1, 2, 3])))
    return ("f", gen(s, depth - 1, "ret"), ps, bool(ps) and s.below(5) == 0)


def param(t):
    return ("p", t[2]) if t[0] == "a" else ("p", t) if t[0] == "f" else t


def mutate(s, t, kind="obj"):
    """a type like t, often compatible"""
    k = t[0]
    if k == "b":
        if t[1] == "void" or s.below(3) == 0:
            return t
        if t[1] in ARITH:
            return ("b", s.pick(ARITH))
        return ("b", s.pick([b for b in BASES if b.split()[0] == t[1].split()[0]]))
    if k == "q":
        c = s.below(4)
        return qual(mutate(s, t[2], kind), t[1]) if c else t[2] if len(t[1]) == 1 else qual(t[2], s.pick([{"const"}, {"volatile"}]))
    if k != "f" and s.below(8) == 0 and kind != "ret" and not (k == "a" and kind == "elem"):
        return qual(t, s.pick([{"const"}, {"volatile"}]))
    if k == "p":
        return ("p", mutate(s, t[1], "ptr"))
    if k == "a":
        c = s.below(3)
        if c == 0 and kind in ("obj", "ptr"):
            return ("a", None if t[1] else s.pick([1, 2, 3]), t[2])
        if c == 1:
            return ("a", s.pick([1, 2, 3]) if t[1] else t[1], t[2])
        return ("a", t[1], mutate(s, t[2], "elem"))
    r, ps, v = t[1:]
    c = s.below(7)
    if c == 0:
        return ("f", mutate(s, r, "ret"), ps, v)
    if c == 1:
        return ("f", r, None, False) if ps is not None else ("f", r, tuple(("b", s.pick(["int", "double", "unsigned", "char", "enum E0"])) for _ in range(s.below(3))), False)
    if ps is None:
        return t
    if c == 2:
        return ("f", r, ps, not v if ps else False)
    if c == 3:
        ps = list(ps)
        if ps and s.below(2):
            del ps[s.below(len(ps))]
        else:
            ps.insert(s.below(len(ps) + 1), ("b", "int"))
        return ("f", r, tuple(ps), v and bool(ps))
    if c == 4:          # qualifiers of a parameter do not matter
        return ("f", r, tuple(qual(unq(p), s.pick([NOQ, {"const"}])) for p in ps), v)
    if not ps:
        return t
    i = s.below(len(ps))
    return ("f", r, ps[:i] + (param(mutate(s, ps[i])),) + ps[i + 1:], v)


PROMOTED = ("char", "signed char", "unsigned char", "short", "unsigned short")


def compat(a, b):
    if quals(a) != quals(b):
        return False
    a, b = unq(a), unq(b)
    if a[0] != b[0]:
        return False
    if a[0] == "b":
        return a[1] == b[1]
    if a[0] == "p":
        return compat(a[1], b[1])
    if a[0] == "a":
        return compat(a[2], b[2]) and (None in (a[1], b[1]) or a[1] == b[1])
    if not compat(a[1], b[1]):
        return False
    if a[2] is None and b[2] is None:
        return True
    if a[2] is None or b[2] is None:
        f = b if a[2] is None else a
        if any(unq(p) == ("b", "float") for p in f[2]):
            raise Discard("float where float and double have the same representation")
        return not f[3] and not any(unq(p)[0] == "b" and unq(p)[1] in PROMOTED for p in f[2])
    return len(a[2]) == len(b[2]) and a[3] == b[3] and all(compat(unq(p), unq(q)) for p, q in zip(a[2], b[2]))


def composite(a, b):
    if a[0] == "q":
        return qual(composite(a[2], b[2]), a[1])
    if a[0] == "p":
        return ("p", composite(a[1], b[1]))
    if a[0] == "a":
        return ("a", a[1] or b[1], composite(a[2], b[2]))
    if a[0] == "f":
        r = composite(a[1], b[1])
        if a[2] is None or b[2] is None:
            f = b if a[2] is None else a
            return ("f", r, f[2], f[3])
        return ("f", r, tuple(composite(unq(p), unq(q)) for p, q in zip(a[2], b[2])), a[3])
    return a


class Spell:
    def __init__(self, s):
        self.s, self.n, self.pre = s, 0, []

    def base(self, words, q):
        s = self.s
        w = list(words)
        if len(w) > 1 and w[0] not in ("struct", "union", "enum") and s.below(2):
            w.reverse()
        if w[0] in ("struct", "union", "enum"):
            w = [" ".join(w)]
        for x in sorted(q):
            w.insert(s.below(len(w) + 1), x)
        return " ".join(w)

    def decl(self, t, name, top=True):
        """declaration of name (or an abstract one) with type t"""
        s = self.s
        q = NOQ
        if t[0] == "q" and unq(t)[0] != "p":
            q, t = t[1], t[2]
        if t != ("b", "void") and s.below(9) == 0 and not (t[0] == "f" and top):
            self.n += 1
            n = "T%d" % self.n
            u = t
            if t[0] == "a" and t[2][0] == "q" and s.below(2):     # qualified array type
                u, q = ("a", t[1], t[2][2]), t[2][1]
            if u[0] == "q" and s.below(2):
                u, q = u[2], u[1]
            self.pre.append("typedef " + self.decl(u, n) + ";")
            return (self.base([n], q) + " " + name).strip()
        if t[0] == "b":
            return (self.base(s.pick(BASES[t[1]]).split(), q) + " " + name).strip()
        pq = NOQ
        if t[0] == "q":
            pq, t = t[1], t[2]
        if t[0] == "p":
            d = "*" + "".join(" " + x for x in sorted(pq)) + (" " if pq and name else "") + name
            if unq(t[1])[0] in "af" or s.below(10) == 0 and name:
                d = "(" + d + ")"
            return self.decl(t[1], d, False)
        if name and s.below(10) == 0:
            name = "(" + name + ")"
        if t[0] == "a":
            return self.decl(t[2], name + "[" + (str(t[1]) if t[1] else "") + "]", False)
        return self.decl(t[1], name + "(" + self.params(t) + ")", False)

    def params(self, t, named=False):
        s = self.s
        if t[2] is None:
            return ""
        if not t[2]:
            return "void"
        out = []
        for i, p in enumerate(t[2]):
            n = "p%d" % i if named or s.below(3) == 0 else ""
            if p[0] == "p" and s.below(3) == 0:
                u = p[1]
                if u[0] == "f":
                    p = u
                elif unq(u) != ("b", "void") and not (u[0] == "a" and u[1] is None):
                    p = ("a", s.pick([None, 2, 5]), u)
            out.append(self.decl(p, n, not n))
        return ", ".join(out + ["..."] * t[3])


def complete(t):
    t = unq(t)
    return t[0] != "f" and t != ("b", "void") and not (t[0] == "a" and (t[1] is None or not complete(t[2])))


def size(t):
    t = unq(t)
    if t[0] == "a":
        return "%d * %s" % (t[1], size(t[2]))
    return "4" if t[0] == "p" or t[0] == "b" and not t[1].startswith(("struct", "union")) and t[1] not in SIZE else str(SIZE[t[1]]) if t[1] in SIZE else "sizeof (%s)" % t[1]


def okret(t):
    return t[1] == ("b", "void") or complete(t[1])


def l14(ctx, env):
    s = ctx.src
    sp = Spell(s)
    lines, want, defined = [HEAD], {}, []
    incompat = 0

    def put(text, msg=None):
        lines.extend(sp.pre)
        sp.pre.clear()
        lines.append(text)
        if msg:
            want[len(lines)] = msg

    for i in range(s.range(1, 6)):
        c = s.below(6)
        t = gen(s, s.range(1, 5))
        if c <= 2:
            name = "x%d" % i
            put("extern " + sp.decl(t, name) + ";")
            for _ in range(s.pick([1, 1, 2, 4])):
                u = mutate(s, t) if s.below(2) else t
                d = sp.decl(u, name)
                if not compat(t, u):
                    put("extern " + d + ";", "redeclaration of `%s' previously declared at" % name)
                    incompat += 1
                    t = u
                    break
                put("extern " + d + ";")
                t = composite(t, u)
                v = t[1] if unq(t)[0] == "p" else None
                if complete(t) and s.below(2):
                    put("extern int z%d[sizeof %s == %s ? 1 : -1];" % (i, name, size(t)))
                elif unq(t)[0] == "p" and complete(unq(t)[1]) and s.below(2):
                    put("extern int z%d[sizeof *%s == %s ? 1 : -1];" % (i, name, size(unq(t)[1])))
            ctx.label("redeclared")
        elif c == 3:
            if t[0] == "f" or not complete(t):
                t = ("p", t)
            name = "g%d" % i
            put(s.pick(["", "", "static "]) + sp.decl(t, name) + ";")
            defined.append(name)
        elif c == 4:
            f = func(s, s.range(2, 4))
            if f[2] is None or not okret(f):
                f = ("f", ("b", "int"), (), False)
            name = "f%d" % i
            sp2 = sp.decl(f[1], name + "(" + sp.params(f, True) + ")", False)
            put(s.pick(["", "static "]) + sp2 + " { for (;;) ; }")
            defined.append(name)
            ctx.label("function definition")
        else:
            u = mutate(s, t) if s.below(3) else t
            if t[0] == "a" and t[1] is None and s.below(2):
                t = ("a", 2, t[2])
            v = ("b", "void")
            if s.below(6) == 0:
                x = qual(v, s.pick([NOQ, {"const"}, {"volatile"}, {"const", "volatile"}]))
                t, u = s.pick([(x, u), (t, x)])
            a, b = sp.decl(("p", t), "p"), sp.decl(("p", u), "q")
            if (unq(t) == v) != (unq(u) == v) and "f" in (t[0], u[0]):
                raise Discard("pointers to functions and to void")
            ok = (compat(unq(t), unq(u)) or v in (unq(t), unq(u))) and quals(u) <= quals(t)
            lines.extend(sp.pre)
            sp.pre.clear()
            w = s.below(2)
            if w:
                put("void h%d(%s, %s) { p = q; }" % (i, a, b), None if ok else "operands of = have illegal types")
            else:
                put("void h%d(%s) { extern void k%d(%s); k%d(q); }" % (i, b, i, a, i), None if ok else "type error in argument 1 to `k%d'" % i)
            defined.append("h%d" % i)
            incompat += not ok
            ctx.label("assigned")
    text = "\n".join(lines) + "\n"
    ctx.say("errors expected: %s\n%s" % (want, text))
    cc = [env["tools"] + "/q3rcc", "-target=bytecode"]
    ctx.write("t.i", text)
    r = run(cc + ["-w", "t.i", "t.asm"], cwd=ctx.dir)
    ctx.check(not r.crashed, "q3rcc crashes: " + tail(r))
    got = {}
    for l in r.err.decode("latin-1").split("\n"):
        m = re.match(r"(\d+): (.*)", l)
        if m:
            got.setdefault(int(m[1]), []).append(m[2])
    for n in sorted(set(want) | set(got)):
        w, g = want.get(n), got.get(n, [])
        ctx.check(w or not g, "line %d is refused: %s\n  %s" % (n, g, lines[n - 1]))
        ctx.check(any(x.startswith(w) for x in g), "line %d: expected %r, got %s\n  %s" % (n, w, g, lines[n - 1]))
    ctx.check((r.rc != 0) == bool(want), "status %d" % r.rc)
    ctx.label("compatible" if not want else "incompatible")
    if not want and defined:
        r = run(cc + ["-w", "-P", "t.i", "p.asm"], cwd=ctx.dir)
        p = r.err.decode("latin-1")
        ctx.check(r.rc == 0, "-P: status %d" % r.rc)
        names = {}
        for l in p.split("\n"):
            for n in defined:
                if re.search(r"\b%s\b" % n, l):
                    names[n] = names.get(n, 0) + 1
        ctx.check(all(names.get(n) == 1 for n in defined), "-P does not declare %s:\n%s" % ([n for n in defined if names.get(n) != 1], p))
        ctx.check(len([l for l in p.split("\n") if l.strip()]) == len(defined), "-P prints more than %s:\n%s" % (defined, p))
        ctx.write("q.i", text + p)
        r = run(cc + ["-w", "q.i", "q.asm"], cwd=ctx.dir)
        ctx.check(r.rc == 0 and not r.err, "the declarations of -P do not match: %s\n%s" % (tail(r), p))
        ctx.check(ctx.read("t.asm") == ctx.read("p.asm"), "-P changes the code")
        ctx.label("-P")
    ctx.key = text
    ctx.nontrivial = "(" in text or "[" in text


def setup():
    return {"tools": toolchain.build(False)}


CHECKS = [
    Check("L14", l14, 12000, 120000, "Random types (17 basic and tagged types, qualifiers, pointers, arrays, functions with and without prototype, up to 5 levels) spelled in random ways (order of specifiers, parentheses, typedefs, array and function parameters, abstract parameters) and declared again up to 4 times with the same, a compatible or a slightly different type, assigned and passed through pointers, with the sizes of the composite types; or defined. Expected errors come from a model of compatible and composite types; the declarations printed by -P are appended to the program and have to be accepted. Non-trivial: a derived type occurs; distinct by text.", setup),
]
