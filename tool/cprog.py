"""Random C programs without undefined or unspecified behaviour, as text for two targets.

A program is a list of items (types, objects, functions), so that it can be put into one or
several files.  Rules that keep the meaning unique: signed arithmetic wraps (the host compiler is told
so), shift counts and divisors are brought into range, indices are reduced, pointers always point to
live objects, everything is initialised, and an expression with a side effect never has
another access to the same object that is not sequenced."""
import re
from cexpr import TYPES, NAMES, conv

INTS = ["char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned int", "long", "unsigned long"]
PROFILE = dict(control=3, aggr=3, ptr=3, calls=3, floats=0, init=1, bits=1)


class Var:
    __slots__ = ("name", "ty", "const", "glob", "depth", "addr", "reg")

    def __init__(self, name, ty, const=False, glob=False, depth=0, reg=False):
        self.name, self.ty, self.const, self.glob, self.depth, self.reg = name, ty, const, glob, depth, reg


def is_int(t):
    return t[0] == "i"


def is_scalar(t):
    return t[0] in "ifpe"


class CProg:
    def __init__(self, s, prof=None):
        self.s = s
        self.p = dict(PROFILE)
        self.p.update(prof or {})
        self.n = 0
        self.tags = {}         # tag -> (kind, [(name, type, bits)])
        self.types = []        # texts
        self.globals = []      # Var
        self.gdef = {}         # name -> (storage, declaration text, initialiser or None)
        self.funs = []         # dicts: name ret params pure static body
        self.labels = set()
        self.enums = []
        self.tds = []
        self.order = []

    def fresh(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    # ------------------------------------------------------------- types
    def tname(self, t):
        if t[0] == "i":
            return t[1]
        if t[0] == "f":
            return self.s.pick(["float", "float", "double"]) if False else "float"
        if t[0] == "e":
            return "enum " + t[1]
        if t[0] in ("s",):
            return "%s %s" % (self.tags[t[1]][0], t[1])
        if t[0] == "v":
            return "void"
        raise ValueError(t)

    def declare(self, t, name):
        """text of a declarator"""
        base = t
        post = name
        while True:
            if base[0] == "p":
                base = base[1]
                if base[0] in ("a", "fn"):
                    post = "(*%s)" % post
                else:
                    post = "*" + post
            elif base[0] == "a":
                post = "%s[%d]" % (post, base[1])
                base = base[2]
            elif base[0] == "fn":
                post = "%s(%s)" % (post, ", ".join(self.declare(x, "") for x in base[2]) or "void")
                base = base[1]
            else:
                break
        return (self.tname(base) + " " + post).rstrip()

    def int_type(self):
        return ("i", self.s.pick(INTS) if self.s.below(2) else "int")

    def scalar_type(self):
        s = self.s
        if self.p["floats"] and s.below(10) < self.p["floats"]:
            return ("f",)
        if self.enums and s.below(8) == 0:
            return ("e", s.pick(self.enums)[0])
        return self.int_type()

    def size(self, t):
        if t[0] == "a":
            return t[1] * self.size(t[2])
        if t[0] == "s":
            return sum(self.size(f[1]) for f in self.tags[t[1]][1])
        return 4

    def any_type(self, d=2):
        for _ in range(4):
            t = self.some_type(d)
            if self.size(t) <= 600:
                return t
        return self.scalar_type()

    def some_type(self, d=2):
        s = self.s
        k = s.below(12)
        if d <= 0 or k < 6 - min(4, self.p["aggr"]):
            return self.scalar_type()
        if k <= 6 and self.tags:
            return ("s", s.pick(list(self.tags)))
        if k <= 9:
            return ("a", s.pick([2, 3, 4, 4, 5, 8, 1]), self.any_type(d - 1))
        if k == 10 and self.p["ptr"]:
            return ("p", self.pointee(d - 1))
        return self.scalar_type()

    def pointee(self, d=1):
        s = self.s
        if self.tags and s.below(3) == 0:
            return ("s", s.pick(list(self.tags)))
        if d > 0 and s.below(6) == 0:
            return ("a", s.pick([2, 3, 4]), self.scalar_type())
        return self.scalar_type()

    def has(self, t, k):
        if t[0] == k:
            return True
        if t[0] == "a":
            return self.has(t[2], k)
        if t[0] == "s":
            return any(self.has(f[1], k) or (k == "bits" and f[2]) for f in self.tags[t[1]][1])
        return False

    def sizeofable(self, t):
        return not self.has(t, "p") and not self.has(t, "bits") and not self.has(t, "e")

    def make_types(self):
        s = self.s
        for _ in range(s.below(3)):
            n = self.fresh("E")
            c, txt, v = [], [], -1
            for _ in range(s.range(1, 4)):
                m = self.fresh("K")
                if s.below(2):
                    v = s.range(-300, 300)
                    txt.append("%s = %d" % (m, v))
                else:
                    v += 1
                    txt.append(m)
                c.append((m, v))
            self.enums.append((n, c))
            self.types.append("enum %s { %s };" % (n, ", ".join(txt)))
        for _ in range(s.below(2 + self.p["aggr"])):
            n = self.fresh("S")
            union = s.below(5) == 0
            f, txt = [], []
            bits = 9 if self.p["bits"] > 1 and s.below(3) == 0 else self.p["bits"]
            for i in range(s.range(1, 5)):
                m = s.pick(["a", "b", "c", "x", "y"]) + str(i)      # members of different types share names
                if union:
                    t = s.pick([("i", "int"), ("i", "unsigned int"), ("i", "unsigned char"), ("i", "short"), ("a", 4, ("i", "unsigned char")), ("a", 2, ("i", "short")), ("a", 2, ("i", "int"))])
                    f.append((m, t, 0))
                    txt.append(self.declare(t, m) + ";")
                elif bits and s.below(10) < bits:
                    t = s.pick([("i", "int"), ("i", "unsigned int")])
                    b = s.range(1, s.pick([32, 12, 12, 9]))
                    f.append((m, t, b))
                    txt.append("%s : %d;" % (self.declare(t, m), b))
                    if s.below(8) == 0:
                        txt.append("int : %d;" % s.pick([0, 3, 17]))
                else:
                    t = self.any_type(2)
                    f.append((m, t, 0))
                    txt.append(self.declare(t, m) + ";")
            self.tags[n] = ("union" if union else "struct", f)
            self.types.append("%s %s { %s } ATTR;" % (self.tags[n][0], n, " ".join(txt)))

    # ------------------------------------------------------------- constants and initialisers
    def fconst(self):
        s = self.s
        k = s.below(4)
        v = [s.range(-20, 20), s.range(-4000, 4000) / 16.0, s.range(-1000, 1000) * 1024.0, s.range(-64, 64) / 4096.0][k]
        if v < 0:
            return "(-%rf)" % -float(v)
        return "%rf" % float(v)

    def iconst(self):
        v = self.s.i32()
        if v == -0x80000000:
            return "(-2147483647 - 1)"
        return "%d" % v if v >= 0 else "(%d)" % v

    def const_of(self, t):
        s = self.s
        if t[0] == "f":
            return self.fconst()
        if t[0] == "e":
            return s.pick([e for e in self.enums if e[0] == t[1]][0][1])[0]
        return self.iconst()

    def initialiser(self, t, glob, top=True):
        """constant initialiser for an object of type t; None: not possible"""
        s = self.s
        if t[0] in "ife":
            if (glob or not top) and t[0] == "i" and TYPES[t[1]][0] == 16:
                return None          # 16 bit data cannot be expressed
            return self.const_of(t)
        if t[0] == "p":
            return self.addr_const(t[1])
        if t[0] == "a":
            if t[2] in (("i", "char"), ("i", "unsigned char"), ("i", "signed char")) and s.below(2):
                n = s.range(0, t[1])
                return '"' + "".join(s.pick(list("abcxyz09 !%") + ["\\n", "\\t", "\\\\", "\\\"", "\\0", "\\177", "\\x7f", "\\'"]) for _ in range(n)) + '"'
            n = t[1] if not self.can_default(t[2]) else s.range(1, t[1])
            l = []
            for _ in range(n):
                x = self.initialiser(t[2], glob, False)
                if x is None:
                    return None
                l.append(x)
            if not top and s.below(6) == 0 and n == t[1] and is_scalar(t[2]):
                return ", ".join(l)
            return "{ " + ", ".join(l) + s.pick(["", ","]) + " }"
        if t[0] == "s":
            kind, fs = self.tags[t[1]]
            fs = fs[:1] if kind == "union" else fs
            if kind == "struct" and s.below(4) == 0:
                k = len(fs)
                while k > 1 and self.can_default(fs[k - 1][1]):
                    k -= 1
                fs = fs[:s.range(k, len(fs))]
            l = []
            for m, ft, b in fs:
                x = self.initialiser(ft, glob, False)
                if x is None:
                    return None
                l.append(x)
            return "{ " + ", ".join(l) + " }"
        raise ValueError(t)

    def can_default(self, t):
        return not self.has(t, "p")

    def addr_const(self, t):
        """address of a global of type t, or None"""
        c = []
        for g in self.globals:
            if g.const or g.reg:
                continue
            if g.ty == t:
                c.append("&" + g.name)
            if g.ty[0] == "a" and g.ty[2] == t:
                c.append(g.name)
                c.append("&%s[%d]" % (g.name, self.s.below(g.ty[1])))
                c.append("%s + %d" % (g.name, self.s.below(g.ty[1])))
            if g.ty[0] == "s":
                for m, ft, b in self.tags[g.ty[1]][1]:
                    if ft == t and not b:
                        c.append("&%s.%s" % (g.name, m))
                    if ft[0] == "a" and ft[2] == t:
                        c.append("%s.%s" % (g.name, m))
        return self.s.pick(c) if c else None

    def need_ptr(self, t):
        """makes sure that addresses of the pointees inside t exist"""
        if t[0] == "p":
            if t[1][0] != "fn" and self.addr_const(t[1]) is None:
                self.add_global(t[1])
        elif t[0] == "a":
            self.need_ptr(t[2])
        elif t[0] == "s":
            for m, ft, b in self.tags[t[1]][1]:
                self.need_ptr(ft)

    def add_global(self, t=None):
        s = self.s
        named = t is None
        if t is None:
            t = self.any_type(3)
        self.need_ptr(t)
        n = self.fresh("g")
        const = s.below(8) == 0 and not self.has(t, "p")
        init = None
        if self.has(t, "p") or const or s.below(10) < 4 + self.p["init"]:
            init = self.initialiser(t, True)
            if init is None and self.has(t, "p"):
                return self.add_global(("i", "int"))
            if init is None:
                const = False
        v = Var(n, t, const, True)
        st = s.pick(["", "", "static "])
        vol = s.below(15) == 0 and is_int(t) and not const and named
        v.reg = bool(vol)
        d = ("const " if const else "volatile " if vol else "") + self.declare(t, n)
        self.globals.append(v)
        self.gdef[n] = (st, d, init)
        return v

    # ------------------------------------------------------------- scopes
    def visible(self):
        r, seen = [], set()
        for sc in reversed(self.scopes):
            for v in reversed(sc):
                if v.name not in seen:
                    seen.add(v.name)
                    r.append(v)
        if not self.pure:
            r += [g for g in self.globals if g.name not in seen]
        else:
            r += [g for g in self.globals if g.const and g.name not in seen]
        return r

    def index(self, n, d):
        s = self.s
        if s.below(3) == 0 or d <= 0:
            return str(s.below(n))
        e = self.ie(d - 1)
        if n & (n - 1) == 0 and s.below(3):
            return "(%s) & %d" % (e, n - 1)
        return "(unsigned int)(%s) %% %d" % (e, n)

    def descend(self, text, t, const, d, want, deref=True):
        """reaches a part of type wanted: want(t) says yes; (text, type, const, bits) or None"""
        s = self.s
        bits = 0
        for _ in range(8):
            if want(t) and (is_scalar(t) or s.below(3)):
                return text, t, const, bits
            if t[0] == "a":
                i = self.index(t[1], d)
                k = s.below(5)
                text = "(*(%s + (%s)))" % (text, i) if k == 3 else "(%s)[%s]" % (i, text) if k == 4 else "%s[%s]" % (text, i)
                t = t[2]
            elif t[0] == "s":
                m, ft, bits = s.pick(self.tags[t[1]][1])
                text = "(&%s)->%s" % (text, m) if s.below(8) == 0 and not text.startswith("(&") and not self.noaddr else "%s.%s" % (text, m)
                t = ft
            elif t[0] == "p" and deref and t[1][0] not in ("fn",):
                t = t[1]
                if t[0] == "s":
                    m, ft, bits = s.pick(self.tags[t[1]][1])
                    if s.below(3) or want(t):
                        if want(t):
                            return "(*%s)" % text, t, const, 0
                        text = "%s->%s" % (text, m)
                    else:
                        text = "(*%s).%s" % (text, m)
                    t = ft
                else:
                    text = s.pick(["(*%s)", "%s[0]"]) % text if t[0] != "a" else "(*%s)" % text
                const = False
            else:
                return None
        return None

    noaddr = False

    def lvalue(self, want, d, write=False):
        s = self.s
        vs = [v for v in self.visible() if v.ty[0] != "tick"]
        for _ in range(8):
            if not vs:
                break
            v = s.pick(vs)
            if write and v.const:
                continue
            self.noaddr = v.reg
            r = self.descend(v.name, v.ty, v.const, d, want)
            self.noaddr = False
            if r and not (write and r[2]):
                return r
        return None

    # ------------------------------------------------------------- expressions
    def read_int(self, d):
        r = self.lvalue(lambda t: t[0] in "ie", d)
        if r is None:
            return self.iconst()
        if r[3]:
            return "(%s)%s" % (self.s.pick(["int", "unsigned int"]) if r[1][1] == "unsigned int" else "int", r[0])
        if r[1][0] == "e":
            return "(int)" + r[0]
        return r[0]

    def ie(self, d):
        """an expression of some integer type"""
        s = self.s
        if d <= 0:
            k = s.below(10)
            if k <= 1:
                return self.iconst()
            if k == 2 and self.ticks:
                return self.tick()
            return self.read_int(0)
        k = s.below(26)
        a = lambda: self.sub(d - 1)
        if k <= 5:
            return "%s %s %s" % (a(), s.pick(["+", "-", "*", "&", "|", "^"]), a())
        if k == 6:
            return "%s %s (%s & 31)" % (a(), s.pick(["<<", ">>"]), a())
        if k == 7:
            return "%s %s ((%s & %d) + 1)" % (a(), s.pick(["/", "%"]), a(), s.pick([1, 7, 15, 255, 0x7fff]))
        if k == 8:
            return "%s %s %s" % (a(), s.pick(["/", "%"]), s.pick(["2", "3", "4", "7", "8", "10", "16", "100", "255", "256", "1000", "4096", "65536", "0x40000000", "-3", "-8", "1u", "32768u"]))
        if k <= 10:
            return "%s %s %s" % (a(), s.pick(["<", ">", "<=", ">=", "==", "!="]), a())
        if k == 11:
            return "%s %s %s" % (a(), s.pick(["&&", "||"]), a())
        if k == 12:
            return "%s%s" % (s.pick(["-", "~", "!", "!!", "+"]), self.par(d - 1))
        if k == 13:
            return "%s ? %s : %s" % (a(), a(), a())
        if k == 14:
            return "(%s)%s" % (s.pick(INTS), self.par(d - 1))
        if k == 15:
            v = [x for x in self.visible() if x.ty[0] != "tick" and self.sizeofable(x.ty)]
            if v and s.below(2):
                x = s.pick(v)
                return "(int)sizeof %s" % x.name if x.ty[0] != "a" or not getattr(x, "reg", False) else "4"
            t = self.any_type(2)
            return "(int)sizeof (%s)" % self.declare(t, "") if self.sizeofable(t) else "1"
        if k == 16 and self.p["floats"]:
            return self.float_to_int(d - 1)
        if k == 17 and self.p["floats"]:
            return "%s %s %s" % (self.fsub(d - 1), s.pick(["<", ">", "<=", ">=", "==", "!="]), self.fsub(d - 1))
        if k == 18:
            r = self.ptr_rel(d)
            if r:
                return r
        if k == 19 and self.ticks:
            return self.tick()
        if k in (20, 21):
            r = self.pure_call(("i",), d)
            if r:
                return r
        if k == 22 and s.below(3) == 0:
            return "(%s, %s)" % (self.ie(d - 1), self.ie(d - 1))
        if k == 23:
            r = self.const_field(d)
            if r:
                return r
        return self.read_int(d)

    def const_field(self, d):
        """a member of a structure returned by a pure function"""
        c = [f for f in self.callable(True) if f["ret"][0] == "s"]
        if not c:
            return None
        f = self.s.pick(c)
        ms = [m for m in self.tags[f["ret"][1]][1] if m[1][0] == "i" and not m[2]]
        if not ms or self.tags[f["ret"][1]][0] == "union":
            return None
        x = self.call(f, d)
        return x and "%s.%s" % (x, self.s.pick(ms)[0])

    def par(self, d):
        return "(" + self.ie(d) + ")"

    def sub(self, d):
        return "(" + self.ie(d) + ")"

    def tick(self):
        """an expression with a side effect on a variable that nothing else in the full expression uses"""
        s = self.s
        t, ty = self.ticks.pop()
        k = s.below(6)
        if k <= 1:
            return "(%s%s)" % (s.pick(["++", "--"]), t)
        if k <= 3:
            return "(%s%s)" % (t, s.pick(["++", "--"]))
        saved, self.ticks = self.ticks, []
        e = self.ie(1)
        self.ticks = saved
        if k == 4:
            return "(%s = %s)" % (t, e)
        return "(%s %s= %s)" % (t, s.pick(["+", "-", "^", "*", "|", "&"]), "(" + e + ")")

    def full(self, d):
        self.ticks = list(self.alltickets)
        r = self.ie(d)
        self.ticks = []
        return r

    def ffull(self, d):
        self.ticks = []
        return self.fe(d)

    def float_to_int(self, d):
        s = self.s
        r = self.lvalue(lambda t: t[0] == "f", 0)
        if not r:
            return "7"
        x = r[0]
        return "(%s > -100000.0f && %s < 100000.0f ? (%s)%s : %d)" % (x, x, s.pick(["int", "short", "long", "char", "int"]) if False else "int", x, s.below(9))

    def fsub(self, d):
        return "(" + self.fe(d) + ")"

    def fe(self, d):
        """an expression of type float"""
        s = self.s
        if d <= 0:
            if s.below(4) == 0:
                return self.fconst()
            r = self.lvalue(lambda t: t[0] == "f", 0)
            return r[0] if r else self.fconst()
        k = s.below(12)
        if k <= 4:
            op = s.pick(["+", "-", "*", "/"])
            if op == "/":
                x = self.fvar(0)
                return "%s / %s" % (self.fsub(d - 1), "(%s * %s + 0.25f)" % (x, x) if s.below(5) else self.fvar(d - 1))
            return "%s %s %s" % (self.fsub(d - 1), op, self.fvar(d - 1))
        if k == 5:
            return "-" + self.fsub(d - 1)
        if k == 6:
            return "%s ? %s : %s" % (self.sub(d - 1), self.fsub(d - 1), self.fsub(d - 1))
        if k == 7:
            return "(float)(%s)" % self.narrow(d - 1)
        if k == 8:
            return "%s %s %s" % (self.fvar(d - 1), s.pick(["+", "-", "*"]), "(%s)" % self.narrow(d - 1))
        if k == 9:
            r = self.pure_call(("f",), d)
            if r:
                return r
        return self.fe(0)

    def fvar(self, d):
        """not a constant expression: folding may be done with more precision"""
        r = self.lvalue(lambda t: t[0] == "f", 0)
        r = r[0] if r else self.fzero
        if d > 0 and self.s.below(2):
            return "(%s %s %s)" % (r, self.s.pick(["+", "-", "*"]), self.fsub(d - 1))
        return r

    def narrow(self, d):
        """an int expression of less than 24 bits, or any int"""
        s = self.s
        if s.below(2):
            return "(short)(%s)" % self.ie(d)
        return "(int)(%s)" % self.ie(d)

    # ------------------------------------------------------------- pointers
    def address(self, t, depth, pure_ok=True):
        """a pointer to an object of type t that lives at least as long as scopes[depth]; None if there is none"""
        s = self.s
        c = []
        for v in self.visible():
            if v.const or v.reg or v.ty[0] == "tick" or (not v.glob and v.depth > depth):
                continue
            if v.ty == t:
                c.append("&" + v.name)
            if v.ty[0] == "a" and v.ty[2] == t:
                c.append("&%s[%s]" % (v.name, self.index(v.ty[1], 1)))
                c.append(v.name)
                c.append("%s + (%s)" % (v.name, self.index(v.ty[1], 1)))
            if v.ty == ("p", t):
                c += [v.name] * 2
            if v.ty[0] == "s":
                for m, ft, b in self.tags[v.ty[1]][1]:
                    if ft == t and not b:
                        c.append("&%s.%s" % (v.name, m))
                    if ft == ("p", t):
                        c.append("%s.%s" % (v.name, m))
            if v.ty[0] == "p" and v.ty[1][0] == "s":
                for m, ft, b in self.tags[v.ty[1][1]][1]:
                    if ft == t and not b:
                        c.append("&%s->%s" % (v.name, m))
        return s.pick(c) if c else None

    def ptr_rel(self, d):
        s = self.s
        arrs = [v for v in self.visible() if v.ty[0] == "a" and not v.reg]
        if not arrs:
            return None
        v = s.pick(arrs)
        n = v.ty[1]
        x = "&%s[%s]" % (v.name, self.index(n, d - 1))
        y = "&%s[%s]" % (v.name, self.index(n, d - 1))
        if s.below(2):
            return "(%s %s %s)" % (x, s.pick(["<", ">", "<=", ">=", "==", "!="]), y)
        return "(int)(%s - %s)" % (x, y)

    # ------------------------------------------------------------- calls
    def callable(self, pure):
        if self.pure:
            return []
        return [f for f in self.funs if f["index"] > self.cur and (f["pure"] or not pure)]

    def args(self, f, d):
        r = []
        for t, nm in f["params"]:
            if t[0] == "i":
                r.append(self.ie(d - 1) if self.s.below(3) else self.iconst())
                if "," in r[-1]:
                    r[-1] = "(" + r[-1] + ")"
                if f["kr"] or f["var"]:
                    r[-1] = "(%s)(%s)" % (t[1], r[-1])
            elif t[0] == "e":
                r.append("(enum %s)(%s)" % (t[1], self.const_of(t)))
            elif t[0] == "f":
                r.append(self.fe(d - 1))
            elif t[0] == "p":
                a = self.address(t[1], len(self.scopes))
                if a is None:
                    return None
                r.append(a)
            elif t[0] == "s":
                l = self.lvalue(lambda x: x == t, d - 1)
                if not l:
                    return None
                r.append(l[0])
        for _ in range(f["var"]):
            r.append("(int)(%s)" % self.ie(d - 1))
        return r

    def call(self, f, d):
        a = self.args(f, d)
        if a is None:
            return None
        n = f["name"]
        if self.s.below(6) == 0 and not f["var"]:
            n = self.s.pick(["(*%s)", "(&%s)", "(%s)", "(**%s)"]) % n
        self.labels.add("call")
        return "%s(%s)" % (n, ", ".join(a))

    def pure_call(self, kinds, d):
        c = [f for f in self.callable(True) if f["ret"][0] in kinds]
        if not c:
            return None
        return self.call(self.s.pick(c), d)

    def rcall(self, kind, d):
        c = [f for f in self.callable(False) if f["ret"][0] in kind]
        if not c:
            return None
        f = self.s.pick(c)
        r = self.call(f, d)
        if r and self.fps.get(f["sig"]) and self.s.below(3) == 0:
            fp = self.s.pick(self.fps[f["sig"]])
            fi = [x for x in fp[1] if x > self.cur]
            if len(fi) == len(fp[1]):
                a = r[r.index("("):] if not r.startswith("(") else None
                if a:
                    i = self.index(fp[2], 1) if fp[2] else None
                    e = fp[0] if i is None else "%s[%s]" % (fp[0], i)
                    self.labels.add("call through pointer")
                    return self.s.pick(["%s", "(*%s)"]) % e + a, f["ret"]
        return (r, f["ret"]) if r else None

    # ------------------------------------------------------------- statements
    def new_local(self, t, sc, body, ind):
        """a declaration with initialiser appended to body"""
        s = self.s
        vis = [v.name for v in self.visible() if v.ty[0] != "tick" and v.name not in [x.name for x in self.scopes[-1]] and v.name[0] not in "rk"]
        shadow = s.below(5) == 0 and vis
        n = s.pick(vis) if shadow else self.fresh("l")
        if shadow:
            self.labels.add("shadowed name")
        depth = len(self.scopes)
        st = ""
        reg = False
        if t[0] == "p":
            e = self.address(t[1], depth)
            if e is None or (shadow and n in e):
                return None
        elif t[0] in "ie":
            e = self.ie(2)
            if shadow and n in e:
                e = self.iconst()
            if "," in e:
                e = "(" + e + ")"
            if t[0] == "e":
                e = "(enum %s)(%s)" % (t[1], self.const_of(t))
            if s.below(8) == 0:
                st, reg = "register ", True
        elif t[0] == "f":
            e = self.fe(1)
            if shadow and n in e:
                e = "1.5f"
        else:
            if self.has(t, "p"):
                return None
            e = self.initialiser(t, False)
            if e is None:
                return None
            if s.below(4) == 0 and t[0] == "s":
                l = self.lvalue(lambda x: x == t, 0)
                if l and not (shadow and n in l[0]):
                    e = l[0]
        body.append("%s%s%s = %s;" % (ind, st, self.declare(t, n), e))
        v = Var(n, t, False, False, depth, reg)
        self.scopes[-1].append(v)
        return v

    def static_local(self, body, ind):
        t = self.s.pick([("i", "int"), ("i", "unsigned int"), ("i", "char"), ("a", 3, ("i", "int")), ("i", "short")])
        n = self.fresh("t")
        init = self.initialiser(t, True)
        body.append("%sstatic %s%s;" % (ind, self.declare(t, n), " = " + init if init and self.s.below(2) else ""))
        v = Var(n, t, False, True, 0)
        self.scopes[-1].append(v)
        self.labels.add("static local")

    def block(self, d, ind, nmax, decls=True):
        s = self.s
        body = []
        self.scopes.append([])
        if decls:
            for _ in range(s.below(3)):
                self.new_local(self.any_type(2), None, body, ind)
            if s.below(8) == 0 and not self.pure:
                self.static_local(body, ind)
        n = s.range(1, nmax)
        pend = None
        for i in range(n):
            if self.p["control"] and pend is None and s.below(14) == 0 and i + 1 < n:
                pend = self.fresh("L")
                body.append("%sif (%s) goto %s;" % (ind, self.full(2), pend))
                self.targets.append(pend)
                self.labels.add("goto")
            body += self.stmt(d, ind)
        if pend:
            self.targets.remove(pend)
            body.append("%s%s: %s" % (ind, pend, self.o(1)))
        self.scopes.pop()
        return body

    def o(self, d):
        """prints something, if the function may"""
        if self.pure:
            return self.pureassign() + ";"
        return "out(%s);" % self.noc(self.full(d)) if self.s.below(2) else ";"

    def counter(self):
        c = self.fresh("c")
        self.counters.append(c)
        return c

    def stmt(self, d, ind):
        s = self.s
        p = self.p
        self.budget -= 1
        if self.budget < 0:
            d = 0
        k = s.weighted([(6, "assign"), (5, "out"), (2 if p["floats"] else 0, "outf"), (p["floats"], "fassign"), (p["calls"], "call"), (p["aggr"], "sassign"), (p["ptr"], "passign"), (1, "incdec"), (p["ptr"], "ploop"), (min(4, p["bits"]), "bits")] +
                       ([(p["control"], x) for x in ("if", "if", "for", "while", "do", "switch")] + [(1, "block"), (p["control"], "duff"), (p["control"], "back")] if d > 0 else []) +
                       ([(p["control"], "jump")] if self.inloop or self.targets else []))
        i2 = ind + "    "
        if k in ("if", "for", "while", "do", "switch", "duff", "back", "jump"):
            self.labels.add(k)
        if k == "bits" and s.below(3):
            def fields(t):
                return [m for m in self.tags[t[1]][1] if m[2]] if t[0] == "s" else []
            r = self.lvalue(fields, 1, True)
            if r:
                fs = fields(r[1])
                out = []
                for _ in range(s.range(1, 4)):
                    m = s.pick(fs)
                    b = 1 << (m[2] - 1)
                    e = str(min(s.pick([0, -1, -1, b - 1, b, -b + 1, 2 * b - 1, 2 * b + 1, 1, 5]), 0x7fffffff)) if s.below(3) else self.full(1)
                    t = "%s.%s %s %s" % (r[0], m[0], s.pick(["=", "=", "=", "+=", "^=", "|=", "&="]), e if "," not in e else "(" + e + ")")
                    if not self.pure and s.below(3) == 0:
                        t = "out(%s)" % t
                    out.append(ind + t + ";")
                if not self.pure:
                    out += ["%sout((int)%s.%s);" % (ind, r[0], m[0]) for m in fs]
                self.labels.add("bit field")
                return out
        if k == "assign" or k == "bits":
            r = self.lvalue(lambda t: t[0] == "i", 2, True)
            for _ in range(5 if k == "bits" else 0):
                if r and not r[3]:
                    r = self.lvalue(lambda t: t[0] == "i", 2, True)
            if r:
                e = self.full(3)
                if "," in e:
                    e = "(" + e + ")"
                if r[3]:
                    self.labels.add("bit field")
                    op = s.pick(["=", "=", "=", "+=", "-=", "^=", "|=", "&="])
                    if s.below(3) == 0:
                        e = str(s.pick([0, 1, -1, -1, -1, 2, 3, 5, 7, 8, 9, 13, 31, 64, 200, -2, -5, -9, -100, 1000, 65535, 2147483647]))
                    if not self.pure and s.below(3) == 0:
                        self.labels.add("value of an assignment")
                        return ["%sout(%s %s %s);" % (ind, r[0], op, e)]
                    return ["%s%s %s %s;" % (ind, r[0], op, e)]
                op = s.pick(["=", "=", "=", "+=", "-=", "*=", "^=", "|=", "&=", "<<=", ">>=", "/=", "%="])
                if op in ("<<=", ">>="):
                    e = "(%s) & 31" % e
                elif op in ("/=", "%="):
                    e = "((%s) & 63) + 1" % e
                if not self.pure and s.below(8) == 0:
                    self.labels.add("value of an assignment")
                    return ["%sout(%s %s %s);" % (ind, r[0], op, e)]
                return ["%s%s %s %s;" % (ind, r[0], op, e)]
            k = "out"
        if k == "outf" and not self.pure:
            return ["%soutf(%s);" % (ind, self.ffull(3))]
        if k == "fassign":
            r = self.lvalue(lambda t: t[0] == "f", 2, True)
            if r:
                return ["%s%s %s %s;" % (ind, r[0], s.pick(["=", "=", "=", "+=", "-=", "*=", "/="]), self.ffull(3))]
            k = "out"
        if k == "incdec":
            r = self.lvalue(lambda t: t[0] in ("i", "f") if p["floats"] else t[0] == "i", 1, True)
            if r:
                if not self.pure and r[1][0] == "i" and s.below(4) == 0:
                    self.labels.add("value of an assignment")
                    return [ind + "out(" + s.pick(["%s++", "%s--", "++%s", "--%s"]) % r[0] + ");"]
                return [ind + s.pick(["%s++;", "%s--;", "++%s;", "--%s;"]) % (r[0] if not r[0].startswith("(") else r[0])]
            k = "out"
        if k == "call":
            r = self.rcall("ifs" if not self.pure else "", 3)
            if r is None:
                k = "out"
            else:
                x, t = r
                c = s.below(6)
                if t[0] == "s":
                    ms = [m for m in self.tags[t[1]][1] if m[1][0] == "i" and not m[2]]
                    lv = [v for v in self.visible() if v.ty == t and not v.const]
                    if lv and c < 4:
                        self.labels.add("structure result")
                        return ["%s%s = %s;" % (ind, s.pick(lv).name, x)]
                    if ms and self.tags[t[1]][0] == "struct":
                        return ["%sout(%s.%s);" % (ind, x, s.pick(ms)[0])]
                    return ["%s%s;" % (ind, x)]
                if t[0] == "f":
                    return ["%soutf(%s);" % (ind, x)]
                if c == 0:
                    return ["%s%s%s;" % (ind, s.pick(["", "(void)"]), x)]
                if c == 1:
                    return ["%sif (%s) out(1); else out(2);" % (ind, x)]
                lv = [v for v in self.visible() if v.ty[0] == "i" and not v.const]
                if c <= 3 and lv:
                    return ["%s%s = %s;" % (ind, s.pick(lv).name, x)]
                if c == 4:
                    y = self.rcall("i", 2)
                    if y:
                        self.labels.add("conditional call")
                        return ["%sout(%s %s %s);" % (ind, x, s.pick(["&&", "||"]), y[0])]
                return ["%sout(%s);" % (ind, x)]
        if k == "sassign":
            r = self.lvalue(lambda t: t[0] == "s", 2, True)
            if r:
                q = self.lvalue(lambda t: t == r[1], 2)
                if q:
                    self.labels.add("structure assignment")
                    c = s.below(5)
                    if c == 0:
                        q2 = self.lvalue(lambda t: t == r[1], 1)
                        if q2:
                            return ["%s%s = %s ? %s : %s;" % (ind, r[0], self.sub(1), q[0], q2[0])]
                    return ["%s%s = %s;" % (ind, r[0], q[0])]
            k = "out"
        if k == "passign":
            r = [v for v in self.visible() if v.ty[0] == "p" and v.ty[1][0] != "fn" and not v.const]
            r = [v for v in r if not v.name.startswith("pp")]
            if r:
                v = s.pick(r)
                a = self.address(v.ty[1], 0 if v.glob else v.depth)
                if a:
                    self.labels.add("pointer assignment")
                    return ["%s%s = %s;" % (ind, v.name, a)]
            k = "out"
        if k == "ploop":
            arrs = [v for v in self.visible() if v.ty[0] == "a" and v.ty[2][0] == "i" and not v.reg]
            if arrs and not self.pure:
                v = s.pick(arrs)
                q = self.fresh("q")
                self.labels.add("pointer loop")
                const = "const " if v.const else ""
                c = s.below(3)
                lim = "%s + %d" % (v.name, v.ty[1])
                decl = "%s%s" % (const, self.declare(("p", v.ty[2]), q))
                if c == 0:
                    return [ind + "{ %s; for (%s = %s; %s < %s; %s++) out(*%s); }" % (decl, q, v.name, q, lim, q, q)]
                if c == 1:
                    return [ind + "{ %s = %s; while (%s > %s) out(*--%s); out(%s - %s); }" % (decl, lim, q, v.name, q, q, v.name)]
                return [ind + "{ %s = %s; do out(*%s++); while (%s != %s); }" % (decl, v.name, q, q, lim)]
            k = "out"
        if k == "if":
            r = ["%sif (%s) {" % (ind, self.full(3))] + self.block(d - 1, i2, 3) + [ind + "}"]
            c = s.below(4)
            if c == 0:
                r += [ind + "else {"] + self.block(d - 1, i2, 3) + [ind + "}"]
            elif c == 1:
                r += ["%selse if (%s) {" % (ind, self.full(2))] + self.block(d - 1, i2, 2) + [ind + "} else"] + self.block(d - 1, i2, 1, False)[:1 << 20]
                r[-0:] = []
                r = r if True else r
                # the last block is a single statement without braces only if it is one line
            return self.braces_fix(r)
        if k == "block":
            return [ind + "{"] + self.block(d - 1, i2, 3) + [ind + "}"]
        if k in ("for", "while", "do"):
            c = self.counter()
            n = s.range(0, 5)
            self.inloop += 1
            saved = self.contok
            self.contok = True
            sw, self.inswitch = self.inswitch, 0
            b = self.block(d - 1, i2, 3)
            self.inloop -= 1
            self.contok = saved
            self.inswitch = sw
            extra = " && (%s)" % self.full(2) if s.below(4) == 0 else ""
            if k == "for":
                h = s.pick(["for (%(c)s = 0; %(c)s < %(n)d%(e)s; %(c)s++) {", "for (%(c)s = %(n)d; %(c)s > 0%(e)s; --%(c)s) {", "for (%(c)s = %(n)d; %(c)s--%(e)s; ) {",
                            "for (%(c)s = 0; ; %(c)s += 2) { if (%(c)s > %(n)d) break; {"]) % dict(c=c, n=n, e=extra)
                return [ind + h] + b + [ind + "}" * (h.count("{") - h.count("}"))]
            if k == "while":
                h = s.pick(["%(c)s = %(n)d; while (%(c)s-- > 0%(e)s) {", "%(c)s = -%(n)d; while (%(c)s++ < 0%(e)s) {", "%(c)s = 0; while (1) { if (++%(c)s > %(n)d) break; {"]) % dict(c=c, n=n, e=extra)
                return [ind + h] + b + [ind + "}" * (h.count("{") - h.count("}"))]
            return [ind + "%s = %d; do {" % (c, n)] + b + [ind + "} while (--%s > 0%s);" % (c, extra)]
        if k == "switch":
            return self.switch(d, ind)
        if k == "duff":
            c = self.counter()
            r = [ind + "%s = %d; switch ((%s) & 3) { case 0: do { %s" % (c, s.range(1, 3), self.full(2), self.o(1))]
            sw, self.inswitch = self.inswitch, 0
            self.inloop += 1
            for j in (3, 2, 1):
                r += [i2 + "case %d:" % j] + self.stmt(0, i2)
            self.inloop -= 1
            self.inswitch = sw
            return r + [ind + "} while (--%s > 0); }" % c]
        if k == "back":
            c, l = self.counter(), self.fresh("L")
            b = self.block(d - 1, i2, 2)
            return [ind + "%s = 0;" % c, "%s%s: {" % (ind, l)] + b + [ind + "}", ind + "if (%s++ < %d) goto %s;" % (c, s.below(3), l)]
        if k == "jump":
            c = []
            if self.inloop and not self.inswitch:
                c += ["break;"]
            if self.inswitch:
                c += ["break;"]
            if self.inloop:
                c += ["continue;"]
            c += ["goto %s;" % t for t in self.targets]
            if not self.pure or True:
                c.append(self.ret())
            j = s.pick(c)
            return ["%sif (%s) %s" % (ind, self.full(2), j)]
        return ["%sout(%s);" % (ind, self.noc(self.full(4)))] if not self.pure else ["%s%s;" % (ind, self.pureassign())]

    def pureassign(self):
        r = self.lvalue(lambda t: t[0] == "i", 1, True)
        if not r:
            return ""
        e = self.full(3)
        return "%s = %s" % (r[0], self.noc(e))

    def noc(self, e):
        return "(" + e + ")" if "," in e else e

    def braces_fix(self, r):
        return r

    def ret(self):
        t = self.fret
        if t[0] == "i":
            return "return %s;" % self.full(2)
        if t[0] == "f":
            return "return %s;" % self.ffull(2)
        if t[0] == "v":
            return "return;"
        return "return %s;" % self.sret()

    def sret(self):
        l = self.lvalue(lambda x: x == self.fret, 1)
        return l[0] if l else self.retvar

    def switch(self, d, ind):
        s = self.s
        i2 = ind + "    "
        kind = s.below(6)
        n = s.range(1, 9)
        base = s.pick([0, 0, 1, -2, 100, -70000, 0x7ffffff0, -0x80000000, 32760, 250, 120])
        if kind <= 2:       # dense, holes
            vals = [base + j for j in range(n)]
            vals = [v for v in vals if s.below(5)]
        elif kind == 3:     # sparse
            vals = [s.i32() for _ in range(n)]
        else:               # clusters
            vals = []
            for _ in range(s.range(1, 3)):
                b = s.i32()
                vals += [b + j * s.pick([1, 1, 2, 10]) for j in range(s.range(1, 6))]
        uns = s.below(5) == 0
        t = s.pick(["int", "int", "int", "unsigned int", "char", "short", "unsigned char"])
        pt = "unsigned int" if t == "unsigned int" else "int"
        vals = [conv(v, t) for v in vals]
        vals = list(dict.fromkeys(vals)) or [0]
        # a selector close to the labels
        mode = s.below(4)
        if mode == 0:
            e = "(%s)(%s)" % (t, self.full(2))
        elif mode == 1:
            e = "(%s)((%s) %% %d + %s)" % (t, self.full(2), s.range(1, 12), self.lit(s.pick(vals), pt))
        else:
            e = "(%s)(((%s) & %d) + %s)" % (t, self.full(2), s.pick([1, 3, 7, 15]), self.lit(vals[0] if mode == 2 else s.pick(vals), pt))
        self.inswitch += 1
        self.contsave = None
        r = ["%sswitch (%s) {" % (ind, e)]
        order = list(vals)
        for i in range(len(order) - 1, 0, -1):
            if s.below(2):
                j = s.below(i + 1)
                order[i], order[j] = order[j], order[i]
        pos = s.below(len(order) + 2) - 1
        for i, v in enumerate(order):
            if i == pos:
                r.append(i2 + "default: out(%d);" % s.below(100) if not self.pure else i2 + "default: ;")
                if s.below(2):
                    r.append(i2 + "break;")
            r.append(i2 + "case %s: %s" % (self.lit(v, pt), "" if s.below(4) == 0 else "out(%d);" % s.below(1000) if not self.pure else ";"))
            if s.below(3) == 0 and d > 1:
                r += self.stmt(d - 2, i2)
            elif s.below(4) == 0:
                r += self.stmt(0, i2)
            if s.below(3):
                r.append(i2 + "break;")
        if r[-1].rstrip().endswith(":"):
            r.append(i2 + ";")
        self.inswitch -= 1
        r.append(ind + "}")
        return r

    def lit(self, v, t):
        v = conv(v, t)
        if v == -0x80000000:
            return "(-0x7fffffff - 1)"
        if v < 0:
            return "(%d)" % v
        return "%d%s" % (v, "u" if t == "unsigned int" else "")

    # ------------------------------------------------------------- functions
    def signature(self, i):
        s = self.s
        p = self.p
        pure = s.below(3) == 0
        rets = ["i"] * 4 + ["f"] * (2 if p["floats"] else 0) + ["s"] * (p["calls"] + p["aggr"] > 4) * bool(self.tags)
        rk = s.pick(rets)
        if rk == "s":
            tg = [t for t in self.tags if not self.has(("s", t), "p")]
            ret = ("s", s.pick(tg)) if tg else ("i", "int")
        else:
            ret = self.int_type() if rk == "i" else ("f",)
        params = []
        for j in range(s.below(3 + p["calls"])):
            k = s.below(10)
            if k <= 5:
                t = self.scalar_type()
            elif k <= 7 and p["ptr"] and not pure:
                t = ("p", self.pointee(1))
                if self.has(t[1], "p"):
                    t = self.int_type()
            elif self.tags and not self.has(("s", list(self.tags)[-1]), "p") and k >= 8:
                t = ("s", s.pick([x for x in self.tags if not self.has(("s", x), "p")]))
            else:
                t = self.int_type()
            params.append((t, self.fresh("p")))
        kr = s.below(8) == 0 and all(t[0] in "i" for t, _ in params) and ret[0] == "i"
        return {"name": self.fresh("f"), "ret": ret, "params": params, "pure": pure, "static": s.below(4) == 0, "kr": kr, "index": i, "var": 0, "sig": (ret, tuple(t for t, _ in params), kr)}

    def head(self, f, proto):
        st = "static " if f["static"] else ""
        if f["kr"]:
            if proto:
                return st + self.declare(f["ret"], "%s()" % f["name"])
            return st + self.declare(f["ret"], "%s(%s)" % (f["name"], ", ".join(n for _, n in f["params"]))) + " " + " ".join(self.declare(t, n) + ";" for t, n in f["params"])
        ps = ", ".join(self.declare(t, n if not proto or self.s.below(2) else "") for t, n in f["params"]) or "void"
        return st + self.declare(f["ret"], "%s(%s)" % (f["name"], ps))

    def function(self, f, size, depth):
        s = self.s
        self.cur, self.pure, self.fret = f["index"], f["pure"], f["ret"]
        self.scopes = [[Var(n, t, False, False, 1) for t, n in f["params"]]]
        self.counters, self.targets, self.inloop, self.inswitch, self.contok = [], [], 0, 0, False
        self.budget = size
        self.alltickets, self.ticks = [], []
        self.fps = {}
        decl = []
        ind = "    "
        if self.p["floats"]:
            self.fzero = self.fresh("kf")
            decl.append("    float %s = %s;" % (self.fzero, self.fconst()))
        for _ in range(2):
            t = self.int_type()
            n = self.fresh("k")
            decl.append("%s%s = %s;" % (ind, self.declare(t, n), self.iconst()))
            self.alltickets.append((n, t))
        if f["ret"][0] == "s":
            n = self.fresh("r")
            init = self.initialiser(f["ret"], False)
            # without an initialiser: the members that are not set are never looked at
            if not init and f["pure"]:      # the result must not depend on earlier calls
                decl.append("%sstatic %s;" % (ind, self.declare(f["ret"], n + "z")))
                init = n + "z"
            decl.append("%s%s%s;" % (ind if init else ind + "static ", self.declare(f["ret"], n), " = " + init if init else ""))
            self.retvar = n
            self.scopes[0].append(Var(n, f["ret"], False, False, 1))
        if not f["pure"] and self.p["calls"]:
            for _ in range(s.below(1 + self.p["calls"])):
                self.fpointer(decl, ind)
        body = self.block(depth, ind, 8)
        self.ticks = list(self.alltickets)
        tail = ind + (self.ret() if f["ret"][0] != "v" else ";")
        cdecl = [ind + "int %s = 0;" % c for c in self.counters]
        pos = 0
        while pos < len(body) and False:
            pos += 1
        r = [self.head(f, False) + " {"] + decl + cdecl
        if not f["pure"]:
            r.append(ind + ("if (--fuel < 0) return %s;" % ({"i": "3", "f": "2.5f", "s": getattr(self, "retvar", "")}.get(f["ret"][0], ""))).replace(" ;", ";"))
        r += [ind + "{"] + ["    " + x for x in body] + [ind + "}"]
        # ticks are only seen through this
        if not f["pure"]:
            r += ["    out((int)%s);" % n for n, t in self.alltickets]
        r += [tail, "}"]
        f["body"] = "\n".join(r)

    def fpointer(self, decl, ind):
        """a pointer, or an array of pointers, to functions that may be called here"""
        s = self.s
        c = [f for f in self.callable(False) if not f["var"]]
        if not c:
            return
        f = s.pick(c)
        same = [g for g in c if g["sig"] == f["sig"]]
        ft = ("fn", f["ret"], tuple(t for t, _ in f["params"]))
        n = self.fresh("fp")
        if f["kr"]:
            if s.below(2):
                return
            decl.append("%s%s = %s;" % (ind, self.declare(f["ret"], "(*%s)()" % n), f["name"]))
            self.fps.setdefault(f["sig"], []).append((n, [f["index"]], 0))
            return
        if s.below(2) and len(same) > 1:
            k = s.pick([2, 4])
            fs = [s.pick(same) for _ in range(k)]
            st = "static " if s.below(2) else ""
            d = self.declare(("a", k, ("p", ft)), n)
            decl.append("%s%s%s = { %s };" % (ind, "static ", d, ", ".join(s.pick(["", "&"]) + g["name"] for g in fs)))
            self.fps.setdefault(f["sig"], []).append((n, [g["index"] for g in fs], k))
        else:
            decl.append("%s%s = %s%s;" % (ind, self.declare(("p", ft), n), s.pick(["", "&"]), f["name"]))
            self.fps.setdefault(f["sig"], []).append((n, [f["index"]], 0))

    def dump(self, text, t, ind, out, depth=0):
        if t[0] == "i":
            out.append("%sout(%s);" % (ind, text))
        elif t[0] == "e":
            out.append("%sout((int)%s);" % (ind, text))
        elif t[0] == "f":
            out.append("%soutf(%s);" % (ind, text))
        elif t[0] == "a":
            i = "i%d" % depth
            out.append("%s{ int %s; for (%s = 0; %s < %d; %s++) {" % (ind, i, i, i, t[1], i))
            self.dump("%s[%s]" % (text, i), t[2], ind + "    ", out, depth + 1)
            out.append(ind + "} }")
        elif t[0] == "s":
            kind, fs = self.tags[t[1]]
            for m, ft, b in fs:
                self.dump("(int)%s.%s" % (text, m) if b else "%s.%s" % (text, m), ft, ind, out, depth)
        elif t[0] == "p" and t[1][0] in "ife" and depth < 4:
            self.dump("(*%s)" % text, t[1], ind, out, depth)

    def generate(self, nglob, nfun, size=25, depth=3):
        """fills types, gdef and funs; the first function is the entry"""
        s = self.s
        self.make_types()
        self.fzero = '1.5f'
        self.scopes, self.pure, self.ticks, self.cur, self.alltickets = [], False, [], -1, []
        for _ in range(nglob):
            self.add_global()
        for i in range(nfun):
            self.funs.append(self.signature(i))
        self.funs[0]["pure"] = False
        for f in self.funs:
            self.function(f, size, depth)
        # entry
        self.fzero = "kf"
        self.alltickets, self.ticks = [], []
        self.cur, self.pure, self.scopes, self.budget = -1, False, [[]], 10
        self.fps = {}
        self.inloop = self.inswitch = 0
        self.targets, self.counters = [], []
        b = ["int vmMain(int command, int a0, int a1, int a2, int a3, int a4, int a5, int a6, int a7, int a8, int a9, int a10, int a11) {"] + ["    float kf = 0.5f;"] * bool(self.p["floats"])
        for f in self.funs:
            if f["index"] == 0 or s.below(2):
                self.pure = False
                c = self.call(f, 2)
                if c is None:
                    continue
                k = f["ret"][0]
                b.append("    fuel = 60;")
                b.append("    %s;" % (("out((int)%s)" if k == "i" else "outf(%s)" if k == "f" else "%s") % c))
        for g in self.globals:
            self.dump(g.name, g.ty, "    ", b)
        b.append("    return %s;\n}" % self.iconst())
        self.main = "\n".join(b)
        self.protos = [self.head(f, True) + ";" for f in self.funs]

    def variadic(self):
        """a function with a variable argument list and calls of it"""
        s = self.s
        n = self.fresh("va")
        fixed = s.pick([("i", "int"), ("f",), ("i", "char"), ("p", ("i", "int"))])
        k = s.range(0, 6)
        tys = [s.pick([("i", "int"), ("i", "unsigned int"), ("f",), ("p", ("i", "int")), ("i", "long"), ("str",)]) for _ in range(k)]
        proto = "int %s(int m, %s, ...)" % (n, self.declare(fixed, "a")) if s.below(2) else "int %s(%s, ...)" % (n, self.declare(fixed, "a"))
        two = "int m" in proto
        b = [s.pick(["static ", ""]) + proto + " {", "    VALIST ap;"]
        head = b[0][:-2]
        for i, t in enumerate(tys):
            b.append("    %s;" % ("const char *x%d" % i if t[0] == "str" else self.declare(t, "x%d" % i)))
        self.vbuf = ["    int z%d = %s;" % (i, self.iconst()) for i in range(s.below(3))]
        b += self.vbuf
        b.append("    VASTART(ap, a);")
        show = {"i": "out(%s);", "f": "outf(%s);", "p": "out(*%s);", "str": "outs(%s);"}
        for i, t in enumerate(tys):
            ty = {"i": t[-1], "f": "double", "p": "int *", "str": "const char *"}[t[0]]
            b.append("    x%d = VAARG(ap, %s);" % (i, ty))
            if s.below(3) == 0:
                b.append("    out(x%d != 0);" % i)
        b.append("    VAEND(ap);")
        b.append("    " + show[fixed[0]] % "a")
        if two:
            b.append("    out(m);")
        for i, t in enumerate(tys):
            b.append("    " + show[t[0]] % ("x%d" % i))
        for i in range(len(self.vbuf)):
            b.append("    out(z%d);" % i)
        b += ["    return %s;" % self.iconst(), "}"]
        calls = []
        for _ in range(s.range(1, 3)):
            pre, a = ["int q0 = %s, q1 = %s;" % (self.iconst(), self.iconst()), "char c = %s; short h = %s; float f = %s; unsigned char u = %s;" % (self.iconst(), self.iconst(), self.fconst(), self.iconst())], []
            for t in ([("i", "int")] if two else []) + [fixed] + tys:
                if t[0] == "i":
                    a.append(s.pick([self.iconst(), "q0", "q0 + q1", "q1 ^ 5"] + (["c", "h", "u"] if t[1] == "int" else [])) if t[1] not in ("unsigned int", "long") or t is fixed else "(%s)%s" % (t[1], s.pick(["q0", "77", "q1"])))
                elif t[0] == "f":
                    a.append(s.pick([self.fconst(), "f", "f + 1.5f", "(float)q0 * 0.5f"]))
                elif t[0] == "p":
                    a.append(s.pick(["&q0", "&q1"]))
                else:
                    a.append('"%s"' % "".join(s.pick("abcd ") for _ in range(s.below(6))))
            call = "%s(%s)" % (n, ", ".join(a))
            if s.below(3) == 0 and len(tys) and tys[-1] == ("i", "int"):
                call = "%s(%s)" % (n, ", ".join(a[:-1] + [call]))
            calls.append("    { %s out(%s); out(q0); out(q1); out(c); }" % (" ".join(pre), call))
        self.labels.add("variable argument list")
        return head + ";", calls, "\n".join(b)

    def recursive(self):
        """functions that call each other with everything on their frames in use"""
        s = self.s
        k = s.range(1, 3)
        ns = [self.fresh("rec") for _ in range(k)]
        sigs = []
        for n in ns:
            ps = [s.pick([("i", "int"), ("i", "unsigned int"), ("i", "char"), ("i", "short"), ("i", "unsigned char")] + ([("f",)] if self.p["floats"] else []) + [("s", x) for x in self.tags if self.tags[x][0] == "struct" and not self.has(("s", x), "p")][:2]) for _ in range(s.below(4))]
            sigs.append(ps)
        protos, bodies = [], []
        for i, (n, ps) in enumerate(zip(ns, sigs)):
            head = "int %s(%s)" % (n, ", ".join(["int n"] + [self.declare(t, "a%d" % j) for j, t in enumerate(ps)]))
            protos.append(s.pick(["", "static "]) + head + ";")
            b = [protos[-1][:-1] + " {"]
            loc = []
            for j in range(s.range(1, 4)):
                t = s.pick([("i", "int"), ("i", "char"), ("i", "short"), ("a", 3, ("i", "int")), ("a", 5, ("i", "char"))] + [x for x in ps if x[0] == "s"])
                loc.append(("b%d" % j, t))
                b.append("    %s%s;" % (s.pick(["", "", "register "]) if t[0] == "i" else "", self.declare(t, "b%d" % j)))
            b.append("    int r = 0;")
            ints = ["n"] + ["a%d" % j for j, t in enumerate(ps) if t[0] == "i"]
            small = lambda: "%s %s %s" % (s.pick(ints), s.pick(["+", "-", "*", "^", "&"]), s.pick(ints + [str(s.below(100))]))
            for nm, t in loc:
                if t[0] == "a":
                    for q in range(t[1]):
                        b.append("    %s[%d] = %s;" % (nm, q, small()))
                elif t[0] == "s":
                    src = s.pick(["a%d" % j for j, x in enumerate(ps) if x == t])
                    b.append("    %s = %s;" % (nm, src))
                else:
                    b.append("    %s = %s;" % (nm, small()))
            b.append("    if (n <= 0) return %s;" % small())
            for _ in range(s.range(1, 2)):
                j = s.below(k)
                args = ["n - %d" % s.range(1, 2)]
                for t in sigs[j]:
                    if t[0] == "s":
                        c = ["a%d" % q for q, x in enumerate(ps) if x == t] + [nm for nm, x in loc if x == t] + ["gs%s" % t[1]]
                        args.append(s.pick(c))
                    elif t[0] == "f":
                        c = ["a%d" % q for q, x in enumerate(ps) if x[0] == "f"] + ["0.5f"]
                        args.append(s.pick(c) + s.pick(["", " + 1.0f", " * 0.5f"]))
                    else:
                        args.append(small())
                b.append("    r %s %s(%s);" % (s.pick(["+=", "^=", "-=", "= r * 3 +"]), ns[j], ", ".join(args)))
            for nm, t in loc + [("a%d" % j, t) for j, t in enumerate(ps)]:
                self.dump(nm, t, "    ", b)
            b += ["    return r + n;", "}"]
            bodies.append("\n".join(b))
        used = sorted({t[1] for ps in sigs for t in ps if t[0] == "s"})
        glob = "".join("static struct %s gs%s;\n" % (x, x) for x in used)
        calls = []
        for i in range(k):
            args = [str(s.range(1, 6))]
            for t in sigs[i]:
                args.append("gs" + t[1] if t[0] == "s" else self.fconst() if t[0] == "f" else self.iconst())
            calls.append("    out(%s(%s));" % (ns[i], ", ".join(args)))
        self.labels.add("recursion")
        return glob + "\n".join(protos), calls, "\n".join(bodies)

    def extras(self):
        """variadic and recursive functions around the rest of the program"""
        d, b = [], []
        for f in (self.variadic, self.recursive):
            if self.s.below(3) == 0:
                x, c, y = f()
                d.append(x)
                b.append(y)
                self.main = self.main.replace("\n    return", "\n" + "\n".join(c) + "\n    return", 1)
        self.protos += d
        self.late = b

    def add(self, protos, calls, text, labels):
        """a separate function, called at the end of main"""
        self.protos += [p for p in protos if p]
        self.late = list(self.late) + [text]
        self.main = self.main.replace("\n    return", "\n" + "\n".join("    " + c for c in calls) + "\n    return", 1)
        self.labels |= labels

    late = ()

    DECL = "int out(int);\nint outf(float);\nint outs(const char *);\nint out2(int, int);\n"

    def gtext(self, g, static=True):
        st, d, init = self.gdef[g.name]
        return (st if static else "") + d + (" = " + init if init else "") + ";"

    def single(self):
        """the program as one file"""
        return self.DECL + "\n".join(["static int fuel;"] + self.types + [self.gtext(g) for g in self.globals] + self.protos + [self.main] + [f["body"] for f in self.funs] + list(self.late)) + "\n"


def host_text(t):
    return ("#define long int\n#define ATTR __attribute__((aligned(4)))\n#define VALIST __builtin_va_list\n#define VASTART(l, a) __builtin_va_start(l, a)\n"
            "#define VAARG(l, t) __builtin_va_arg(l, t)\n#define VAEND(l) __builtin_va_end(l)\n") + t


def vm_text(t):
    t = t.replace(" ATTR;", ";")
    if "VALIST" in t:       # as in bg_lib.h
        t = t.replace("VALIST ap", "char *ap").replace("VAEND(ap)", "ap = (char *)0")
        t = re.sub(r"VASTART\(ap, (\w+)\)", r"ap = (char *)&\1 + ((sizeof(\1) + sizeof(int) - 1) & ~(sizeof(int) - 1))", t)
        t = re.sub(r"VAARG\(ap, ([\w *]+)\)", r"*(\1 *)((ap += ((sizeof(\1) + sizeof(int) - 1) & ~(sizeof(int) - 1))) - ((sizeof(\1) + sizeof(int) - 1) & ~(sizeof(int) - 1)))", t)
    return t
