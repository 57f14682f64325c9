"""Typed C integer expressions with their values: generation, evaluation and rendering.

All values are computed here with the rules of C89 for a machine with 8 bit char (signed), 16 bit short and
32 bit int and long; overflow of signed arithmetic wraps around."""

# name -> (bits, signed)
TYPES = {"char": (8, 1), "signed char": (8, 1), "unsigned char": (8, 0), "short": (16, 1), "unsigned short": (16, 0), "int": (32, 1), "unsigned int": (32, 0),
         "long": (32, 1), "unsigned long": (32, 0)}
SPELL = {"char": ["char"], "signed char": ["signed char"], "unsigned char": ["unsigned char"], "short": ["short", "short int", "signed short"], "unsigned short": ["unsigned short", "unsigned short int"],
         "int": ["int", "signed", "signed int"], "unsigned int": ["unsigned", "unsigned int"], "long": ["long", "long int", "signed long"], "unsigned long": ["unsigned long", "unsigned long int"]}
NAMES = list(TYPES)
NARROW = [t for t in NAMES if TYPES[t][0] < 32]


def conv(v, t):
    b, s = TYPES[t]
    v &= (1 << b) - 1
    return v - (1 << b) if s and v >> (b - 1) else v


def fits(v, t):
    return conv(v, t) == v


def prom(t):
    return "int" if TYPES[t][0] < 32 else t


def usual(a, b):
    a, b = prom(a), prom(b)
    for t in ("unsigned long", "long", "unsigned int"):
        if a == t or b == t:
            if t == "long" and "unsigned int" in (a, b):
                return "unsigned long"
            return t
    return "int"


PREC = {",": 1, "=": 2, "?": 3, "||": 4, "&&": 5, "|": 6, "^": 7, "&": 8, "==": 9, "!=": 9, "<": 10, ">": 10, "<=": 10, ">=": 10, "<<": 11, ">>": 11,
        "+": 12, "-": 12, "*": 13, "/": 13, "%": 13, "un": 14, "post": 15, "prim": 16}


class N:
    __slots__ = ("k", "op", "kids", "ty", "val", "data")

    def __init__(self, k, op, kids, ty, val, data=None):
        self.k, self.op, self.kids, self.ty, self.val, self.data = k, op, kids, ty, val, data


class Overflow(Exception):
    """the operation has no value (in a mode where that matters)"""


def arith(op, t, a, b, strict):
    """a, b already converted to t"""
    if op in "/%":
        if b == 0 or (TYPES[t][1] and a == -0x80000000 and b == -1):
            raise Overflow
        q = abs(a) // abs(b)
        if (a < 0) != (b < 0):
            q = -q
        r = q if op == "/" else a - q * b
    else:
        r = {"+": a + b, "-": a - b, "*": a * b, "&": a & b, "|": a | b, "^": a ^ b}[op]
    if strict and TYPES[t][1] and not fits(r, t):
        raise Overflow
    return conv(r, t)


def un(op, a, strict=False):
    t = prom(a.ty)
    if op == "!":
        return N("un", op, [a], "int", int(a.val == 0))
    v = {"-": -a.val, "~": ~a.val, "+": a.val}[op]
    if strict and op == "-" and TYPES[t][1] and not fits(v, t):
        raise Overflow
    return N("un", op, [a], t, conv(v, t))


def cast(t, a):
    return N("cast", t, [a], t, conv(a.val, t))


def binary(op, a, b, strict=False):
    if op in ("<<", ">>"):
        t = prom(a.ty)
        if not 0 <= b.val < 32:
            raise Overflow
        v = a.val << b.val if op == "<<" else a.val >> b.val
        if strict and op == "<<" and TYPES[t][1] and (a.val < 0 or not fits(v, t)):
            raise Overflow
        return N("bin", op, [a, b], t, conv(v, t))
    if op in ("&&", "||"):
        v = (a.val != 0 and b.val != 0) if op == "&&" else (a.val != 0 or b.val != 0)
        return N("bin", op, [a, b], "int", int(v))
    t = usual(a.ty, b.ty)
    x, y = conv(a.val, t), conv(b.val, t)
    if op in ("==", "!=", "<", ">", "<=", ">="):
        v = {"==": x == y, "!=": x != y, "<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[op]
        return N("bin", op, [a, b], "int", int(v))
    return N("bin", op, [a, b], t, arith(op, t, x, y, strict))


def cond(c, a, b):
    t = usual(a.ty, b.ty)
    return N("cond", "?", [c, a, b], t, conv((a if c.val else b).val, t))


def literal(s, v, t=None):
    """a constant of the value v (type as the text says); s: source of choices"""
    if v < 0:
        raise ValueError
    c = s.below(8)
    if c == 5 and 32 <= v < 127 and chr(v) not in "'\\":
        return N("lit", "'%s'" % chr(v), [], "int", v)
    if c == 6 and v < 128:
        esc = {10: "\\n", 9: "\\t", 13: "\\r", 7: "\\a", 8: "\\b", 12: "\\f", 11: "\\v", 39: "\\'", 34: '\\"', 92: "\\\\", 63: "\\?"}
        return N("lit", "'%s'" % (esc.get(v) or ("\\%o" % v if s.below(2) else "\\x%x" % v)), [], "int", v)
    base = s.weighted([(5, "d"), (2, "x"), (1, "o")])
    suf = s.weighted([(10, ""), (2, "u"), (1, "U"), (1, "L"), (1, "l"), (1, "ul"), (1, "UL"), (1, "Lu")])
    txt = {"d": "%d" % v, "x": s.pick(["0x%x", "0X%X"]) % v, "o": "0%o" % v}[base] + suf
    u, l = "u" in suf.lower(), "l" in suf.lower()
    if u:
        t = "unsigned long" if l else "unsigned int"
    elif v <= 0x7fffffff:
        t = "long" if l else "int"
    elif base == "d":
        t = "unsigned long"
    else:
        t = "unsigned long" if l else "unsigned int"
    return N("lit", txt, [], t, v)


def typed_const(s, t, v):
    """an expression of exactly type t and value v made of constants"""
    if v < 0:
        if v == -0x80000000:
            x = binary("-", un("-", N("lit", "0x7fffffff", [], "int", 0x7fffffff)), N("lit", "1", [], "int", 1))
        else:
            x = un("-", literal(s, -v))
    else:
        x = literal(s, v)
    if x.ty != t or x.val != v:
        x = cast(t, x)
    assert x.val == v and x.ty == t, (x.val, v, x.ty, t)
    return x


def prec(n):
    if n.k in ("lit", "var", "sizeof0", "call", "enum"):
        return PREC["prim"]
    if n.k == "post":
        return PREC["post"]
    if n.k in ("un", "cast", "pre", "sizeof"):
        return PREC["un"]
    if n.k == "asg":
        return PREC["="]
    return PREC[n.op]


def render(n, s, leaf=None):
    """text of n; s decides about superfluous parentheses and spaces (None: none)"""
    def sub(k, need):
        r = render(k, s, leaf)
        p = prec(k)
        if k.k == "var" and leaf:
            return r          # leaf texts bring their own parentheses
        if p < need or (s is not None and k.kids and s.below(6) == 0):
            return "(" + r + ")"
        return r
    sp = " " if s is None or s.below(3) else ""
    if n.k in ("lit", "enum"):
        return n.op
    if n.k == "var":
        return leaf(n) if leaf else n.op
    if n.k == "un":
        r = sub(n.kids[0], PREC["un"])
        return n.op + (" " if r[0] in "+-" else "") + r
    if n.k == "cast":
        return "(%s)" % n.op + sub(n.kids[0], PREC["un"])
    if n.k == "sizeof":
        return "sizeof (%s)" % render(n.kids[0], s, leaf)
    if n.k == "sizeof0":
        return "sizeof (%s)" % n.op
    if n.k == "call":
        return "%s(%s)" % (n.op, ", ".join(sub(k, PREC["="]) for k in n.kids))
    if n.k == "pre":
        return n.op + " " + sub(n.kids[0], PREC["un"])
    if n.k == "post":
        return sub(n.kids[0], PREC["post"]) + n.op
    if n.k == "asg":
        return sub(n.kids[0], PREC["un"]) + sp + n.op + " " + sub(n.kids[1], PREC["="])
    if n.k == "cond":
        return sub(n.kids[0], PREC["||"]) + " ? " + sub(n.kids[1], PREC[","] + 1) + " : " + sub(n.kids[2], PREC["?"])
    p = PREC[n.op]
    a, b = sub(n.kids[0], p), sub(n.kids[1], p + 1)
    if n.op == ",":
        return a + ", " + b
    if not sp and (b[0] in "+-&" or a[-1] in "+-&eE" or n.op == "/" and b[0] == "*"):
        sp = " "
    return a + sp + n.op + sp + b


BIN = ["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "==", "!=", "<", ">", "<=", ">=", "&&", "||"]


class Gen:
    """expression generator over an environment of leaves.
    leaf(s) gives a node; strict: no signed overflow; consts: only constants"""
    def __init__(self, s, leaf, strict=False, comma=True):
        self.s, self.leaf, self.strict, self.comma = s, leaf, strict, comma
        self.extra = []        # functions (depth) -> node, further kinds of nodes

    def near(self, v):
        """a constant related to v: makes comparisons and divisions interesting"""
        s = self.s
        c = s.below(5)
        w = [v, v + 1, v - 1, -v, v ^ 1][c] & 0xffffffff
        w = conv(w, "int")
        return typed_const(s, "int", w)

    def const(self):
        s = self.s
        v = s.i32()
        t = s.pick(NAMES) if s.below(4) == 0 else s.pick(["int", "int", "unsigned int", "long", "unsigned long"])
        return typed_const(s, t, conv(v, t))

    def gen(self, d):
        s = self.s
        if d <= 0 or s.below(8) == 0:
            return self.leaf() if s.below(3) else self.const()
        k = s.below(16)
        if k <= 7:
            op = s.pick(BIN)
            a = self.gen(d - 1)
            if op in ("<<", ">>"):
                b = self.gen(d - 1) if s.below(2) else typed_const(s, "int", s.below(32))
                if not 0 <= b.val < 32:
                    b = binary("&", b, typed_const(s, "int", 31))
                    if not 0 <= b.val < 32:
                        b = typed_const(s, "int", 5)
            elif s.below(5) == 0:
                b = self.near(a.val)
            else:
                b = self.gen(d - 1)
            try:
                return binary(op, a, b, self.strict)
            except Overflow:
                return binary(s.pick(["^", "|", "&", "<", "=="]), a, b)
        if k <= 9:
            a = self.gen(d - 1)
            try:
                return un(s.pick(["-", "~", "!", "+"]), a, self.strict)
            except Overflow:
                return un("~", a)
        if k <= 11:
            return cast(s.pick(NAMES), self.gen(d - 1))
        if k == 12:
            return cond(self.gen(d - 1), self.gen(d - 1), self.gen(d - 1))
        if k == 13 and self.extra:
            return s.pick(self.extra)(d)
        if k == 14 and self.comma:
            a, b = self.gen(d - 1), self.gen(d - 1)
            return N("bin", ",", [a, b], b.ty, b.val)
        return binary(s.pick(["+", "-", "&", "|"]), self.gen(d - 1), self.gen(d - 1))if not self.strict else binary(s.pick(["^", "&", "|"]), self.gen(d - 1), self.gen(d - 1))
