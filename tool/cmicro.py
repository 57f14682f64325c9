"""Small dense functions for single features, put beside the programs of cprog.py.
Each generator takes a source of choices and a number and returns (prototypes, lines for main, definitions, labels)."""

EDGE = [0, 1, -1, 2, 3, 7, 8, 15, 16, 31, 32, 63, 64, 100, 127, 128, 129, 255, 256, 257, -127, -128, -129, -255, -256, 32767, 32768, -32768, -32769, 65535, 65536, 1 << 24, 0x7ffffffe, 0x7fffffff, -0x7fffffff]


def num(v):
    v = (v + (1 << 31)) % (1 << 32) - (1 << 31)
    return "(-2147483647 - 1)" if v == -(1 << 31) else "(%d)" % v if v < 0 else "%d" % v


def bits(s, n):
    """assignments to the fields of a structure, all fields printed after each group"""
    T = "struct B%d" % n
    fs, txt, used = [], [], 0
    for i in range(s.range(2, 7)):
        t = s.pick(["int", "unsigned int"])
        w = s.range(1, s.pick([3, 8, 14, 32]))
        fs.append(("m%d" % i, t, w))
        txt.append("%s m%d : %d;" % (t, i, w))
        if s.below(6) == 0:
            txt.append(s.pick(["int : 0;", "int : 5;", "unsigned int : 11;", "char pad%d;" % i, "int pad%d;" % i, "short pad%d;" % i]))
    head = "%s { %s } ATTR;" % (T, " ".join(txt))
    k = s.below(5)
    glob, loc, path = "", "", "v"
    if k == 0:
        glob = "static %s v%d;" % (T, n)
        path = "v%d" % n
    elif k == 1:
        glob = "%s v%d[3];" % (T, n)
        path = "v%d[%s]" % (n, s.pick(["1", "2", "i"]))
    elif k == 2:
        loc = "    %s v, *p = &v;\n" % T
        path = "p->"
    elif k == 3:
        loc = "    %s v;\n" % T
    else:
        loc = "    struct { int a; %s b[2]; } v;\n" % T
        path = "v.b[%s]" % s.pick(["0", "1", "i"])
    dot = path if path.endswith("->") else path + "."
    b = ["void bits%d(int x) {" % n, "    int i = 1;\n" + loc.rstrip("\n")]
    if loc:
        b += ["    %s%s = 0;" % (dot, m) for m, t, w in fs]
    for _ in range(s.range(4, 14)):
        m, t, w = s.pick(fs)
        h = 1 << (w - 1)
        c = num(min(s.pick([0, -1, -1, h - 1, h, -h, 2 * h - 1, 2 * h + 1, 1, 5, s.i32()]), 0x7fffffff))
        m2, t2, w2 = s.pick(fs)
        e = s.pick([c, c, c, "x", "x & %s" % c, "(%s)%s%s" % (t2, dot, m2), "x ^ (int)%s%s" % (dot, m2), c + "u" if c.isdigit() else c, "x != 0"])
        l = "%s%s %s %s" % (dot, m, s.pick(["=", "=", "=", "=", "+=", "-=", "^=", "|=", "&="]), e)
        if s.below(8) == 0:
            l = s.pick(["++%s%s", "--%s%s", "%s%s++", "%s%s--"]) % (dot, m)
        k = s.below(6)
        if k == 0:
            b.append("    out(%s);" % l)
        elif k == 1 and t == "int":
            b.append("    if ((%s) %s %s) out(1); else out(2);" % (l, s.pick(["<", ">", "==", "!="]), num(s.pick([0, -1, 1, h - 1, -h, 5]))))
        else:
            b.append("    %s;" % l)
        if s.below(3) == 0:
            b += ["    out((int)%s%s);" % (dot, m) for m, t, w in fs]
    b += ["    out((int)%s%s);" % (dot, m) for m, t, w in fs]
    b.append("}")
    calls = ["bits%d(%s);" % (n, num(s.pick(EDGE))) for _ in range(s.range(1, 2))]
    return [head, glob, "void bits%d(int);" % n], calls, "\n".join(x for x in b if x), {"bit field"}


def switch(s, n):
    """a switch applied to its labels, their neighbours and other values"""
    t = s.pick(["int", "int", "int", "unsigned int", "signed char", "unsigned char", "short", "unsigned short"])
    lo, hi = {"int": (-1 << 31, (1 << 31) - 1), "unsigned int": (0, (1 << 32) - 1), "signed char": (-128, 127), "unsigned char": (0, 255), "short": (-32768, 32767), "unsigned short": (0, 65535)}[t]
    labels = set()
    for _ in range(s.range(1, 6)):
        base = s.pick([0, 1, 10, 100, 1000, -10, -100, lo, hi - 20, hi, s.range(lo, hi), s.range(-300, 300), s.range(-300, 300)])
        step = s.pick([1, 1, 1, 2, 3, 5, 17, 1000])
        for i in range(s.pick([1, 1, 2, 3, 4, 5, 6, 9, 14])):
            v = base + i * step
            if lo <= v <= hi and (i == 0 or s.below(6)):
                labels.add(v)
    labels = sorted(labels)
    order = list(labels)
    for i in range(len(order) - 1, 0, -1):
        if s.below(2):
            j = s.below(i + 1)
            order[i], order[j] = order[j], order[i]
    dflt = s.range(-1, len(order))          # in front of this label, -1: none
    def lit(v):
        if t == "unsigned int" and v >= 1 << 31:
            return "%du" % v
        return num(v)
    b = ["int sw%d(%s x) {" % (n, t), "    int r = 0;", "    switch (%s) {" % s.pick(["x", "x", "x + 0", "r, x"])]
    for i in range(len(order) + 1):
        if i == dflt:
            b.append("    default: r += 1000; " + s.pick(["break;", "break;", "", "return r;"]))
        if i < len(order):
            e = s.pick(["break;", "break;", "break;", "", "", "return r;", "{ r *= 3; } break;"])
            b.append("    case %s: r += %d; %s" % (lit(order[i]), i + 1, e))
    if b[-1].endswith(": "):
        b.append("        ;")
    b += ["    }", "    return r;", "}"]
    vals = set()
    for v in labels[:40]:
        for d in (-1, 0, 1):
            if lo <= v + d <= hi:
                vals.add(v + d)
    for v in EDGE + [lo, hi, 0x80000000, 0xffffffff]:
        if lo <= v <= hi:
            vals.add(v)
    for _ in range(4):
        vals.add(s.range(lo, hi))
    vals = sorted(vals)
    glob = "%s swv%d[%d] = { %s };" % ("int" if t != "unsigned int" else t, n, len(vals), ", ".join(lit(v) for v in vals))
    return ["int sw%d(%s);" % (n, t), glob], ["{ int i; for (i = 0; i < %d; i++) out(sw%d((%s)swv%d[i])); }" % (len(vals), n, t, n)], "\n".join(b), {"switch"}


def loops(s, n):
    """loops whose first test may be decided at compile time"""
    b = ["void loops%d(void) {" % n]
    for _ in range(s.range(2, 6)):
        t = s.pick(["int", "int", "unsigned int", "signed char", "unsigned char", "short", "register int", "static int"])
        u = "unsigned" in t
        ch = "char" in t
        a = s.range(-4, 8)
        c = a + s.range(-3, 3)
        if s.below(4) == 0 and not ch and t != "short":
            a = s.pick([0x7fffffff, -0x7fffffff, 100000, -100000])
            c = a - s.range(-2, 2) * (1 if abs(a) < 200000 else 0)
        if u:
            a, c = abs(a), abs(c)
        a, c = str(a) if a >= 0 else "(%d)" % a, str(c) if c >= 0 else "(%d)" % c
        if u and s.below(2):
            a, c = a + "u", c + "u"
        op = s.pick(["<", "<=", ">", ">=", "==", "!="])
        test = s.pick(["i %s %s" % (op, c)] * 4 + ["%s %s i" % (c, op), "i %s %s && n < 9" % (op, c), "!(i %s %s)" % (op, c), "i", "1", ""])
        step = s.pick(["i++", "i--", "i += 2", "++i", "--i", "i ^= 1"])
        if a in ("2147483647", "(-2147483647)", "2147483647u"):
            step = "i ^= 1"
        inner = s.pick(["", "", "if (n == 2) continue; ", "if (n & 1) { out(i); continue; } ", "switch (n) { case 1: continue; case 3: out(7); break; } "])
        k = s.below(4)
        lim = "if (++n > 12) break; "
        if k < 2:
            b.append("    { %s i; int n = 0; for (i = %s; %s; %s) { %s%s} out(n); out(i); }" % (t, a, test, step, lim, inner))
        elif k == 2:
            b.append("    { %s i; int n = 0; i = %s; while (%s) { %s; %s%s} out(n); out(i); }" % (t, a, test or "1", step, lim, inner))
        else:
            b.append("    { %s i; int n = 0; i = %s; do { %s; %s%s} while (%s); out(n); out(i); }" % (t, a, step, lim, inner, test or "1"))
    b.append("}")
    return ["void loops%d(void);" % n], ["loops%d();" % n], "\n".join(b), {"for", "while"}


def logic(s, n):
    """conditional evaluation with a trace of what is evaluated"""
    leaf = [0]
    def e(d):
        k = s.below(12)
        if d == 0 or k < 2:
            leaf[0] += 1
            v = s.pick(["0", "1", "x", "y", "!x", "-1", "256", "65536"])
            return s.pick(["lt%d(%d, %s)" % (n, leaf[0], v)] * 4 + [v, "x > %d" % s.range(-2, 2), "y != x"])
        if k < 5:
            return "(%s) && (%s)" % (e(d - 1), e(d - 1))
        if k < 8:
            return "(%s) || (%s)" % (e(d - 1), e(d - 1))
        if k == 8:
            return "!(%s)" % e(d - 1)
        if k == 9:
            return "(%s) ? (%s) : (%s)" % (e(d - 1), e(d - 1), e(d - 1))
        if k == 10:
            return "(%s), (%s)" % (e(d - 1), e(d - 1))
        return "(%s) %s %d" % (e(d - 1), s.pick(["==", "!=", "<", "+"]), s.range(-1, 2))
    b = ["int lt%d(int k, int v) { out(k); return v; }" % n, "int logic%d(int x, int y) {" % n, "    int z = 0, a[3];", "    a[0] = 5; a[1] = 6; a[2] = 7;"]
    for _ in range(s.range(2, 5)):
        x = e(s.range(1, 4))
        k = s.below(8)
        if k == 0:
            b.append("    if (%s) out(101); else out(102);" % x)
        elif k == 1:
            b.append("    z = (%s);" % x)
        elif k == 2:
            b.append("    { int k = 0; while ((%s) && k++ < 2) out(103); }" % x)
        elif k == 3:
            b.append("    out(a[!!(%s)]);" % x)
        elif k == 4:
            b.append("    { int w = (%s); out(w); }" % x)
        elif k == 5:
            b.append("    z += !(%s);" % x)
        elif k == 6:
            b.append("    { int k; for (k = 0; k < 2 && (%s); k++) out(104); }" % x)
        else:
            b.append("    out2((%s), 9);" % x)
    b += ["    out(z);", "    return (%s);" % e(s.range(1, 3)), "}"]
    return ["int lt%d(int, int);" % n, "int logic%d(int, int);" % n], ["out(logic%d(%d, %d));" % (n, s.range(-2, 2), s.range(-1, 2)) for _ in range(3)], "\n".join(b), {"if", "while", "call"}


def structs(s, n):
    """structures passed, changed, returned and chosen by value"""
    T = "struct P%d" % n
    k = s.range(1, 7)
    ms = [("m%d" % i, s.pick(["int", "int", "int", "short", "unsigned char", "signed char", "unsigned int"])) for i in range(k)]
    arr = s.below(3) == 0
    head = "%s { %s%s } ATTR;" % (T, " ".join("%s %s;" % (t, m) for m, t in ms), " int arr[%d];" % s.range(1, 5) if arr else "")
    def mem():
        return s.pick(ms)[0]
    fn, protos = [], []
    names = []
    for i in range(s.range(2, 4)):
        nm = "st%d_%d" % (n, i)
        kind = s.below(3)
        pre = ", ".join(["int p%d" % j for j in range(s.below(3))])
        npre = pre.count("int")
        protos.append("%s %s(%s);" % (T, nm, ", ".join(["int"] * npre + [T] + (["int"] if kind else []))))
        body = ["%s %s(%s%s x%s) {" % (T, nm, pre + ", " if pre else "", T, ", int q" if kind else "")]
        body.append("    %s y, *r = &x; static %s z;" % (T, T))
        body.append("    y = x;")
        for _ in range(s.range(1, 5)):
            c = s.below(9)
            if c == 0:
                body.append("    x.%s += %d;" % (mem(), s.range(1, 9)))
            elif c == 1:
                body.append("    y.%s = x.%s + %s;" % (mem(), mem(), "q" if kind else "3"))
            elif c == 2:
                body.append("    *r = y;")
            elif c == 3:
                body.append("    z = %s;" % s.pick(["x", "y", "*r"]))
            elif c == 4:
                body.append("    y = (x.%s & 1) ? x : z;" % mem())
            elif c == 5 and names:
                f, np, kd = s.pick(names)
                body.append("    %s = %s(%s);" % (s.pick(["x", "y", "z", "*r"]), f, ", ".join([str(s.below(9)) for _ in range(np)] + [s.pick(["x", "y", "z", "*r", "(z = y, y)"])] + (["4"] if kd else []))))
            elif c == 6 and names:
                f, np, kd = s.pick(names)
                f2, np2, kd2 = s.pick(names)
                inner = "%s(%s)" % (f2, ", ".join(["1"] * np2 + [s.pick(["x", "y", "*r"])] + (["x.%s" % mem()] if kd2 else [])))
                body.append("    y = %s(%s);" % (f, ", ".join(["2"] * np + [inner] + (["5"] if kd else []))))
            elif c == 7 and names:
                f, np, kd = s.pick(names)
                body.append("    out(%s(%s).%s);" % (f, ", ".join(["2"] * np + [s.pick(["x", "y", "*r"])] + (["6"] if kd else [])), mem()))
            else:
                body.append("    out(x.%s); out(r->%s); out(y.%s);" % (mem(), mem(), mem()))
        for j in range(npre):
            body.append("    out(p%d);" % j)
        body.append("    return %s;" % s.pick(["x", "y", "z", "*r", "x.m0 > 3 ? x : y", "(y.m0++, y)"]))
        body.append("}")
        fn.append("\n".join(body))
        names.append((nm, npre, kind > 0))
    show = lambda v: " ".join("out(%s.%s);" % (v, m) for m, t in ms)
    b = ["void structs%d(void) {" % n, "    %s a, b[2];" % T] + ["    a.%s = %d; b[0].%s = %d;" % (m, s.range(0, 100), m, s.range(-100, 100)) for m, t in ms] + (["    a.arr[0] = 1; b[0].arr[0] = 2;"] if arr else []) + ["    b[1] = b[0];"]
    for _ in range(s.range(2, 4)):
        f, np, kd = s.pick(names)
        b.append("    %s = %s(%s);" % (s.pick(["a", "b[0]", "b[1]"]), f, ", ".join([str(s.below(99)) for _ in range(np)] + [s.pick(["a", "b[0]", "b[1]", "*b", "*(b + 1)", "*&a"])] + (["7"] if kd else []))))
        b.append("    " + show("a") + show("b[0]") + show("b[1]"))
    b.append("}")
    return [head] + protos + ["void structs%d(void);" % n], ["structs%d();" % n], "\n".join(fn + b), {"structure result", "structure assignment", "call"}


def pointers(s, n):
    """differences, comparisons and steps of pointers into arrays of elements of many sizes"""
    k = s.range(1, 9)
    T = s.pick(["struct Q%d" % n] * 4 + ["int", "short", "unsigned char"])
    head = "struct Q%d { %s } ATTR;" % (n, s.pick(["int a[%d];" % k, "int a; char b[%d];" % k, "short s[%d];" % k, "unsigned char c[%d];" % (4 * k)]))
    d1, d2 = s.range(2, 5), s.range(2, 6)
    b = ["void ptrs%d(int i, int j) {" % n, "    %s *p, *q, (*r)[%d];" % (T, d2), "    p = &pa%d[i %% %d][j %% %d]; q = pa%d[%d] + %d; r = pa%d;" % (n, d1, d2, n, s.below(d1), s.below(d2), n)]
    for _ in range(s.range(4, 9)):
        b.append("    " + s.pick([
            "out((int)(p - q));", "out((int)(q - p));", "out(p < q); out(p >= q); out(p == q); out(p != q);",
            "out((int)((char *)p - (char *)q));", "out((int)(&r[1][0] - r[0]));", "out((int)((r + 1) - r));",
            "out((int)(&pa%d[%d][%d] - &pa%d[0][0]));" % (n, d1 - 1, d2 - 1, n),
            "{ %s *t = q; int c = 0; for (t = pa%d[0]; t < pa%d[1]; t++) c++; out(c); }" % (T, n, n),
            "{ %s *t = p; t++; out((int)(t - p)); --t; out(t == p); t += 1; out((int)((char *)t - (char *)p)); t -= 1; out((int)(t - p)); }" % T,
            "{ %s *t = pa%d[1]; t = t - i %% 2; out((int)(t - pa%d[0])); out((int)(&t[1] - &pa%d[0][0])); }" % (T, n, n, n),
            "out((int)(&(*r)[2 %% %d] - *r)); out((int)(*(r + 1) - *r));" % d2,
            "out((int)sizeof *r); out((int)sizeof pa%d); out((int)(sizeof pa%d / sizeof pa%d[0]));" % (n, n, n),
            "out(!p); out(p ? 3 : 4); out(p && q); if (p) out(5);",
            "out((unsigned int)i %% %d < %d && &pa%d[(unsigned int)i %% %d][0] == pa%d[(unsigned int)i %% %d]);" % (d1, d1, n, d1, n, d1),
        ]))
    b.append("}")
    return [head, "%s pa%d[%d][%d];" % (T, n, d1, d2), "void ptrs%d(int, int);" % n], ["ptrs%d(%d, %d);" % (n, s.below(9), s.below(9)) for _ in range(2)], "\n".join(b), {"pointer assignment"}


def fconv(s, n):
    """conversions between float and the integer types at their borders, and comparisons"""
    def fc():
        v = s.pick([0.0, 1.0, -1.0, 0.5, -0.5, 0.75, -0.99, 1.5, -2.5, 127.0, 127.9, 128.0, 255.0, 255.5, 256.0, -128.0, -128.9, 32767.5, 65535.0, 16777215.0, 16777216.0, 2147483520.0, -2147483648.0, -2147483520.0,
                    2147483648.0, 2147483904.0, 3000000000.0, 4294967040.0, s.range(-1000, 1000) / 8.0, float(s.range(-(1 << 23), 1 << 23)), s.range(0, (1 << 24) - 1) * 256.0])
        return v
    vals = [fc() for _ in range(s.range(3, 8))]
    lit = lambda v: "(-%rf)" % -v if v < 0 else "%rf" % v
    def rng(v):
        r = ["float"]
        if -2147483648.0 <= v < 2147483648.0:
            r += ["int", "int", "long"]
        if -1 < v < 4294967296.0:
            r += ["unsigned int", "unsigned int", "unsigned long"]
        for t, a, b in (("signed char", -129, 128), ("unsigned char", -1, 256), ("short", -32769, 32768), ("unsigned short", -1, 65536)):
            if a < v < b:
                r.append(t)
        return r
    b = ["float fid%d(float x) { return x; }" % n, "void fconv%d(void) {" % n, "    float f, g; int i; unsigned int u; signed char c; unsigned char d; short h; unsigned short w;"]
    var = {"int": "i", "unsigned int": "u", "signed char": "c", "unsigned char": "d", "short": "h", "unsigned short": "w"}
    for v in vals:
        b.append("    f = %s;" % lit(v))
        for _ in range(s.range(1, 4)):
            t = s.pick(rng(v))
            k = s.below(4)
            if t == "float":
                b.append("    outf(%s);" % s.pick(["f", "-f", "f + 1", "f * 2", "fid%d(f)" % n, "f / 2", "f - f", "(float)(f * 3)"]))
            elif k == 0 and t in var:
                b.append("    %s = f; out((int)%s);" % (var[t], var[t]))
            elif k == 1 and t in var:
                b.append("    %s = (%s)fid%d(f); f = %s; outf(f);" % (var[t], t, n, var[t]))
                break
            else:
                b.append("    out((int)(%s)%s);" % (t, s.pick(["f", "fid%d(f)" % n, "(f + 0)"])))
        w = s.pick(vals)
        op = s.pick(["<", ">", "<=", ">=", "==", "!="])
        b.append("    g = %s; " % lit(w) + s.pick(["out(f %s g);", "if (f %s g) out(1); else out(2);", "out(!(f %s g));", "out(f %s g ? 3 : 4);", "while (f %s g) { out(5); break; }", "out((f %s g) && f); out(!g); out(g ? 1 : 0);"]) % op)
    for _ in range(s.range(1, 4)):
        t = s.pick(sorted(var))
        v = s.pick(EDGE + [0x80000000, 0xffffffff, 0x80000001, 0xffffff00])
        b.append("    %s = %s; f = %s; outf(f); outf(%s); outf(%s * 1.0f);" % (var[t], "%du" % v if v > 0x7fffffff else num(v), var[t], s.pick(["(float)%s", "%s + 0.0f", "fid%d(%%s)" % n]) % var[t], var[t]))
    b.append("}")
    return ["float fid%d(float);" % n, "void fconv%d(void);" % n], ["fconv%d();" % n], "\n".join(b), {"call", "if"}


def args(s, n):
    """calls inside the arguments of calls, in conditional branches too"""
    b, protos, fs = [], [], []
    for i in range(s.range(2, 4)):
        ts = [s.pick(["int", "int", "int", "float", "unsigned char", "short", "int *"]) for _ in range(s.range(1, 9))]
        f = "ar%d_%d" % (n, i)
        old = s.below(4) == 0 and not any(t in ("float", "unsigned char", "short") for t in ts)
        protos.append("int %s(%s);" % (f, "" if old else ", ".join(ts)))
        h = "int %s(%s) " % (f, ", ".join("p%d" % j for j in range(len(ts)))) + " ".join("%s p%d;" % (t, j) for j, t in enumerate(ts)) if old else "int %s(%s)" % (f, ", ".join("%s p%d" % (t, j) for j, t in enumerate(ts)))
        sm = " + ".join("%d * %s" % (j + 1, "(int)p%d" % j if t == "float" else "*p%d" % j if t == "int *" else "p%d" % j) for j, t in enumerate(ts))
        xs = ["p%d" % j for j, t in enumerate(ts) if t != "int *"]
        x = s.pick(xs) if xs else "r"       # nothing the caller sees is changed
        b.append("%s { int r = %s; %s += 1; return (r + (int)%s) & 1023; }" % (h, sm, x, x))
        fs.append((f, ts))
    def e(t, d):
        if t == "int *":
            return s.pick(["&g", "&h", "a", "a + 1", "z ? &g : &h"])
        if d == 0:
            r = s.pick(["x", "y", "z", str(s.range(0, 99)), "a[1]", "g"])
        else:
            k = s.below(7)
            if k < 4:
                r = call(d - 1)
            elif k == 4:
                r = "(%s ? %s : %s)" % (e("int", 0), e("int", d - 1), e("int", d - 1))
            elif k == 5:
                r = "(%s %s %s)" % (e("int", d - 1), s.pick(["+", "-", "&&", "||", "^", ","]), e("int", d - 1))
            else:
                r = "(%s)" % e("int", 0)
        return "((%s) & 127)" % r if t in ("unsigned char", "float", "short") else r
    def call(d):
        f, ts = s.pick(fs)
        return "%s(%s)" % (f, ", ".join(e(t, d if s.below(3) == 0 else 0) for t in ts))
    b += ["void args%d(int x, int y, int z) {" % n, "    int a[3], g = 4, h = 6;", "    a[0] = 1; a[1] = 2; a[2] = 3;"]
    for _ in range(s.range(2, 6)):
        b.append("    " + s.pick(["out(%s);", "g = %s;", "if (%s) out(1); else out(2);", "a[(%s) & 1] += 3;", "h += %s;"]) % call(s.range(1, 3)))
    b += ["    out(g); out(h); out(a[0]); out(a[1]);", "}"]
    return protos + ["void args%d(int, int, int);" % n], ["args%d(%d, %d, %d);" % (n, s.below(9), s.below(90), s.below(2)) for _ in range(2)], "\n".join(b), {"call", "conditional call"}


def wide(s, n):
    """wide characters and wide strings: initialisers of arrays, of members and of pointers, operands, joined parts"""
    def text(k):
        """a wide string of k characters, maybe in parts"""
        parts, cur, open_ = [], "", False
        for _ in range(k):
            c = s.pick(list("abz059 ,!") + ["\\n", "\\0", "\\\\", "\\\"", "\\'", "\\x7f", "\\377", "\\777", "\\x1234", "\\xffff", "\\x100", "\\12", "%"])
            if open_ and c[0] in "abcdef0123456789" or s.below(6) == 0:
                parts.append(cur)
                cur = ""
            cur += c
            open_ = c[:2] == "\\x" or c in ("\\0", "\\12")
        parts.append(cur)
        return s.pick([" ", "", "\n        "]).join('L"%s"' % p for p in parts)

    W, R, b, g = "unsigned short", "wd%d" % n, [], []
    T = lambda: s.pick([W, "const " + W, "WC%d" % n])
    g.append("typedef %s WC%d;" % (W, n))
    out = lambda p, k: "%s(%s, %d);" % (R, p, k)
    for i in range(s.range(2, 5)):
        k = s.pick([0, 1, 2, 3, 4, 7, 15])
        where, v = s.below(3), "wv%d_%d" % (n, i)
        dest = g if where == 0 else b
        st = "" if where == 0 else s.pick(["static ", ""])
        ind = "" if where == 0 else "    "
        kind = s.below(8)
        t = T()
        if kind <= 1:
            x = text(k)
            dest.append("%s%s%s %s[%s] = %s;" % (ind, st, t, v, s.pick(["", "", str(k + 1)] + [str(k + 3)] * (where == 0 or st != "") + [str(k)] * (k > 0)), s.pick(["%s", "{ %s }"]) % x))
            b.append(("    out(sizeof %s); " % v, out(v, k)))
        elif kind == 2:
            dest.append("%s%s%s %s[2][%d] = { %s, %s };" % (ind, st, t, v, k + 1, text(k), text(s.range(0, k + 1))))
            b.append(("    ", out(v + "[0]", k + 1) + " " + out(v + "[1]", k + 1)))
        elif kind == 3:
            dest.append("%s%sstruct { char c; %s w[%d]; const %s *p; int k; } %s = { %d, %s, %s, %d };" % (ind, st if st else "static " * (where != 0), W, k + 1, W, v, s.below(100), text(k), text(k), s.below(1000)))
            b.append(("    out(%s.c); out(%s.k); " % (v, v), out(v + ".w", k + 1) + " " + out(v + ".p", k + 1)))
        elif kind == 4:
            dest.append("%s%sconst %s *%s[] = { %s, %s, 0, %s };" % (ind, st, W, v, text(k), text(2), text(s.below(5)) + " + 1 - 1"))
            b.append(("    out(sizeof %s / sizeof %s[0]); out(!%s[2]); " % (v, v, v), out(v + "[0]", k + 1) + " " + out(v + "[1]", 3) + " " + out(v + "[3]", 1)))
        elif kind == 5:
            b.append(("    ", out(text(k), k + 1) + " out(sizeof %s);" % s.pick(["(%s)", "%s"]).replace("%s", text(k))))
        elif kind == 6:
            b.append(("    ", "out(%s[%d]); out(*(%s + %d));" % (text(k), s.below(k + 1), text(k), s.below(k + 1))))
        else:
            c = s.pick(["L'a'", "L'\\xffff'", "L'\\x1234'", "L'\\n'", "L'\\0'", "L'\\377'", "L'\\777'", "L'\\''", "L'\"'", "L'9'"])
            b.append(("    ", "out(%s); out(%s + 1); out(%s == %s); out(sizeof %s); %s(c ? %s : %s, 3);" % (c, c, c, s.pick(["L'a'", "97", "65535"]), c, R, text(3), text(4))))
    decl = [x for x in b if isinstance(x, str)]
    body = [x[0] + x[1] for x in b if not isinstance(x, str)]
    fn = "\n".join(g) + "\nvoid wide%d(int c) {\n" % n + "\n".join(decl + body) + "\n}\nvoid %s(const %s *p, int k) {\n    while (k-- > 0) out(*p++);\n}" % (R, W)
    return ["void wide%d(int);" % n, "void %s(const %s *, int);" % (R, W)], ["wide%d(%d);" % (n, k) for k in range(s.range(1, 2))], fn, {"wide string"}
