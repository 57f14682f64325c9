"""L08, L11, L13: invalid or suspicious programs, and any text, given to the compiler."""
import re
from pbt import Check, Discard, load_known, run
import cdiag
import cprog
import toolchain
from lccchecks import tail
from lccmore import tokens, glue


def setup():
    n, a = toolchain.build()
    return {"tools": n, "san": a}


# ------------------------------------------------------------------ L11
SOUP = ("auto break case char const continue default do double else enum extern float for goto if int long register return short signed sizeof static struct switch typedef union unsigned void volatile while "
        "a b c x f g main p s T t1 vmMain 0 1 2 4 10 255 65536 0x7fffffff 4294967295u 99999999999999999999 1.5 1e400 .5f 'a' '' 'ab' '\\777' '\\x' \"s\" \"\" \"a\\n\\0b\" L\"w\" "
        "+ - * / % = == != < > <= >= << >> && || ! ~ & | ^ ? : ; , . -> ++ -- ( ) [ ] { } ... += -= *= <<= # ## @ $ \\ ` '").split()
PIECES = ["int a[", "struct s {", "} ;", "switch (a) {", "case 1:", "default:", "sizeof (", "(int)", "typedef int T;", "enum { A, B } ;", "int f(int a, ...)", "int f(a, b) int a; {", "for (;;)", "do { } while (0);", "goto x;", "x:", "return;", "struct s", "union u { int a; char b; }", "int b : 3;",
          "void *p;", "extern int g();", "static struct s t1;", "int a[] = { 1, 2, };", "= { { 1 }, 2 }", "\"abc\" \"def\"", "if (1)", "else", "while (0)", "break;", "continue;", "(*p)(1)", "p->a", "a.b", "a[1]", "x ? 1 :", "const volatile", "unsigned long", "long double", "short int", "# 5 \"f\"\n", "#pragma x\n", "# line\n", "/* c", "*/", "// c\n", "int (*fp)(void);", "int (*fa[3])(int);", "typedef struct s *T;", "struct s { struct s *n; int a : 40; };", "struct { }", "enum e", "int x, x;", "f(f(f(1)))"]


def soup(s, base):
    toks = list(base)
    for _ in range(s.pick([0, 0, 1, 1, 2, 3, 5, 10, 30])):
        i = s.below(len(toks) + 1)
        c = s.below(10)
        if c <= 1 and toks:
            del toks[i:i + s.pick([1, 1, 1, 2, 5, 20])]
        elif c <= 3:
            toks.insert(i, s.pick(SOUP))
        elif c <= 4:
            toks.insert(i, s.pick(PIECES))
        elif c == 5 and toks:
            j = s.below(len(toks))
            toks[i:i] = toks[j:j + s.pick([1, 2, 5, 20])]
        elif c == 6 and toks:
            i, j = s.below(len(toks)), s.below(len(toks))
            toks[i], toks[j] = toks[j], toks[i]
        elif c == 7 and i < len(toks):
            toks[i] = s.pick(SOUP)
        elif c == 8 and i < len(toks):
            toks[i] = s.pick(toks)
        else:
            toks.insert(i, s.pick(["(", "{", "[", "- ", "*", "!", "struct s {", "if (1) ", "x ? ", "(int) ", "a = ", "{ {"]) * s.pick([1, 2, 20, 100, 300]))
    return toks


NULLCHECK = "q3rcc -n aborts (btot: Assertion `0' failed) on *(p->a[0]) where a is an array of arrays: the null check is applied to an array"


def l11(ctx, env):
    s = ctx.src
    c = s.below(6)
    if c == 0:
        toks = [s.pick(PIECES) if s.below(3) == 0 else s.pick(SOUP) for _ in range(s.range(1, 60))]
        ctx.label("random tokens")
    else:
        p = cprog.CProg(s, dict(control=3, aggr=3, ptr=3, calls=2, floats=s.below(3)))
        p.generate(s.range(1, 4), s.range(1, 2), s.range(1, 6), 2)
        toks = soup(s, tokens(cprog.vm_text(p.single())))
        ctx.label("mutated program")
    text = s.pick([" ", " ", "\n"]).join(toks) + s.pick(["\n", "\n", ""])
    if s.below(6) == 5:
        for _ in range(s.pick([1, 3, 10])):
            i = s.below(len(text) + 1)
            k = s.below(3)
            text = text[:i] + text[i + s.pick([1, 3]):] if k == 0 else text[:i] + chr(s.below(256)) * s.pick([1, 1, 5000]) + text[i:] if k == 1 else text[:i] + s.pick(["\"", "'", "/*", "\\", "\n#", "\0", "\x1a", "\xff"]) + text[i:]
        ctx.label("bytes changed")
    opts = s.pick([[], [], [], ["-g"], ["-A"], ["-A", "-A"], ["-w"], ["-e1000000"], ["-s0.01"], ["-x"], ["-P"], ["-n"], ["-g2,x"], ["-d0.3"], ["-nvalid,check"], ["-v"]])
    ctx.say("options %s\n%s" % (opts, text[:6000]))
    ctx.write("t.i", text)
    r = run([env["san"] + "/q3rcc", "-target=bytecode"] + opts + ["t.i", "t.asm"], cwd=ctx.dir, timeout=20)
    err = r.err.decode("latin-1")
    if r.crashed and "-n" in opts and re.search(r"types\.c:\d+: .*btot.*Assertion `0' failed", err) and NULLCHECK in load_known("L11"):
        ctx.known.append(NULLCHECK)
        return
    ctx.check(not r.crashed, "q3rcc crashed or hangs (%d): %s" % (r.rc, err[-2500:]))
    ctx.check(r.rc == 0 or re.search(r"(?m)^(t\.i|.*):(\d+: )?", err) and err.strip(), "failure without a message")
    ctx.label("refused" if r.rc else "accepted")
    ctx.key = text
    ctx.nontrivial = len(text) > 30


# ------------------------------------------------------------------ L08
FTYPE = {"f": "int", "fv": "void", "fi": "int", "fp": "int *", "fs": "struct { int a; }"}


def planted(s, kind, text, tag):
    """lines of a planting and the index of the line with the error"""
    sub = lambda x: re.sub(r"(?<=\w)@", tag, x)
    if kind in FTYPE:
        return ["%s ef%s(void) {" % (FTYPE[kind], tag)] + ["    out(%d);" % i for i in range(s.below(3))] + ["    " + sub(text)] + ["    out(1);"] * s.below(2) + (["    return 0;"] if kind == "f" else []) + ["}"]
    return ["    " + sub(text) if kind == "b" else sub(text)]


def l08(ctx, env):
    s = ctx.src
    p = cprog.CProg(s, dict(control=3, aggr=3, ptr=3, calls=3, floats=s.below(2)))
    p.generate(s.range(1, 4), s.range(1, 3), s.range(1, 6), 2)
    lines = [(l, None) for l in cprog.vm_text(p.single()).rstrip("\n").split("\n")]
    syntax = s.below(5) == 4
    valid = not syntax and s.below(12) == 11
    plants, want = [], []
    nerr = 0 if valid else 1 if syntax else s.pick([1, 1, 1, 2, 3, 5, 8, 25])
    for i in range(nerr + s.pick([0, 1, 2, 5])):
        e = s.pick(cdiag.VALID if i >= nerr else cdiag.SYNTAX if syntax else cdiag.SEMANTIC)
        kind, text, msgs = e[0], e[1], [] if i >= nerr else e[2] if not syntax else None
        tag = "_%d" % i
        new = planted(s, kind, text, tag)
        if kind == "b":
            pos = [j for j in range(1, len(lines)) if lines[j][0].startswith("    ") and re.match(r" +(out\w*\(|return ).*;$", lines[j][0]) and lines[j - 1][0].rstrip()[-1:] in ("{", ";", "}")]
        else:
            pos = [j + 1 for j in range(len(lines)) if lines[j][0] == "}"]
        j = s.pick(pos)
        k = next(n for n, l in enumerate(new) if re.sub(r"(?<=\w)@", tag, text) in l)
        lines[j:j] = [(l, i if n == k else None) for n, l in enumerate(new)]
        plants.append((msgs, tag, text))
    out, fname, no, where = [], None, 1, {}
    for l, i in lines:
        if s.below(25) == 24 or not out and s.below(4):
            fname, no = s.pick(["a.c", "dir/b.h", "xy.c", "../c.c", "a.c"]), s.pick([1, 2, 77, 5000, 100000])
            out.append('# %d "%s"%s' % (no, fname, s.pick(["", "", " 1"])))
        if i is not None:
            where[i] = (fname, no)
        out.append(l)
        no += 1
    text = "\n".join(out) + "\n"
    for i, (msgs, tag, x) in enumerate(plants):
        f, n = where[i]
        at = ("%s:%d" % (f, n)) if f else str(n)
        ctx.say("%s at %s: %s" % ("error" if i < nerr else "valid", at, x))
        want += [] if syntax else ["%s: %s" % (at, re.sub(r"struct defined at [^' ]+", "struct defined at", re.sub(r"(?<=\w)@", tag, m).replace("$", at))) for m in msgs]
    lim = s.pick([None, None, None, 3, 1, 50])
    opts = s.pick([[], [], ["-g"], ["-A"], ["-w"]]) + ([] if lim is None else ["-e%d" % lim])
    lim = 20 if lim is None else lim
    ctx.say("options %s\n%s" % (opts, text))
    ctx.write("t.i", text)
    r = run([env["tools"] + "/q3rcc", "-target=bytecode"] + opts + ["t.i", "t.asm"], cwd=ctx.dir)
    got = [re.sub(r"struct defined at [^' ]+", "struct defined at", l) for l in r.err.decode("latin-1").split("\n") if l and ": warning: " not in l]
    ctx.check(not r.crashed, "q3rcc crashed or hangs (%d): %s" % (r.rc, tail(r)))
    first = re.search(r'(?m)^# \d+ "(.*?)"', text)
    if first:       # messages of other files name the first file, too
        got = [g[len(first[1]) + 2:] if g.startswith(first[1] + ": ") else g for g in got]
    if valid:
        ctx.check(r.rc == 0 and not got, "a valid program is refused (%d): %s" % (r.rc, got))
        ctx.label("valid")
    elif syntax:
        ctx.check(r.rc != 0, "accepted")
        f, n = where[0]
        at = [("%s:%d" % (f, n + d)) if f else str(n + d) for d in (0, 1)]
        nxt = text.split("\n")         # a line directive may follow
        marks = ["%s:%d" % (m[2], int(m[1])) for m in (re.match(r'# (\d+) "(.*?)"', l) for l in nxt) if m]
        ctx.check(got and any(got[0].startswith(a + ": ") for a in at + marks), "first message is not at the error (%s): %s" % (at[0], got[:3]))
        ctx.label("syntax error")
    elif len(want) <= lim:
        ctx.check(r.rc != 0, "accepted")
        ctx.check(sorted(got) == sorted(want), "messages differ; missing %s, additional %s" % ([w for w in want if w not in got][:4], [g for g in got if g not in want][:4]))
        ctx.label("1 error" if nerr == 1 else "2-5 errors" if nerr <= 5 else "more errors")
    else:
        ctx.check(r.rc != 0, "accepted")
        ctx.check(len(got) == lim + 1 and got[-1].endswith(": too many errors") and all(g in want for g in got[:-1]), "with the limit of %d errors: %s" % (lim, [g for g in got if g not in want][:4]))
        ctx.label("too many errors")
    ctx.key = text
    ctx.nontrivial = not valid


# ------------------------------------------------------------------ L13
EDGE = [0, 1, 2, 3, 7, 10, 255, 256, 32767, 32768, 46340, 46341, 65535, 65536, 65537, 1 << 20, 1 << 30, (1 << 30) - 1, 1431655765, (1 << 31) - 2, (1 << 31) - 1]
FEDGE = ["0.0f", "1.0f", "0.5f", "3.0f", "1e19f", "2e19f", "1e-19f", "1e38f", "2e38f", "3e38f", "1e-30f", "1e20f"]


def iconst(v):
    return "(-2147483647 - 1)" if v == -1 << 31 else str(v) if v >= 0 else "(%d)" % v


def constant(s):
    """a constant expression or initialiser, and the warnings it deserves"""
    c = s.below(6)
    if c <= 2:
        val = lambda: s.pick([s.pick(EDGE), -s.pick(EDGE), -1 << 31, s.range(-1 << 31, (1 << 31) - 1), s.range(-70000, 70000)])
        x, y, op = val(), val(), s.pick("+-**/%")
        if op in "+-" and s.below(3) == 0:          # at the limit
            r = s.pick([(1 << 31) - 1, -1 << 31]) + s.range(-1, 1)
            z = r - x if op == "+" else x - r
            y = z if -1 << 31 <= z < 1 << 31 else y
        if op == "*" and s.below(3) == 0 and x:
            z = s.pick([(1 << 31) - 1, -1 << 31]) // x + s.range(-1, 1)
            y = z if -1 << 31 <= z < 1 << 31 else y
        if op in "/%" and s.below(3) == 0:
            x, y = s.pick([-(1 << 31) + 1, (1 << 31) - 1]), -1
        if op in "/%" and y == 0:
            y = 1
        if y == -1 and (op == "%" or x == -1 << 31):     # an error for /
            y = 5
        r = x + y if op == "+" else x - y if op == "-" else x * y if op == "*" else abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1) if op == "/" else 0
        return "{ static int a = %s %s %s; out(a); }" % (iconst(x), op, iconst(y)), [] if -1 << 31 <= r < 1 << 31 else [(0, "overflow in constant expression")]
    if c == 3:
        x, y, op = s.pick(FEDGE), s.pick(FEDGE[1:]), s.pick("+-*/")
        a, b = s.pick([1, -1]), s.pick([1, -1])
        fx, fy = a * float(x[:-1]), b * float(y[:-1])
        r = fx + fy if op == "+" else fx - fy if op == "-" else fx * fy if op == "*" else fx / fy
        return "{ static float a = %s %s %s; outf(a); }" % (x if a > 0 else "(-%s)" % x, op, y if b > 0 else "(-%s)" % y), [] if abs(r) <= 3.4e38 else [(0, "overflow in constant expression")]
    if c == 4:
        t, u, lo, hi = s.pick([("char", "int", -128, 127), ("short", "int", -32768, 32767), ("unsigned char", "unsigned int", 0, 255), ("unsigned short", "unsigned int", 0, 65535)])
        v = s.pick([lo, hi, lo - 1, hi + 1, s.range(lo, hi), s.range(-70000, 70000)])
        if lo == 0 and v < 0:
            v = -v
        return "{ static %s a = %s; out(a); }" % (t, iconst(v)), [] if lo <= v <= hi else [(0, "overflow in converting constant expression from `%s' to `%s'" % (u, t))]
    w, u = s.range(1, 31), s.below(2)
    lo, hi = (0, (1 << w) - 1) if u else (-1 << w - 1, (1 << w - 1) - 1)
    v = max(-1 << 31, min((1 << 31) - 1, s.pick([lo, hi, hi + 1, lo - (not u), s.range(lo, hi)])))
    return "{ static struct { %s a : %d; } x = { %s }; out(x.a); }" % (s.pick(["unsigned", "unsigned int"] if u else ["int", "signed"]), w, iconst(v)), [] if lo <= v <= hi else [(0, "initializer exceeds bit-field width")]


def l13(ctx, env):
    s = ctx.src
    p = cprog.CProg(s, dict(control=3, aggr=3, ptr=3, calls=3, floats=s.below(2)))
    p.generate(s.range(1, 4), s.range(1, 3), s.range(1, 6), 2)
    lines = [(l, None) for l in cprog.vm_text(p.single()).rstrip("\n").split("\n")]
    plants = []
    for i in range(s.pick([1, 1, 2, 3, 6, 15])):
        kind, text, msgs = s.pick(cdiag.WARN)
        if s.below(4) == 3:
            kind, (text, msgs) = "b", constant(s)
        sub = lambda x: re.sub(r"(?<=\w)@", "_%d" % i, x)
        if kind == "b":
            pos = [j for j in range(1, len(lines)) if lines[j][0].startswith("    ") and re.match(r" +(out\w*\(|return ).*;$", lines[j][0]) and lines[j - 1][0].rstrip()[-1:] in ("{", ";", "}")]
        else:
            pos = [j + 1 for j in range(len(lines)) if lines[j][0] == "}"]
        j = s.pick(pos)
        lines[j:j] = [("    " * (kind == "b") + sub(text), i)]
        plants.append([(a, sub(m)) for a, m in msgs])
    out, base, fname, no, want = [], [], None, 1, []
    level = s.pick([0, 0, 1, 2, 2])
    for l, i in lines:
        if s.below(25) == 24 or not out and s.below(4):
            fname, no = s.pick(["a.c", "dir/b.h", "xy.c", "../c.c", "a.c"]), s.pick([1, 2, 77, 5000, 100000])
            out.append('# %d "%s"' % (no, fname))
            base.append(out[-1])
        at = "%s:%d" % (fname, no) if fname else str(no)
        if i is not None:
            want += ["%s: warning: %s" % (at, m.replace("$", at)) for a, m in plants[i] if a <= level]
        out.append(l)
        base.append(l if i is None else "")
        no += 1
    opts = ["-A"] * level + s.pick([[], [], ["-g"], ["-e1"]])
    cc = [env["tools"] + "/q3rcc", "-target=bytecode"] + opts
    ctx.say("options %s; expected\n%s\n\n%s" % (opts, "\n".join(want), "\n".join(out)))
    norm = lambda r: sorted(re.sub(r"struct defined at [^' ]+", "struct defined at", l) for l in r.err.decode("latin-1").split("\n") if l)
    res = []
    for name, ls in (("b.i", base), ("t.i", out)):
        ctx.write(name, "\n".join(ls) + "\n")
        r = run(cc + [name, name + ".asm"], cwd=ctx.dir)
        ctx.check(r.rc == 0, "%s is refused (%d): %s" % (name, r.rc, tail(r)))
        res.append(norm(r))
    if any("unreachable code" in m for m in res[0]):
        raise Discard("unreachable statements in the program around")
    first = next((re.match(r'# \d+ "(.*?)"', l)[1] for l in out if l.startswith("# ")), None)
    if first:       # messages of other files name the first file, too
        res = [sorted(g[len(first) + 2:] if g.startswith(first + ": ") else g for g in m) for m in res]
    exp = sorted([re.sub(r"struct defined at [^' ]+", "struct defined at", w) for w in want] + res[0])
    if res[1] != exp:
        import collections
        a, b = collections.Counter(res[1]), collections.Counter(exp)
        ctx.fail("warnings differ; missing %s, additional %s" % (list((b - a).elements())[:4], list((a - b).elements())[:4]))
    r = run(cc + ["-w", "t.i", "w.asm"], cwd=ctx.dir)
    ctx.check(r.rc == 0 and not r.err and not r.out, "with -w (%d): %s %s" % (r.rc, r.err[:300], r.out[:100]))
    ctx.check(ctx.read("w.asm") == ctx.read("t.i.asm"), "the code depends on -w")
    ctx.label("%d warnings" % min(len(want), 3) + (" or more" if len(want) > 3 else ""))
    ctx.label("-A " * level)
    ctx.key = "\n".join(out) + str(opts)
    ctx.nontrivial = bool(want)


CHECKS = [
    Check("L08", l08, 8000, 60000, "Generated programs with 1-25 violated constraints of %d kinds or one of %d kinds of syntax errors, planted into random blocks of random functions or between functions, with line directives between any lines, options -g -A -w -e; also up to 5 of %d valid forms close to them, and programs without an error. The messages that are not warnings have to be exactly the expected ones with file and line (after a syntax error: the first one in its line or at the next token) and the status a failure. Non-trivial: an error is planted; distinct by text." % (len(cdiag.SEMANTIC), len(cdiag.SYNTAX), len(cdiag.VALID)), setup),
    Check("L11", l11, 2200, 100000, "Generated programs with up to 30 token changes (deleted, inserted, copied, swapped and replaced tokens, deep nesting) or random declarations, statements and tokens, also with changed bytes; random options; under AddressSanitizer. Non-trivial: more than 30 characters; distinct by text.", setup),
    Check("L13", l13, 4000, 60000, "Generated valid programs with 1-15 of %d forms the compiler warns about and %d close to them without a warning, and constant expressions, initialisers and bit-field values at and beyond the limits, planted into random blocks or between functions, with line directives between any lines; at the three levels of -A, with -g and -e, and with -w. The messages have to be those of the program without the forms and exactly the expected ones with file and line; with -w there are none and the code is the same. Non-trivial: a warning is expected; distinct by text and options." % (sum(1 for w in cdiag.WARN if w[2]), sum(1 for w in cdiag.WARN if not w[2])), setup),
]
