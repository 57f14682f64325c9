"""Assembler checks A01-A05: generated assembly against the reference assembler."""
import os, struct
import driver, refasm, toolchain
from pbt import Check, Discard, run

# ------------------------------------------------------------------ generator
PLAIN = [k for k, v in refasm.TABLE.items() if v is not None and v not in ("CONST", "BLOCK_COPY", "SEX", "EQ", "NE") and not v.startswith(("LT", "LE", "GT", "GE", "EQ", "NE"))]
IGNORED = [k for k, v in refasm.TABLE.items() if v is None]
BRANCH = [k for k, v in refasm.TABLE.items() if v and (v[:2] in ("EQ", "NE", "LT", "GT", "GE") or v in ("LEI", "LEU", "LEF"))]
CONSTS = [k for k, v in refasm.TABLE.items() if v == "CONST" and k != "ADDRGP4"]
WORDS = ["a", "b", "foo", "bar", "main", "x1", "_tmp", "Vec", "vec", "data", "code", "byte", "ARG", "CNSTI4", "proc", "LABEL", "equ", "i", "very_long_symbol_name_with_many_characters_in_it_", "s", "S", "e"]


class AsmGen:
    def __init__(self, s, nfiles, funcs=4, spacing=True):
        self.s, self.spacing = s, spacing
        self.names = set()
        self.globals = []           # (name, file): may be used anywhere
        self.locals = [[] for _ in range(nfiles)]
        self.files = []
        plan = []
        for f in range(nfiles):
            items = []
            for _ in range(s.range(1, funcs)):
                items.append((s.weighted([(5, "proc"), (3, "data"), (2, "chars"), (2, "bss"), (2, "equ"), (1, "table")]), s.chance(1, 3)))
            if f == 0:
                items.insert(0, ("proc", False))
            plan.append([(k, self.name(f, loc and k != "equ")) for k, loc in items])
        self.labels = {}
        # code labels of each function, known before any text is made (forward references)
        for f, items in enumerate(plan):
            for n, (k, nm) in enumerate(items):
                if k == "proc":
                    ls = []
                    for _ in range(s.below(4)):
                        l = "$%d" % (len(self.locals[f]) + 1 + s.below(3) * 0)
                        self.locals[f].append(l)
                        ls.append(l)
                    self.labels[f, n] = ls
        for f, items in enumerate(plan):
            self.files.append(self.file(f, items))

    def name(self, f, local):
        s = self.s
        if local:
            n = "$%s%d" % (s.pick(["", "L"]), 1000 + len(self.locals[f]))
            self.locals[f].append(n)
            return n
        n = s.pick(WORDS)
        if s.below(30) == 29:
            n += s.pick("xyz") * s.pick([30, 200, 900]) + "_"
        if n in self.names:
            n += "%d" % len(self.names)
        while n in self.names:
            n += "_"
        self.names.add(n)
        self.globals.append(n)
        return n

    def num(self, lo=None):
        s = self.s
        v = s.i32()
        c = s.below(4)
        if v < 0 and c == 0:
            return str(v + (1 << 32))
        return str(v)

    def sym(self, f):
        s = self.s
        pool = self.globals + self.locals[f]
        n = s.pick(pool)
        for _ in range(s.weighted([(6, 0), (3, 1), (1, 2)])):
            n += s.pick("+-") + str(s.pick([0, 1, 4, 8, 100, 65536, 2147483647, s.below(5000)]))
        return n

    def line(self, *t):
        s = self.s
        if not self.spacing or s.below(4):
            l = " ".join(t)
        else:
            l = s.pick(["", " ", "\t", "  \t "]) + s.pick([" ", "\t", "   ", " \t"]).join(t) + s.pick(["", " ", "\t", "\r"])
        if self.spacing and s.below(12) == 0:
            l += s.pick([" ; a comment", " ;CNSTI4 5", "\t; ; $1", " ;"])
        r = [l]
        if self.spacing and s.below(20) == 0:
            r.append(s.pick(["", "   ", "; whole line", "\t;x", ";"]))
        return r

    def file(self, f, items):
        s = self.s
        out = []
        seg = None
        A = lambda *t: out.extend(self.line(*t))

        def to(x):
            nonlocal seg
            if seg != x or s.below(4) == 0:
                A(x)
            seg = x
        for n, (k, nm) in enumerate(items):
            if s.below(3) == 0:
                A(s.pick(["export", "import"]), s.pick(self.globals))
            if k == "proc":
                to("code")
                self.proc(A, f, nm, self.labels[f, n])
            elif k == "equ":
                to("code")
                A("equ", nm, self.num())
            elif k == "data" or k == "table":
                to("data" if k == "data" else "lit")
                A("align", s.pick(["4", "4", "1", "8", "16"]))
                A("LABELV" if s.below(5) == 0 else "LABEL", nm)
                mixed = s.below(4) == 0
                if mixed and s.below(3) == 0:
                    A("byte", "1", str(s.below(256)))
                    A("skip", "3")
                for _ in range(s.range(1, 6)):
                    c = s.below(6)
                    if mixed and c == 5:
                        for _ in range(s.range(1, 4)):
                            A("byte", "1", str(s.below(256)))
                        A("skip", str(s.below(4)))
                    elif c < 3 and k == "data":
                        A("byte", "4", self.num())
                    elif c == 3 and k == "data":
                        A("skip", str(s.pick([4, 8, 1, 64, 4 * s.below(100)])))
                    else:
                        A("address", self.sym(f))
                seg = "data"
                if s.below(2):
                    A("align", "4")
            elif k == "chars":
                to(s.pick(["lit", "data", "lit"]))
                if s.below(3) == 0:
                    A("align", s.pick(["1", "4"]))
                A("LABEL", nm)
                for _ in range(s.range(1, 9)):
                    A("byte", "1", str(s.pick([0, 65, 255, -1, s.range(-128, 255), 300])))
                    if s.below(12) == 0:
                        A("skip", str(s.below(9)))
                seg = "lit"
            else:
                to("bss")
                A("align", s.pick(["4", "1", "2", "8"]))
                A("LABEL", nm)
                A("skip", str(s.pick([1, 4, 12, 100, 1024, s.below(70000)])))
        text = "\n".join(out)
        return text + ("\n" if s.below(5) else "")

    def proc(self, A, f, nm, labels):
        s = self.s
        nl = s.pick([0, 4, 8, 12, 20, 1, 3, 40 + s.below(2000), 30000])
        na = s.pick([0, 4, 8, 16, 64, 5])
        A("proc", nm, str(nl), str(na))
        todo = list(labels)
        nargs = 0
        for _ in range(s.range(0, 14)):
            c = s.below(16)
            if c == 0:
                A(s.pick(CONSTS), self.num())
            elif c == 1:
                A(s.pick(CONSTS + ["ADDRGP4"]), self.sym(f))
            elif c == 2:
                A("ADDRL" + s.pick(["P4", "", "F4"]), s.pick([str(4 * s.below(16)), str(s.below(2000)), "%d+%d" % (s.below(64), s.below(64)), "%d-%d" % (s.below(64), s.below(64)), "-" + str(s.below(20))]))
            elif c == 3:
                A("ADDRF" + s.pick(["P4", ""]), s.pick([str(4 * s.below(16)), "%d+%d" % (s.below(64), s.below(64))]))
            elif c == 4:
                if nargs < 62:
                    A("ARG" + s.pick(["I4", "F4", "P4", "U4"]))
                    nargs += 1
            elif c == 5:
                A("CALL" + s.pick(["I4", "F4", "P4", "U4", "V"]))
                nargs = 0
            elif c == 6:
                A(s.pick(["RETI4", "RETF4", "RETP4", "RETU4", "RETV", "pop"]))
            elif c == 7:
                A(s.pick(BRANCH), s.pick(labels) if labels else self.sym(f))
            elif c == 8:
                A("ASGNB", str(s.pick([4, 8, 1, 2, 3, 5, s.below(5000)])))
            elif c == 9:
                A("CVII4", s.pick(["1", "2"]))
            elif c == 10:
                A(s.pick(["CVIF4", "CVFI4"]), "4")
            elif c == 11:
                A(s.pick(IGNORED), *([s.pick(["1", "2", "4"])] if s.below(2) else []))
            elif c == 12 and todo:
                A("LABELV", todo.pop(0))
            elif c == 13:
                A(s.pick(["line", "file", "import"]), s.pick(["5", '"x.c"', "foo"]))
            else:
                A(s.pick(PLAIN))
        for l in todo:
            A("LABELV", l)
        if nargs:
            A("CALLV")      # arguments belong to a call: the compiler never leaves them without one
        A("endproc", nm, str(nl), str(na))


# ------------------------------------------------------------------ running
def asm(ctx, env, args, san=False, **kw):
    return run([env["san" if san else "tools"] + "/q3asm"] + args, cwd=ctx.dir, **kw)


def setup():
    a, b = toolchain.build()
    return {"tools": a, "san": b}


def diff(ctx, want, got):
    if got is None:
        ctx.fail("no image was written")
    if got == want.bytes:
        return
    h = struct.unpack("<8I", got[:32]) if len(got) >= 32 else ()
    w = struct.unpack("<8I", want.bytes[:32])
    for n, x, y in zip(("magic", "instruction count", "code offset", "code length", "data offset", "data length", "lit length", "bss length"), w, h):
        ctx.check(x == y, "header: %s is %d, expected %d" % (n, y, x))
    k = next((i for i in range(min(len(got), len(want.bytes))) if got[i] != want.bytes[i]), min(len(got), len(want.bytes)))
    sec = "code" if k < w[4] else "data" if k < w[4] + w[5] else "lit"
    off = k - {"code": 32, "data": w[4], "lit": w[4] + w[5]}[sec]
    ctx.fail("the %s section differs at byte %d: %s, expected %s (file lengths %d, expected %d)" % (sec, off, got[k:k + 8].hex(), want.bytes[k:k + 8].hex(), len(got), len(want.bytes)))


def show(ctx, files):
    for n, t in files:
        ctx.say("--- %s\n%s" % (n, t))


def assemble_ok(ctx, env, files, args, san=False):
    for n, t in files:
        ctx.write(n, t)
    r = asm(ctx, env, args, san)
    ctx.check(not r.crashed, "q3asm crashed (%d): %s" % (r.rc, r.err[-600:].decode("latin-1")))
    ctx.check(r.rc == 0, "q3asm failed with %d on valid input: %s" % (r.rc, (r.out + r.err)[-600:].decode("latin-1")))
    return r


def a01(ctx, env):
    s = ctx.src
    g = AsmGen(s, 1, funcs=8)
    files = [("m.asm", g.files[0])]
    show(ctx, files)
    want = refasm.assemble(files)
    assemble_ok(ctx, env, files, ["-o", "m", "m"])
    diff(ctx, want, ctx.read("m.qvm"))
    ctx.key = g.files[0]
    ctx.nontrivial = want.icount >= 8
    for w in set(g.files[0].split()):
        if w in refasm.TABLE:
            ctx.label("op " + w)


def a02(ctx, env):
    s = ctx.src
    big = s.below(12) == 11
    n = s.range(6, 40) if big else s.range(2, 5)
    g = AsmGen(s, n, funcs=2 if big else 3, spacing=s.below(3) == 0)
    files = [("f%d.asm" % i, t) for i, t in enumerate(g.files)]
    show(ctx, files)
    want = refasm.assemble(files)
    args = ["-o", "out"]
    b = s.below(4)
    if b:
        args += ["-b", str(s.pick([1, 2, 3, 7, 64, 2048, 100000]))]
        ctx.label("-b")
    assemble_ok(ctx, env, files, args + [x[0] for x in files], san=s.below(8) == 7)
    diff(ctx, want, ctx.read("out.qvm"))
    ctx.key = "".join(g.files)
    loc = sum(1 for l in g.locals if l)
    if loc > 1:
        ctx.label("local names in several files")
    ctx.nontrivial = len(g.globals) >= 3
    ctx.label("%d files" % n if n < 6 else "6-40 files")


# one erroneous line (or two) and the number of places that must be reported
def bad_lines(s, g, f):
    k = s.below(13)
    g.bad = getattr(g, "bad", 0) + 1
    u = g.bad
    if k == 0:
        return "undefined symbol", ["ADDRGP4 undefined_%d" % u]
    if k == 1:
        return "undefined label", ["EQI4 $undef%d" % u]
    if k == 2:
        n = "dup_%d" % u
        return "duplicate symbol", ["LABELV " + n, "LABELV " + n]
    if k == 3:
        return "unknown token", [s.pick(["FOO", "CNSTI8 5", "ADDI8", "Proc", "ADDI", "PUSH", "cnsti4 5", "bytes 1 2", "#x"])]
    if k == 4:
        return "bad sign extension", ["CVII4 " + s.pick(["4", "3", "", "x"])]
    if k == 5:
        return "undefined opcode", [s.pick(refasm.UNDEFINED)]
    if k == 6:
        return "16 bit data", ["byte 2 %d" % u]
    if k == 7:
        return "large frame", ["proc big_%d %d %d" % ((u,) + s.pick([(32760, 0), (40000, 0), (20000, 20000), (20000, 12760), (20000, 12757), (0, 32760), (4, 32756), (100000, 100000)]))]
    if k == 8:
        return "too many arguments", ["ARGI4"] * (63 + s.below(3))
    if k == 9:
        return "undefined address", ["address nowhere_%d" % u]
    if k == 10:
        return "undefined in expression", ["CNSTI4 nothing_%d+4" % u]
    if k == 11:
        return "duplicate equ", ["equ deq%d 4" % u, "equ deq%d 5" % u]
    return "missing operand", [s.pick(["ADDRLP4", "ADDRFP4", "address"])]


def a03(ctx, env):
    s = ctx.src
    n = s.range(1, 3)
    g = AsmGen(s, n, funcs=2, spacing=False)
    files = [["f%d.asm" % i, t.rstrip("\n").split("\n")] for i, t in enumerate(g.files)]
    old = s.below(2) == 1
    if old:
        ctx.write("out.qvm", b"old image")
    kind = s.below(6)
    count = 1 if kind < 3 else s.range(2, 6) if kind < 5 else s.pick([128, 256, 255, 257, 64, 512, 85])
    expect = set()
    names = [x[0] for x in files]
    cmd = s.below(10)
    if cmd == 1:
        # an error of the command line or of the list file
        w = s.pick(["no operand", "no operand", "unknown option", "table size", "no list", "list without quote", "list with missing file", "list with a long word", "no input"])
        ctx.label("command line: " + w)
        before = [o for o in (["-o", "out"], ["-v"], ["-m"], ["-vq3"], ["-b", "64"]) if s.below(3) == 0]
        before = [a for o in before for a in o]
        if w == "no operand":
            args = before + [s.pick(["-o", "-f", "-b"])]
        elif w == "unknown option":
            args = before + [s.pick(["-x", "-", "--", "-q3", "-oout", "-F", "--output", "-bb", "-mm"])] + names
        elif w == "table size":
            args = before + ["-b", s.pick(["0", "-1", "x", "", "-2147483648"])] + names
        elif w == "no list":
            args = before + ["-f", "nosuch"] + (names if s.below(2) else [])
        elif w == "no input":
            args = before
        else:
            x = {"list without quote": '"%s' % s.pick([names[0], "", "a b"]), "list with missing file": s.pick(["nosuch", '"no such"', "f0.asm.asm"]), "list with a long word": s.pick(["%s", '"%s"']) % ("q" * s.pick([1024, 1025, 2000, 5000]))}[w]
            l = list(names)
            l.insert(len(l) if w == "list without quote" else s.below(len(l) + 1), x)
            ctx.write("l.q3asm", s.pick(["", "-o out\n"]) + s.pick(["\n", " "]).join(l) + "\n")
            args = before + ["-f", s.pick(["l", "l.q3asm"])]
            ctx.say("list: %s" % ctx.read("l.q3asm").decode("latin-1")[:300])
        count = 1
        ctx.say("q3asm " + " ".join(args))
        files = [(x[0], "\n".join(x[1]) + "\n") for x in files]
    elif cmd == 0:
        # a missing input file
        ctx.label("missing file")
        args = ["-o", "out"] + [x[0] for x in files] + ["nosuch.asm"]
        files = [tuple((x[0], "\n".join(x[1]) + "\n")) for x in files]
    else:
        if count > 60:   # many errors of one kind, so that the exact number is known to vary over 256
            w, ls = s.pick([("undefined symbol", "ADDRGP4 u_%d"), ("unknown token", "FOO%d"), ("undefined label", "EQI4 $u_%d")])
            f = s.below(n)
            at = len(files[f][1])
            files[f][1][at:at] = [ls % i for i in range(count)]
            expect.add((f, None))
            ctx.label("many: " + w)
        else:
            for _ in range(count):
                f = s.below(n)
                w, ls = bad_lines(s, g, f)
                at = s.range(1, len(files[f][1]))
                # segment of this place matters for data lines only; labels can go anywhere
                files[f][1][at:at] = ["code"] + ls + (["code"] if True else [])
                ctx.label(w)
                if w != "missing operand":      # the empty name is reported once only
                    expect.add((f, None))
        files = [(x[0], "\n".join(x[1]) + "\n") for x in files]
        args = ["-o", "out"] + [x[0] for x in files]
    if s.below(4) == 0:
        args.insert(0, "-m")
    show(ctx, files)
    for a, b in files:
        ctx.write(a, b)
    if cmd == 1:
        r = asm(ctx, env, args, san=s.below(3) == 0)
        ctx.check(not r.crashed, "q3asm crashed (%d): %s" % (r.rc, r.err[-600:].decode("latin-1")))
        ctx.check(r.rc != 0 , "q3asm ended with exit status 0: " + (r.out + r.err)[-300:].decode("latin-1"))
        ctx.check(len(r.err + r.out) > 0, "no message")
        q = [f for f in os.listdir(ctx.dir) if f.endswith(".qvm") and not (f == "out.qvm" and ctx.read(f) == b"old image")]
        ctx.check(not q, "an image was written: %s" % q)
        ctx.key = "".join(x[1] for x in files) + str(args)
        ctx.nontrivial = True
        return
    r = asm(ctx, env, args, san=count < 60 and s.below(6) == 0)
    ctx.check(not r.crashed, "q3asm crashed (%d): %s" % (r.rc, r.err[-600:].decode("latin-1")))
    ctx.check(r.rc != 0, "q3asm ended with exit status 0 although the input has errors: " + (r.out + r.err)[-300:].decode("latin-1"))
    img = ctx.read("out.qvm")
    ctx.check(img is None or img == b"old image", "an image was written although the input has errors")
    ctx.check(len(r.err + r.out) > 0, "no message")
    for f, _ in expect:
        ctx.check(b"f%d.asm:" % f in r.err, "no message names the file f%d.asm: %s" % (f, r.err[-300:].decode("latin-1")))
    ctx.key = "".join(x[1] for x in files) + str(args)
    ctx.nontrivial = True
    ctx.label("errors: %s" % ("1" if count == 1 else "2-6" if count < 60 else "64-512"))


HOSTILE = ["", " ", "\t", ";", "$", "$1", "-", "+", "0", "-1", "4294967295", "2147483648", "99999999999999999999", "a", "a+", "a+b", "a-4", "+4", "\x80\xff", "1000000", "-1000000",
           "byte", "skip", "align", "address", "proc", "endproc", "LABELV", "equ", "code", "data", "lit", "bss", "ARGI4", "CALLV", "RETV", "pop", "ADDRLP4", "ADDRFP4", "CVII4",
           "ASGNB", "CNSTI4", "JUMPV", "EQI4", "LOADB4", "BREAK", "import", "export", "line", "file", "x" * 200]
# tokens whose hash is 0x80000000, the one value that has no absolute value in 32 bits
MINHASH = ["xXQnWb", "NIvO7b"]


def hostile_line(s, base):
    k = s.below(10)
    if k < 4:
        return s.pick(base)
    if k < 7:
        return " ".join(s.pick(HOSTILE) for _ in range(s.range(1, 4)))
    if k == 7:
        l = s.pick(base)
        if not l:
            return l
        at = s.below(len(l))
        return l[:at] + s.pick([chr(s.below(256)).replace("\n", "x"), s.pick(HOSTILE), ""]) + l[at + s.below(4):]
    if k == 8:
        return s.pick(["skip ", "align ", "byte 4 ", "byte ", "proc p ", "skip -"]) + s.pick(["0", "1", "3", "-1", "-4", "4", "16777216", "4194304", "4194300", "2147483647", "-2147483648", "100000000", "1000000000"]) + s.pick(["", " 4", " -4", " 0"])
    return s.pick([s.pick(MINHASH), "LABELV " + s.pick(MINHASH), "x" * s.pick([1020, 1022, 1023, 1024, 1025, 3000]), "ADDRGP4 " + "y" * s.pick([1000, 1013, 1014, 1015, 1016]), "LABELV " + "$" * s.pick([3, 1000, 1015]), "ARGI4\n" * 70])


def a04(ctx, env):
    s = ctx.src
    n = s.range(1, 3)
    g = AsmGen(s, n, funcs=2)
    files = []
    for i, t in enumerate(g.files):
        base = t.split("\n")
        k = s.below(6)
        lines = list(base) if k else []
        for _ in range(s.range(1, 8)):
            at = s.below(len(lines) + 1)
            c = s.below(4)
            if c == 0 and lines:
                del lines[at:at + s.range(1, 3)]
            elif c == 1 and lines:
                a = s.below(len(lines))
                lines[a:a] = lines[at:at + 3]
            else:
                lines.insert(at, hostile_line(s, base))
        t = "\n".join(lines) + ("\n" if s.below(2) else "")
        if s.below(8) == 0 and t:
            at = s.below(len(t))
            t = t[:at] + "\0" + t[at:]
        files.append(("f%d.asm" % i, t))
    show(ctx, files)
    for a, b in files:
        ctx.write(a, b)
    args = ["-o", "out"]
    k = s.below(8)
    if k == 0:
        args += ["-m"]
    if k == 1:
        args += ["-b", s.pick(["1", "0", "-5", "17", "x", "100"])]
    names = [x[0] for x in files]
    if k == 2:   # an option file with any content
        ws = names + s.pick([[], ["-o"], ["-o", "out2"], ['"quoted name'], ["// comment"], ["{", "}", "(", ":"], ["w" * s.pick([1020, 1023, 1024, 1025, 5000])], ["a.asm"] * s.pick([250, 255, 256, 257, 300])])
        ctx.write("l.q3asm", s.pick(["\n", " ", "\n\n", "\t"]).join(ws))
        args += ["-f", "l"]
        names = []
        ctx.say("--- l.q3asm\n" + " ".join(ws)[:2000])
        ctx.label("option file")
    ctx.say(" ".join(args + names))
    r = asm(ctx, env, args + names, san=True)
    ctx.check(r.rc != -24, "q3asm does not come to an end")
    ctx.check(not r.crashed, "q3asm crashed (%d): %s" % (r.rc, r.err[:1500].decode("latin-1")))
    img = ctx.read("out.qvm") or ctx.read("out2.qvm")
    if r.rc == 0:
        ctx.label("accepted")
        ctx.check(img is not None, "exit status 0 but no image")
        h = struct.unpack("<8I", img[:32])
        ctx.check(h[0] == 0x12721444 and h[2] == 32 and h[4] == 32 + h[3] and len(img) == h[4] + h[5] + h[6], "exit status 0 but the image is malformed: %s, %d bytes" % (h, len(img)))
    else:
        ctx.label("refused")
        ctx.check(img is None, "exit status %d but an image was written" % r.rc)
        ctx.check(r.err or r.out, "refused without a message")
    ctx.key = "".join(x[1] for x in files) + str(args)
    ctx.nontrivial = True


def a05(ctx, env):
    s = ctx.src
    n = s.range(1, 4)
    g = AsmGen(s, n, funcs=3, spacing=False)
    stems = ["f%d" % i for i in range(n)]
    sub = s.pick(["", "sub/", "sub.dir/"])
    files = [(sub + "f%d.asm" % i, t) for i, t in enumerate(g.files)]
    show(ctx, files)
    want = refasm.assemble(files)
    for a, b in files:
        ctx.write(a, b)
    out = s.pick(["out", "out.qvm", "out.x", "./out", "d.e/out", "deep/er/out.qvm"])
    stem = out[:-4] if out.endswith(".qvm") else out[:-2] if out.endswith(".x") else out
    os.makedirs(os.path.join(ctx.dir, "d.e"), exist_ok=True)
    os.makedirs(os.path.join(ctx.dir, "deep/er"), exist_ok=True)
    opts = []
    verbose = s.below(2)
    mapf = s.below(2)
    if verbose:
        opts.append(["-v"])
    if mapf:
        opts.append(["-m"])
    if s.below(3) == 0:
        opts.append(["-vq3"])
    if s.below(3) == 0:
        opts.append(["-b", str(s.pick([1, 5, 64, 4096]))])
    args = []
    names = [sub + x + s.pick(["", ".asm"]) for x in stems]
    k = s.below(4)
    use_o = s.below(5) > 0
    if k == 0 and use_o or k:
        pass
    if k == 1:       # everything in the list file
        t = ""
        if use_o:
            t += s.pick(["-o %s\n", "-o \"%s\"\n", "// comment\n-o\t%s "]) % out
        t += s.pick(["\n", " ", "\n// note\n", "\r\n"]).join(names) + "\n"
        ctx.write("list.q3asm", t)
        opts.append(["-f", s.pick(["list", "list.q3asm"])])
        ctx.say("--- list.q3asm\n" + t)
        tail = []
    elif k == 2 and n > 1:   # some in the list file, the rest on the command line
        ctx.write("list.q3asm", "\n".join(names[:1]) + "\n")
        opts.append(["-f", "list"])
        tail = names[1:]
        if use_o:
            opts.append(["-o", out])
    else:
        tail = names
        if use_o:
            opts.append(["-o", out])
    # options in any order
    while opts:
        args += opts.pop(s.below(len(opts)))
    args += tail
    if not use_o:
        stem = "q3asm"
    ctx.say("q3asm " + " ".join(args))
    r = asm(ctx, env, args)
    ctx.check(not r.crashed and r.rc == 0, "q3asm failed (%d): %s" % (r.rc, (r.out + r.err)[-400:].decode("latin-1")))
    diff(ctx, want, ctx.read(stem + ".qvm"))
    if not verbose:
        ctx.check(not r.out and not r.err, "output without -v: %r" % (r.out + r.err)[:200])
    m = ctx.read(stem + ".map")
    ctx.check((m is not None) == bool(mapf), "map file %s" % ("missing" if mapf else "written without -m"))
    if mapf:
        ctx.label("map")
        got = []
        for l in m.decode("latin-1").splitlines():
            p = l.split()
            ctx.check(len(p) == 3, "map line %r" % l)
            got.append((int(p[0]), int(p[1], 16), p[2]))
        mine = sorted((sv[0], sv[1] & 0xffffffff, nm) for nm, sv in want.syms.items() if not nm.startswith("$"))
        gs = sorted(x for x in got if x[2] not in ("_stackStart", "_stackEnd"))
        ctx.check(gs == mine, "map entries differ: %s" % sorted(set(gs) ^ set(mine))[:6])
        for seg in range(4):
            v = [refasm.signed(x[1]) for x in got if x[0] == seg and x[2] not in ("_stackStart", "_stackEnd")]
            ctx.check(v == sorted(v), "the map is not sorted by value in segment %d" % seg)
        st = {x[2]: x[1] for x in got if x[2].startswith("_stack")}
        ctx.check(st == {"_stackStart": want.bssUsed, "_stackEnd": want.bssUsed + 0x10000}, "stack symbols in the map: %s" % st)
    # again: the same bytes
    one = ctx.read(stem + ".qvm")
    r = asm(ctx, env, args)
    ctx.check(r.rc == 0 and ctx.read(stem + ".qvm") == one, "assembling again gives another image")
    ctx.key = "".join(g.files) + str(args)
    ctx.nontrivial = len(args) >= 2
    for a in args:
        if a.startswith("-"):
            ctx.label(a)
    # the interpreter accepts every image whose branches are in range
    ok = True
    if s.below(4) == 0:
        ctx.label("list/command line mix" if k == 2 else "plain")


CHECKS = [
    Check("A01", a01, 36000, 400000, "One generated source file: procedures with every operator, operands, local/argument addressing, labels, data, literals, bss, equ, comments and white space; the whole image must equal the "
          "one of an independent reference assembler. Non-trivial: at least 8 instructions; distinct by source text.", setup),
    Check("A02", a02, 20000, 250000, "2 to 5 generated files referring to each other's global symbols and to equally named file-local labels, forward and backward, with offsets, in all segments, with any hash table size; image equal to the "
          "reference. Non-trivial: at least 3 global symbols; distinct by text.", setup),
    Check("A03", a03, 30000, 250000, "Valid generated files with 1..512 planted errors of 13 kinds or a missing input: non-zero exit status, a message naming the file, and no image. Every case is non-trivial; distinct by text and options.", setup),
    Check("A04", a04, 12000, 200000, "Mutated and hostile text (odd tokens, cut lines, huge or negative sizes, long lines, NUL bytes, option files with any content) under AddressSanitizer: no crash or hang; an image exists exactly if the exit "
          "status is 0, and then it is well-formed. Every case is non-trivial; distinct by text.", setup),
    Check("A05", a05, 14000, 150000, "Command lines and list files in every arrangement of options, with and without extensions and directories; image, map file (names, segments, values, order, stack symbols), silence and repeatability. "
          "Non-trivial: at least two arguments; distinct by text and arguments.", setup),
]
