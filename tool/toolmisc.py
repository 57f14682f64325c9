"""L12 compiler driver; H01 interpreter program; B01 C library of the examples."""
import os, re, shutil, struct
from concurrent.futures import ThreadPoolExecutor
from pbt import Check, Discard, Result, run
import toolchain
import refasm


def setup():
    n, a = toolchain.build()
    return {"tools": n, "san": a}


# ------------------------------------------------------------------ L12
FIXED = ["-D__STDC__=1", "-D__STRICT_ANSI__", "-D__signed__=signed", "-DQ3_VM"]
MACROS = ["NUM", "MODE", "LIMIT", "Q3_VM", "__LCC__", "NAME"]


def source(s, hdr, bad):
    """a program whose meaning depends on macros and headers"""
    l = []
    if hdr:
        l.append('#include %s' % s.pick(['"h.h"', "<h.h>"]))
    l += ["#ifdef %s\nint v_%s = %s;\n#else\nfloat n_%s;\n#endif" % (m, m, m if m not in ("Q3_VM", "__LCC__") else "1", m) for m in s.pick([MACROS, MACROS[:3], MACROS[3:]])]
    l.append("int f%d(int a, int b) { int i; for (i = 0; i < a; i++) { if (b > i) b += %s; else b -= %d; } %sreturn b; }" % (s.below(50), "__LINE__" if s.below(2) else str(s.below(100)), s.below(9), "switch (a) { case 1: return 1; case 2: return 5; case 3: return 8; case %d: return 2; } " % s.pick([4, 6, 12, 40]) if s.below(2) else ""))
    l.append('char *file = __FILE__;' if s.below(3) == 0 else "static int unused;")
    b = {0: None, 1: "#error stop", 2: "int x = undeclared;", 3: '#include "missing.h"', 4: "int f( {", 5: "int a[2] = { 1, 2, 3 };"}[bad]
    if b:
        l.insert(s.below(len(l) + 1), b)
    return "\n".join(l) + "\n"


WRAP = """#!/bin/sh
# stands for %s: fails on the file that holds the mark
ulimit -c 0
for a; do
    case "$a" in *.c|*.i|*lcc*) f="$a"; test -f "$a" && grep -q faulty_mark "$a" && hit=1;; esac
done
test -n "$hit" || exec "%s" "$@"
%s
"""


def faulty(s, d, tools):
    """a directory of tools one of which ends badly on the marked file"""
    fake = d + "/fake" + s.pick(["", " dir"])
    os.makedirs(fake)
    os.symlink(tools + "/lcc", fake + "/lcc")
    bad = s.pick(["q3cpp", "q3rcc", "q3rcc"])
    k = s.pick(["signal", "signal", "exit", "interrupt", "missing"])
    for t in ("q3cpp", "q3rcc"):
        real = tools + "/" + t
        if t != bad:
            os.symlink(real, fake + "/" + t)
        elif k != "missing":
            x = '"%s" "$@"\n' % real if k == "interrupt" or s.below(2) else ""
            if k == "signal":
                x += "kill -%s $$" % s.pick(["KILL", "SEGV", "TERM", "ABRT", "FPE", "INT"])
                x += "\nexit 1"                # the signal may be ignored here
            elif k == "exit":
                x += "exit %d" % s.pick([1, 2, 3, 64, 100, 127, 128, 200, 254, 255])
            else:
                x += 'test -n "$REFERENCE" && exit 77\nkill -TERM $PPID\nexit 0'
            with open(fake + "/" + t, "w") as h:
                h.write(WRAP % (t, real, x))
            os.chmod(fake + "/" + t, 0o755)
    return fake, bad, k


def snapshot(d):
    r = {}
    for base, ds, fs in os.walk(d):
        if os.path.basename(base).startswith("fake"):
            continue
        for f in fs:
            p = os.path.join(base, f)
            if not os.path.exists(p):       # a link to a tool that is not there
                continue
            with open(p, "rb") as h:
                r[os.path.relpath(p, d)] = h.read()
    return r


def l12(ctx, env):
    s = ctx.src
    tools = env[s.pick(["tools", "tools", "tools", "san"])]
    d = ctx.dir
    cwd = s.pick(["w", "w", "w/in ner"])
    os.makedirs(d + "/" + cwd)
    fault = None
    if s.below(7) == 6:
        tools, badtool, fault = faulty(s, d, tools)
        ctx.label("a step ends badly: " + fault)
    os.makedirs(d + "/empty")
    for i, x in enumerate(["inc1", "inc2", "in c3"]):
        if s.below(4):
            ctx.write(x + "/h.h", "int from_%d;\n#ifdef NUM\n#define MODE NUM + 1\n#endif\n" % i)
    # inputs
    nf = s.pick([1, 1, 1, 1, 2, 3, 5])
    inputs, used = [], set()
    hdr = s.below(3) == 0
    for i in range(nf):
        bad = s.pick([0, 0, 0, 0, 0, 0, 0, 1, 2, 3, 4, 5, 6])
        kind = s.pick([".c", ".c", ".c", ".c", ".i"])
        name = s.pick(["", "", "sub/", "sub/d.d/", "./", "../" if cwd == "w" else "../../", "a b/"]) + "%s%d" % (s.pick(["f", "my.file", "x-", "c.c", "A", ".hid", "z_"]), i) + kind
        if s.below(25) == 24:
            name = "q" * s.pick([100, 200]) + str(i) + kind
        if s.below(12) == 11:
            name = os.path.abspath(os.path.join(d, cwd, name))
        if s.below(40) == 39:
            name = "".join("%s/" % ("p" * 200) for _ in range(s.pick([2, 4, 5, 6, 8]))) + name.split("/")[-1]
        if bad == 6:
            ctx.label("missing input")
        else:
            p = os.path.normpath(os.path.join(d, cwd, name))
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if fault:
                bad = 0
            t = source(s, hdr and kind == ".c", 0 if kind == ".i" and bad in (1, 3) else bad)
            if kind == ".i":
                t = re.sub(r"(?m)^#.*\n", "", t).replace("= NUM", "= 1")
                t = "int k%d(void) { return %d; }\n" % (i, i) + ("int x = undeclared;\n" if bad in (2, 4, 5) else "")
            if fault and s.below(2):
                t += "int faulty_mark;\n"
            with open(p, "w") as h:
                h.write(t)
        inputs.append((name, kind, bad == 6))
    # options
    pl, cl, args, notes = [], [], [], []
    for _ in range(s.pick([0, 1, 2, 4, 8])):
        k = s.below(15)
        if k <= 2:
            o = s.pick(["-D", "-D", "-D", "-U"]) + s.pick(MACROS)
            if o[1] == "D":
                o += s.pick(["", "=1", "=0x10", "=(1+2)", "=NUM2", "=-5"])
            pl.append(o)
        elif k <= 4:
            o = "-I" + s.pick(["../inc1", "../inc2", "../in c3", "../nodir", d + "/inc1"]) if cwd == "w" else "-I" + d + "/" + s.pick(["inc1", "inc2", "in c3"])
            pl.append(o)
        elif k == 5:
            x = s.pick(["-DNUM=7", "-UNUM", "-DMODE=3", "-V"])
            if x == "-V":
                x = "-DNAME=2"
            o = "-Wp" + x
            pl.append(x)
        elif k <= 7:
            x = s.pick(["-g", "-A", "-w", "-n", "-P", "-s0.01", "-target=bytecode", "-e3", "-g0", "-v"])
            o = "-Wf" + x
            cl.append(x)
        elif k == 8:
            o = s.pick(["-A", "-w", "-n", "-P"])
            cl.append(o)
        elif k == 9:
            o = s.pick(["-d0.01", "-d0.9", "-d1"])
            cl.append("-s" + o[2:])
        elif k == 10:
            o = "-g"
            cl.append("-g2")
        elif k == 11:
            o = s.pick(["-S", "-S", "-c", "-O", "-p9", "-Wo-static", "-xyz", "-static", "-G", "-W", "-Wx", "-q"])
        elif k == 12:
            o = "-target=bytecode" if s.below(2) else "-target"
            if o == "-target":
                args += [o] + ([s.pick(["bytecode", "x86/linux"])] if s.below(2) else ["-S"])
                continue
            cl.append(o)
        elif k == 13:
            x = tools if s.below(2) else tools + "/../" + os.path.basename(tools)
            o = "-Wo" + s.pick(["-lcppdir=", "-lrccdir="]) + x
        else:
            o = s.pick(["-S", "-w"])
            if o == "-w":
                cl.append(o)
        args.append(o)
    pre = s.below(8) == 7
    out = s.pick([None, None, "out.asm", "../o.asm", "./x y.s", "noext"])
    if out and not (nf == 1):
        ctx.label("-o with several files")
    verbose = s.pick([0] * 8 + [1, 2])
    args += ["-E"] * pre + ["-v"] * verbose + ["-t" + s.pick(["", "trace"])] * (s.below(20) == 19)
    if verbose:
        cl_v = ["-v"]
    if any(a in ("-t", "-ttrace") for a in args):
        cl.append([a for a in args if a in ("-t", "-ttrace")][0])
    long = ""
    for x in range(s.below(3) // 2):
        long = "x" * s.pick([50, 300, 900, 1010, 1100, 3000])
    tdir = d + "/tmp" + s.pick(["", "", "", " dir", "/" + "/".join(["t" * 200] * 2), "/" + "/".join(["t" * 200] * 5)])
    os.makedirs(tdir)
    e = {"TMP": "", "TEMP": "", "TMPDIR": "", "LCCDIR": "", "LCCINPUTS": ""}
    envd = {}
    if s.below(4) == 3:
        args.append("-tempdir=" + tdir)
        envd["TMP"] = d + "/empty"
    else:
        v = s.pick(["TMP", "TEMP", "TMPDIR"])
        envd[v] = tdir + s.pick(["", "/", "//"])
        for w in ("TMP", "TEMP", "TMPDIR")[("TMP", "TEMP", "TMPDIR").index(v) + 1:]:
            if s.below(2):
                envd[w] = d + "/empty"
    incl = []
    if s.below(6) == 5:
        x = tools
        if s.below(3) == 2:
            os.makedirs(d + "/L " + long[:200] if long else d + "/L", exist_ok=True)
            x = d + "/L " + long[:200] if long else d + "/L"
            for t in ("q3cpp", "q3rcc"):
                os.symlink(tools + "/" + t, x + "/" + t)
            ctx.write(os.path.relpath(x, d) + "/include/h.h", "int from_lccdir;\n")
        if s.below(2):
            envd["LCCDIR"] = x
        else:
            args.append("-Wo-lccdir=" + x)
        incl = ["-I" + x + "/include"]
        ctx.label("-lccdir")
    if long:
        pl.append("-DNAME=1+" + "1" * len(long) if len(long) < 400 else "-I" + long)
        args.append(pl[-1])
    # place options around the files: all of them are processed first
    cmdline, rest = [], [n for n, _, _ in inputs]
    for a in args:
        if rest and not cmdline[-1:] == ["-target"] and s.below(4) == 3 and a != "bytecode":
            cmdline.append(rest.pop(0))
        cmdline.append(a)
    if cmdline[-1:] == ["-target"]:
        cmdline.append("-S")
    cmdline += rest
    if out:
        i = s.below(len(cmdline) + 1)
        if i and cmdline[i - 1] == "-target":
            i -= 1
        cmdline[i:i] = ["-o", out]
    # expected result: the commands by hand
    cpp, rcc = tools + "/q3cpp", tools + "/q3rcc"
    P = FIXED + ["-D__LCC__"] + pl + incl
    C = ["-target=bytecode"] + cl + (["-v"] if verbose else [])
    before = snapshot(d)
    w = d + "/" + cwd
    want, errs, wrc, wout = {}, [], 0, b""
    single = sum(1 for _ in inputs) == 1

    def step(tool, a):
        if fault == "missing" and tool.endswith(badtool):
            return Result(100, b"", b"")
        return run([tool] + a, cwd=w, env={"REFERENCE": "1"})

    def interrupted(r):
        return fault == "interrupt" and r.rc == 77
    for n, kind, missing in inputs:
        if missing and verbose < 2:
            wrc = 1
            errs.append("can't find `%s'" % n)
            continue
        base = os.path.basename(n)
        base = base[:base.rindex(".")]
        dst = out if out and single else base + ".asm"
        dst = os.path.relpath(os.path.normpath(os.path.join(w, dst)), d)
        if pre:
            if kind == ".c" and verbose < 2:
                r = step(cpp, P + [n])
                wout += r.out
                errs += r.err.decode("latin-1").split("\n")
                wrc |= r.rc != 0
                if interrupted(r):
                    break
            continue
        if verbose >= 2:
            continue
        src = n
        if kind == ".c":
            r = step(cpp, P + [n, d + "/ref.i"])
            errs += r.err.decode("latin-1").split("\n")
            if r.rc:
                wrc = 1
                want.setdefault(dst, None)
                if interrupted(r):
                    break
                continue
            src = d + "/ref.i"
        r = step(rcc, C + [src, d + "/ref.asm"])
        errs += [l for l in r.err.decode("latin-1").split("\n")]
        wout += r.out
        if r.rc:
            wrc = 1
            want[dst] = False
            if interrupted(r):
                break
        else:
            with open(d + "/ref.asm", "rb") as h:
                want[dst] = h.read()
    for f in ("ref.i", "ref.asm"):
        if os.path.exists(d + "/" + f):
            os.unlink(d + "/" + f)
    ctx.say("in %s (%s): lcc %s\nenvironment %s\n" % (cwd, os.path.basename(tools).split("-")[0], " ".join("'%s'" % c for c in cmdline), envd))
    for n, v in sorted(before.items()):
        ctx.say("--- %s\n%s" % (n, v.decode("latin-1")[:1500]))
    byname = s.below(4) == 3
    ee = dict(envd)
    if byname:
        ee["PATH"] = tools + ":" + os.environ.get("PATH", "")
    copies = []
    if not verbose and not pre and not (out or "").startswith("../") and cwd == "w" and s.below(8) == 7:
        copies = ["w2", "w3", "w4"]
        for c in copies:
            shutil.copytree(w, d + "/" + c)
        for n in list(before):
            if n.startswith("w/"):
                before.update((c + n[1:], before[n]) for c in copies)
        for n in list(want):
            want.update((c + n[1:], want[n]) for c in copies)
        ctx.label("4 at the same time")
        ctx.say("also in %s at the same time" % copies)
    pool = ThreadPoolExecutor(4)
    others = [pool.submit(run, [tools + "/lcc"] + cmdline, cwd=d + "/" + c, env=ee) for c in copies]
    r = run([("lcc" if byname else tools + "/lcc")] + cmdline, cwd=w, env=ee) if not byname else run(["/usr/bin/env", "lcc"] + cmdline, cwd=w, env=ee)
    err = r.err.decode("latin-1")
    for o in others:
        q = o.result()
        ctx.check(q.rc == r.rc, "status %d at the same time as others, %d otherwise: %s" % (q.rc, r.rc, q.err.decode("latin-1")[-600:]))
    pool.shutdown()
    ctx.check(not r.crashed, "lcc crashed or hangs (%d): %s" % (r.rc, err[-1500:]))
    ctx.check((r.rc != 0) == bool(wrc), "exit status %d where %s is expected: %s" % (r.rc, "a failure" if wrc else "0", err[-600:]))
    ctx.check(verbose or r.out == wout, "standard output differs from that of the commands: %r" % r.out[:300])
    pos = 0
    for l in errs:
        if l and not re.search(r"ref\.(i|asm)|rcsid", l):
            i = err.find(l, pos)
            ctx.check(i >= 0, "message %r missing: %s" % (l[:300], err[-800:]))
            pos = i
    after = snapshot(d)
    for n in before:
        if n not in want:
            ctx.check(after.get(n) == before[n], "lcc changed or removed %s" % n)
    for n in after:
        ctx.check(n in before or want.get(n) is not None or (n in want and want[n] is False), "lcc left %s" % n)
    for n, v in want.items():
        if v:
            ctx.check(after.get(n) == v, "%s %s" % (n, "is not what preprocessor and compiler produce" if n in after else "is missing"))
    if verbose:
        ctx.check(sum(1 for _, k, m in inputs if k == ".c" and not m or verbose > 1 and k == ".c") == 0 or "q3cpp" in err, "-v shows no command")
        ctx.label("-v")
    ctx.label("-E" if pre else "several inputs" if nf > 1 else "one input")
    ctx.label("failure" if wrc else "success")
    ctx.key = repr((cmdline, inputs, sorted(before.items())))
    ctx.nontrivial = bool(args) or nf > 1 or out is not None


# ------------------------------------------------------------------ H01
ERR = {"pc": -6, "jump": -7, "stack": -11, "range": -12, "bad": -14, "div": -16, "copy": -5, "load": -2, "null": -1}
W = struct.Struct("<I")


def s32(v):
    v &= 0xffffffff
    return v - (1 << 32) if v >> 31 else v


class Mem:
    """memory of the VM: bytes, None where the content depends on the host's encoding of code addresses"""
    def __init__(self, size, init):
        self.b = list(init) + [0] * (size + 4 - len(init))
        self.mask = size - 1

    def put(self, a, v):
        a &= self.mask
        for i in range(4):
            self.b[a + i] = None if v is None else v >> 8 * i & 255

    def get(self, a):
        a &= self.mask
        x = self.b[a:a + 4]
        return None if None in x else s32(sum(v << 8 * i for i, v in enumerate(x)))

    def string(self, a):
        a &= self.mask
        r = []
        while self.b[a] != 0:
            if self.b[a] is None:
                return None
            r.append(self.b[a])
            a += 1
        return bytes(r)


def h01(ctx, env):
    s = ctx.src
    exe = env[s.pick(["tools", "tools", "san"])] + "/q3vm"
    kind = s.pick(["run"] * 12 + ["file", "damage"])
    if kind == "file":
        what = s.pick(["none", "missing", "directory", "empty", "text"])
        args = {"none": [], "missing": [ctx.dir + "/no.qvm"], "directory": [ctx.dir], "empty": [ctx.write("e.qvm", "")],
                "text": [ctx.write("t.qvm", bytes(s.below(256) for _ in range(1 + s.below(60))))]}[what]
        r = run([exe] + args, cwd=ctx.dir)
        ctx.say("q3vm with %s" % what)
        ctx.check(not r.crashed and r.rc != 0, "status %d: %s" % (r.rc, r.err.decode("latin-1")[:800]))
        ctx.check(what == "empty" or what == "directory" or r.out + r.err, "no message")
        ctx.label(what)
        ctx.key = what + (repr(args) if what == "text" else "")
        return
    # sections
    lit = bytearray(4)
    strs = []
    for _ in range(s.below(6)):
        strs.append(len(lit))
        n = s.pick([0, 1, 3, 8, 8, 40, 40, 200, 1500])
        alpha = s.pick([b"abc%snd\n", b"abc xyz%5d%n", bytes(range(1, 256))])
        lit += bytes(alpha[s.below(len(alpha))] for _ in range(n)) + b"\0" * s.pick([1, 1, 1, 0])
    ndata = len(lit) // 4 * 4 if s.below(2) else 0
    bss = s.pick([0, 10, 100, 500, 5000, 70000])
    F = 8 + 4 * s.pick([4, 4, 5, 8, 20])
    while len(lit) + bss < F + 8 + 52 + 64:
        bss += 64
    if s.below(3) == 2:
        t = 1
        while t < len(lit) + bss:
            t *= 2
        bss += t - len(lit) - bss       # exactly a power of two
    size = 1
    while size < len(lit) + bss:
        size *= 2
    m = Mem(size, lit)
    ps = size - (8 + 52)
    m.put(ps, -1)
    m.put(ps + 4, 0)
    for i in range(13):
        m.put(ps + 8 + 4 * i, 0 if i == 0 else None)
    ps -= F
    code, count = bytearray(), 0

    def op(n, v=None, w=4):
        nonlocal count
        code.append(refasm.OP[n])
        if v is not None:
            code.extend((v & ((1 << 8 * w) - 1)).to_bytes(w, "little"))
        count += 1

    op("ENTER", F)
    for i in range(1, 13):      # the other arguments of vmMain are not set by the host
        op("LOCAL", F + 8 + 4 * i)
        op("CONST", 0)
        op("STORE4")
        m.put(ps + F + 8 + 4 * i, 0)
    out, err, status, text = b"", b"", None, []         # after the line with the file name

    def value(v):
        """pushes v"""
        a = ps if s.below(3) == 2 else None
        if a is None:
            op("CONST", v)
            return
        k = s.below(3)
        if k == 0:
            x = s.i32()
            op("CONST", v - x)
            op("CONST", x)
            op("ADD")
        elif k == 1:
            op("CONST", ~v)
            op("BCOM")
        else:
            op("CONST", -v)
            op("NEGI")

    def address():
        k = s.below(8)
        if k <= 2 and strs:
            return s.pick(strs) + s.pick([0, 0, 0, 1, 2, 3, 50])
        if k <= 4:
            return s.range(1, size - 1)
        if k == 5:
            return size - 1 - s.below(80)
        if k == 6:
            return s.pick([1, 2, 3, 4, size // 2, size - 1, size - 4, size - 2])
        return s.pick([s.i32(), -s.below(size), size + s.below(size), 1 << 31, 0])

    def length(a):
        return s.pick([0, 1, s.below(16), s.below(300), abs(size - (a & (size - 1)) + s.range(-3, 3)), s.i32(), size, size - 1, s.below(size)])

    nops = s.pick([1, 3, 8, 20, 60])
    wild = s.below(4) == 3      # goes on to an invalid range
    for _ in range(nops):
        if status is not None:
            break
        k = s.pick(["print", "print", "error", "set", "set", "copy", "copy", "bad", "store", "store", "load"])
        dst = address() if s.below(3) == 2 else None        # where the result goes
        if k in ("store", "load"):
            a = address()
            v = s.i32()
            if k == "load":
                v = m.get(address())
                if v is None:
                    continue
            op("CONST", a)
            value(v)
            op("STORE4")
            m.put(a, v)
            text.append("*(int*)%d = %d" % (a, v))
            continue
        if k in ("print", "error"):
            a = address()
            cid, args = (-1 if k == "print" else -2), [a]
        elif k == "set":
            a = address()
            cid, args = -3, [a, s.i32(), length(a)]
        elif k == "copy":
            a, b = address(), address()
            if s.below(3) == 2:
                b = a + s.range(-20, 20)
            cid, args = -4, [a, b, length(s.pick([a, b]))]
        else:
            cid, args = s.pick([-5, -6, -7, -100, -(1 << 31), -s.range(5, 1 << 20)]), []
        args = [s32(x) for x in args]
        ok = None
        if k in ("set", "copy"):
            n = args[-1]

            def valid(x):
                """False is refused with an error, None ignored: null pointer"""
                return None if x == 0 else 0 <= n < size and 0 <= x < size and x + n <= size
            ok = valid(args[0])
            if ok and k == "copy":
                ok = valid(args[1])
            # a range that ends exactly with the memory may be refused or not
            if any(x == size - n or n == size for x in args[:1 + (k == "copy")]) or ok is False and not wild:
                continue
        f = m.b[:] if k in ("print", "error") else None
        # the arguments as the program will store them, to see whether the text is known
        for i, x in enumerate(args):
            m.put(ps + 8 + 4 * i, x)
        m.put(ps, None)
        m.put(ps + 4, -1 - cid)
        if k in ("print", "error"):
            t = m.string(a)
            if t is None or args[0] == 0:
                m.b = f
                continue
        if dst is not None:
            op("CONST", dst)
        for i, x in enumerate(args):
            value(x)
            op("ARG", 8 + 4 * i, 1)
        op("CONST", cid)
        op("CALL")
        res = 0
        text.append("%s%s" % ({-1: "printf", -2: "error", -3: "memset", -4: "memcpy"}.get(cid, "call %d" % cid), tuple(args)))
        if k == "print":
            out += t
            res = len(t)
        elif k == "error":
            err += t
            res = len(t)
        elif k == "bad":
            err += b"Bad system call: %d\n" % cid
        else:
            res = args[0]
            if ok is False:
                status = "range"
            elif ok and k == "set":
                m.b[args[0]:args[0] + n] = [args[1] & 255] * n
            elif ok:
                m.b[args[0]:args[0] + n] = m.b[args[1]:args[1] + n]
        if status:
            break
        if dst is not None:
            op("STORE4")
            m.put(dst, res)
        else:
            op("POP")
    ret = s.i32()
    end = s.pick(["leave"] * 8 + ["div", "jump", "call", "undef", "stack", "copy"])
    value(ret)
    if end == "div":
        op("CONST", 0)
        op(s.pick(["DIVI", "DIVU", "MODI", "MODU"]))
    elif end in ("jump", "call"):
        op("CONST", s.pick([1 << 30, 1000000, 0x7fffffff]))
        op("JUMP" if end == "jump" else "CALL")
    elif end == "undef":
        op("UNDEF")
    elif end == "copy":
        op("CONST", size + s.below(100))
        op("CONST", 1)
        op("BLOCK_COPY", 8)
    elif end == "stack":
        for _ in range(s.pick([1, 2, 5])):
            op("CONST", 1)
    op("LEAVE", F)
    if status is None:
        back = m.get(ps + F)
        if end in ("leave", "stack"):
            if back == -1:
                status = ret & 255 if end == "leave" else "stack"
            elif back is None or 0 < back < 2 * len(code):
                raise Discard("return address overwritten")
            else:
                status = "overwritten"
        else:
            status = {"div": "div", "jump": "pc", "call": "pc", "undef": "bad", "copy": "copy"}[end]
    pad = bytes(-len(code) % 4)
    hdr = [0x12721444, count, 32, len(code), 32 + len(code + pad), ndata, len(lit) - ndata, bss]
    img = b"".join(W.pack(x) for x in hdr) + code + pad + lit
    ctx.say("memory %d bytes, frame %d at %d, %d bytes data, %d literals; strings at %s\n%s\nend: %s %d" % (size, F, ps, ndata, len(lit) - ndata, strs, "\n".join(text), end, ret))
    if kind == "damage":
        n = s.below(len(img))
        img = img[:n] if s.below(2) else bytes(x ^ (1 << s.below(8)) if i in (n, s.below(44)) else x for i, x in enumerate(img))
    p = ctx.write("x.qvm", img)
    r = run([exe, p] + ["x", "-h"] * (s.below(8) == 7), cwd=ctx.dir, timeout=20 if kind == "run" else 2)
    e = r.err.decode("latin-1")
    if kind == "damage":
        ctx.check(not r.crashed or r.rc == -24, "crash (%d): %s" % (r.rc, e[:2000]))
        if len(img) < 32 + len(code + pad) + len(lit):
            ctx.check(r.rc != 0 and (r.err or not img), "truncated image: status %d, messages %r" % (r.rc, e[:300]))
        ctx.label("damaged image")
        ctx.key = img
        return
    ctx.check(not r.crashed, "crash (%d): %s" % (r.rc, e[:2500]))
    r.out = re.sub(rb"\ALoading vm file [^\n]*\n", b"", r.out)
    ctx.check(r.out == out, "standard output %r, expected %r" % (r.out[:600], out[:600]))
    if isinstance(status, int):
        ctx.check(r.err == err, "standard error %r, expected %r" % (r.err[:600], err[:600]))
        ctx.check(r.rc == status, "status %d, expected %d" % (r.rc, status))
    else:
        codes = (ERR["pc"], ERR["jump"]) if status == "overwritten" else (ERR[status],)
        ctx.check(r.err[:len(err)] == err, "standard error %r, expected %r" % (r.err[:600], err[:600]))
        q = re.fullmatch(r"(?s)Err \((-?\d+)\): [^\n]+\n", r.err[len(err):].decode("latin-1"))
        ctx.check(q and int(q.group(1)) in codes, "error %r, expected %s" % (r.err[len(err):][:300], codes))
        ctx.check(r.rc == int(q.group(1)) & 255, "status %d after error %s" % (r.rc, q.group(1)))
    ctx.label("error" if not isinstance(status, int) else "normal end")
    for t in text:
        ctx.label(re.match(r"\w*", t).group() or "store")
    ctx.key = img
    ctx.nontrivial = len(text) > 2


CHECKS = [
    Check("L12", l12, 1200, 40000, "1-5 C or preprocessed files (relative and absolute names in directories, several dots, spaces, up to 1600 characters; errors for the preprocessor or the compiler, missing files) with up to 8 options of -D -U -I -Wp -Wf -Wo -A -w -n -P -d -g -t -target -S -c -E -v -o and ignored ones in any place, temporary directories given by TMP, TEMP, TMPDIR or -tempdir, tools found by path, PATH, -lccdir or LCCDIR; an eighth as four processes at the same time; in a seventh a tool dies by a signal, ends with some status, is missing, or the driver itself is terminated; a quarter under AddressSanitizer. "
          "Compared with q3cpp and q3rcc called directly: outputs and their names, standard output, messages, status, no other file left or changed. Non-trivial: at least one option or two inputs; distinct by files and command line.", setup),
    Check("H01", h01, 6000, 200000, "images with up to 60 calls of printf, error, memset, memcpy and unknown system calls on addresses and lengths in and around the memory (strings of all bytes, overlapping, over the stack, wrapped, negative), their results and loads and stores in between, memories of 256 bytes to 128 KB, ending with a return value or one of 6 kinds of error; missing, empty, truncated and damaged files; a third under AddressSanitizer. "
          "Compared with a model of the memory: standard output, standard error, exit status. Non-trivial: at least three operations; distinct by image.", setup),
]
