"""Builds what a check needs from /repo's working tree and runs it."""
import hashlib, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("Q3VM_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
OUT = os.path.join(VERIF, "out")


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode:
        sys.stdout.write(p.stdout.decode("latin-1"))
        raise SystemExit("build step failed: " + " ".join(cmd))
    return p


def digest(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fp:
            h.update(hashlib.sha256(fp.read()).digest())
    return h.hexdigest()[:20]


def tree(d, exts):
    r = []
    for base, dirs, names in os.walk(d):
        dirs[:] = [x for x in dirs if x != ".git"]
        r += [os.path.join(base, n) for n in names if n.endswith(exts)]
    return r


def cached(name, key, make):
    """Directory .build/name-key, made by make(tmpdir) unless it is there."""
    d = os.path.join(BUILD, "%s-%s" % (name, key))
    if os.path.isdir(d):
        os.utime(d)
        return d
    os.makedirs(BUILD, exist_ok=True)
    old = sorted((os.path.getmtime(os.path.join(BUILD, f)), f) for f in os.listdir(BUILD) if f.startswith(name + "-"))
    for _, f in old[:-3]:
        shutil.rmtree(os.path.join(BUILD, f), ignore_errors=True)
    t = tempfile.mkdtemp(prefix="tmp-", dir=BUILD)
    make(t)
    try:
        os.rename(t, d)
    except OSError:
        shutil.rmtree(t)
    return d


ASAN = ["-fsanitize=address,bounds,object-size,null,bool,enum", "-fno-sanitize-recover=all"]


def build_vm():
    src = [REPO + "/src/vm/vm.c", REPO + "/src/vm/vm.h"]
    mine = [os.path.join(VERIF, "vm", f) for f in os.listdir(os.path.join(VERIF, "vm"))] + tree(VERIF + "/lib", (".hpp", ".cpp"))

    def hmake(t):
        inc = ["-I" + REPO + "/src/vm"]
        jobs = [["clang++", "-std=c++17", "-O1", "-g1", "-w", "-ffp-contract=off"] + (ASAN[:1] if n == "host" else []) + inc + ["-c", s, "-o", "%s/%s.o" % (t, n)]
                for n, s in (("vmcheck", VERIF + "/vm/vmcheck.cpp"), ("host", VERIF + "/vm/host.cpp"), ("pbt", VERIF + "/lib/pbt.cpp"))]
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(sh, jobs))
        sh(["clang++", "-fsanitize=address,bounds", "-rdynamic", "-o", t + "/vmcheck", t + "/vmcheck.o", t + "/host.o", t + "/pbt.o", "-ldl", "-lpthread"])

    def vmake(t):
        c = REPO + "/src/vm/vm.c"
        so = ["-shared", "-fPIC", "-w", "-g1", "-fno-strict-aliasing", "-I" + REPO + "/src/vm", "-Wl,-Bsymbolic"]
        jobs = [
            ["clang", "-O1"] + ASAN + so + [c, "-o", t + "/vm_asan.so"],
            ["gcc", "-std=c99", "-O2", "-fno-crossjumping", "-fno-gcse"] + so + [c, "-o", t + "/vm_ship.so"],
            ["gcc", "-O2"] + so + ["-DVM_C=\"%s\"" % c, VERIF + "/vm/vm_switch.c", "-o", t + "/vm_switch.so"],
            ["gcc", "-O1", "-DDEBUG_VM"] + so + [c, "-o", t + "/vm_debug.so"],
            ["clang", "-O1", "-DDEBUG_VM"] + ASAN + so + ["-DVM_C=\"%s\"" % c, VERIF + "/vm/vm_switch.c", "-o", t + "/vm_debugasan.so"],
            ["gcc", "-O0"] + so + [c, "-o", t + "/vm_ship0.so"],
        ]
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(sh, jobs))

    h = cached("vmcheck", digest(mine + src[1:]), hmake)
    v = cached("vmso", digest(src + [VERIF + "/vm/vm_switch.c", __file__]), vmake)
    return h + "/vmcheck", v


def main(argv):
    pid = argv[0]
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    seed = os.environ.get("VERIF_SEED", "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        i = argv.index("--tier")
        tier = argv[i + 1]
        argv = argv[:i] + argv[i + 2:]
    if pid.startswith("V"):
        exe, so = build_vm()
        env = dict(os.environ, VM_SO_DIR=so, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_segv=1",
                   UBSAN_OPTIONS="halt_on_error=1:abort_on_error=1")
        args = [exe, pid, "--seed", seed, "--tier", tier, "--out", OUT]
        if "--replay" not in argv and "--case" not in argv:
            args += ["--evidence", "%s/evidence/%s.json" % (VERIF, pid)]
        with tempfile.TemporaryDirectory(prefix="scratch-", dir=BUILD) as t:
            env["VM_SCRATCH"] = t
            return subprocess.call(args + argv[1:], env=env)
    import toolchecks
    return toolchecks.main(pid, argv[1:], int(seed), tier)
