"""Builds the tools of /repo (preprocessor, compiler, driver, assembler, interpreter) into .build,
from the working tree, in a normal and an AddressSanitizer variant."""
import os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
import driver
from driver import REPO, VERIF, sh, tree, digest, cached

SAN = ["-fsanitize=address,bounds", "-fno-sanitize-recover=all"]


def _compile(jobs):
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(sh, jobs))


def _exe(t, name, srcs, cc, flags, libs):
    """object files of one executable, then the link command"""
    objs, jobs = [], []
    for s in srcs:
        o = "%s/%s-%s.o" % (t, name, os.path.basename(s))
        objs.append(o)
        jobs.append(cc + flags + ["-c", s, "-o", o])
    return jobs, cc + ["-o", t + "/" + name] + objs + libs


def csrc(d):
    return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(".c"))


def _build(san):
    L = REPO + "/lcc"
    src = tree(L, (".c", ".h")) + tree(REPO + "/q3asm", (".c", ".h")) + tree(REPO + "/src", (".c", ".h"))
    src = [f for f in src if "/build/" not in f] + [__file__, VERIF + "/vm/run.c"]

    def make(t):
        cc = ["clang"] if san else ["gcc"]
        base = ["-w", "-Wno-implicit-function-declaration", "-fno-strict-aliasing", "-g1", "-std=gnu99", "-fcommon"] + (["-O1"] + SAN if san else [])
        sets = [
            ("q3cpp", csrc(L + "/cpp"), base + ([] if san else ["-O0"]) + ["-I" + L + "/cpp"], []),
            ("q3rcc", csrc(L + "/src"), base + ([] if san else ["-O0"]) + ["-I" + L + "/src"], ["-lm"]),
            ("lcc", csrc(L + "/etc"), base + ([] if san else ["-O0"]), []),
            ("q3asm", [REPO + "/q3asm/q3asm.c", REPO + "/q3asm/cmdlib.c"], base + ([] if san else ["-O2"]), []),
            ("q3vm", [REPO + "/src/main.c", REPO + "/src/vm/vm.c"], base + ([] if san else ["-O2"]) + ["-I" + REPO + "/src/vm"], []),
            ("run", [VERIF + "/vm/run.c", REPO + "/src/vm/vm.c"], base + ([] if san else ["-O2"]) + ["-I" + REPO + "/src/vm"], []),
        ]
        if not san:
            sh(["gcc", "-w", "-O2", "-DNATIVE", "-c", VERIF + "/vm/run.c", "-o", t + "/native.obj"])
        sets.append(("lburg", csrc(L + "/lburg"), base + ([] if san else ["-O0"]), []))
        jobs, links = [], []
        for name, srcs, flags, libs in sets:
            j, l = _exe(t, name, srcs, cc, flags, libs + (SAN if san else []))
            jobs += j
            links.append(l)
        _compile(jobs)
        _compile(links)
        for f in os.listdir(t):
            if f.endswith(".o"):
                os.unlink(t + "/" + f)

    return cached("santools" if san else "tools", digest(src), make)


def build(san=None):
    if san is None:
        return _build(False), _build(True)
    return _build(san)
