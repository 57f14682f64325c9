"""All checks on the tools around the interpreter."""
import importlib
import pbt

MODULES = ["asmchecks", "lccchecks", "lccmore", "cppchecks", "lccdiag", "lccdecl", "toolmisc", "burgchecks"]


def checks():
    r = {}
    for m in MODULES:
        try:
            mod = importlib.import_module(m)
        except ModuleNotFoundError as e:
            if e.name != m:
                raise
            continue
        for c in mod.CHECKS:
            r[c.id] = c
    return r


def main(pid, argv, seed, tier):
    cs = checks()
    if pid not in cs:
        print("no such check: " + pid)
        return 2
    return pbt.main(cs[pid], argv, seed, tier)
