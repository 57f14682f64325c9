"""Property-based testing engine for the tool checks.

A case is a function of a recorded sequence of choices: generation draws them from a seeded
generator, shrinking edits the sequence, replay feeds it back.  Cases run in forked workers with
a scratch directory each; every run of a program under test has CPU, memory and file limits."""
import json, os, pickle, random, resource, select, shutil, signal, subprocess, sys, tempfile, time, traceback
import driver

WORKERS = 8


class Discard(Exception):
    pass


class Failure(Exception):
    pass


class Src:
    def __init__(self, rng=None, replay=None):
        self.rng, self.replay, self.rec = rng, replay, []

    def below(self, n):
        """uniform in [0, n); smaller is simpler"""
        k = len(self.rec)
        if k > 60000:
            raise Discard("too many choices")
        if self.replay is None:
            v = self.rng.randrange(n)
        else:
            v = self.replay[k] % n if k < len(self.replay) else 0
        self.rec.append(v)
        return v

    def range(self, lo, hi):
        return lo + self.below(hi - lo + 1)

    def chance(self, num, den):
        return self.below(den) >= den - num

    def pick(self, seq):
        return seq[self.below(len(seq))]

    def weighted(self, pairs):
        """pairs (weight, value)"""
        t = sum(w for w, _ in pairs)
        x = self.below(t)
        for w, v in pairs:
            x -= w
            if x < 0:
                return v

    POOL = [0, 1, -1, 2, -2, 3, 5, 7, 8, 10, 15, 16, 31, 32, 63, 64, 100, 127, 128, 129, 255, 256, 257, -127, -128, -129, 32767, 32768, 32769, 65535, 65536,
            65537, -32767, -32768, -32769, 0x7fffffff, -0x80000000, -0x7fffffff, 0x7ffffffe, 0x12345678, -559038737, -1431655766, 0x55555555, 1000000007, 0x7f7f7f7f, 0x00ff00ff]

    def i32(self):
        c = self.below(6)
        if c == 0:
            return self.below(16)
        if c <= 2:
            return self.pick(self.POOL)
        if c == 3:
            v = 1 << self.below(32)
            return v - (1 << 32) if v >> 31 else v
        if c == 4:
            return self.range(-1000, 1000)
        return self.below(1 << 32) - (1 << 31)


class Ctx:
    def __init__(self, src, dir):
        self.src, self.dir = src, dir
        self.labels, self.nontrivial, self.key, self.text = set(), False, None, ""
        self.known = []          # known findings met

    def label(self, s):
        self.labels.add(s)

    def say(self, s):
        if len(self.text) < 60000:
            self.text += s if s.endswith("\n") else s + "\n"

    def fail(self, msg):
        raise Failure(msg)

    def check(self, cond, msg):
        if not cond:
            raise Failure(msg)

    def write(self, name, data):
        p = os.path.join(self.dir, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data if isinstance(data, bytes) else data.encode("latin-1"))
        return p

    def read(self, name):
        try:
            with open(os.path.join(self.dir, name), "rb") as f:
                return f.read()
        except OSError:
            return None


class Result:
    def __init__(self, rc, out, err):
        self.rc, self.out, self.err = rc, out, err
        self.crashed = rc < 0 or b"ERROR: AddressSanitizer" in err or b"runtime error:" in err


def _limits():
    """inherited by every program under test; a hang is caught by the wall-clock limit of run()"""
    resource.setrlimit(resource.RLIMIT_FSIZE, (64 << 20, 64 << 20))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


ENV = {"PATH": "/usr/bin:/bin", "LC_ALL": "C", "HOME": "/nonexistent",
       "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:handle_segv=1:max_allocation_size_mb=2000", "UBSAN_OPTIONS": "halt_on_error=1:exitcode=99"}


def run(cmd, cwd=None, input=None, env=None, timeout=20):
    """Runs a program under test.  A hang shows as rc -SIGXCPU."""
    e = dict(ENV)
    if env:
        e.update(env)
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=subprocess.PIPE if input is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, process_group=0)
    try:                       # ends it also if this process is killed before the timeout
        resource.prlimit(p.pid, resource.RLIMIT_CPU, (timeout + 10, timeout + 10))
    except OSError:
        pass
    try:
        out, err = p.communicate(input, timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, err = p.communicate()
        return Result(-signal.SIGXCPU, out, err)
    return Result(p.returncode, out, err)


class Check:
    """fn(ctx, env): env is what setup() returned in the parent before forking"""
    def __init__(self, id, fn, quick, thorough, rule, setup=None, assumptions=(), secs=None):
        self.id, self.fn, self.quick, self.thorough, self.rule, self.setup = id, fn, quick, thorough, rule, setup
        self.assumptions = list(assumptions)


def run_case(check, env, dir, src):
    for f in os.listdir(dir):
        p = os.path.join(dir, f)
        if os.path.isdir(p) and not os.path.islink(p):
            shutil.rmtree(p, ignore_errors=True)
        else:
            os.unlink(p)
    c = Ctx(src, dir)
    msg = None
    disc = False
    try:
        check.fn(c, env)
    except Discard:
        disc = True
    except Failure as f:
        msg = str(f)
    except Exception:
        msg = "the check could not judge the output:\n" + traceback.format_exc(limit=-6)
    return c, msg, disc


def _worker(check, env, root, seed, k, n, wfd):
    _limits()
    d = tempfile.mkdtemp(prefix="w%d-" % k, dir=root)
    keys, labels, evals, disc, samples, known = set(), {}, 0, 0, [], {}
    fail = None
    for i in range(k, n, WORKERS):
        src = Src(random.Random("%s:%s:%d" % (seed, check.id, i)))
        c, msg, dis = run_case(check, env, d, src)
        evals += 1
        if msg is not None:
            fail = (i, src.rec, msg)
            break
        if dis:
            disc += 1
            continue
        for l in c.labels:
            labels[l] = labels.get(l, 0) + 1
        for kf in c.known:
            known.setdefault(kf, i)
        if c.nontrivial:
            keys.add(hash(c.key) if not isinstance(c.key, str) else int.from_bytes(__import__("hashlib").md5(c.key.encode("latin-1", "replace")).digest()[:8], "big"))
            if len(samples) < 3 and i % 7 == k % 7:
                samples.append((i, c.text[:1500]))
    with os.fdopen(wfd, "wb") as f:
        pickle.dump((evals, disc, keys, labels, samples, fail, known), f)
    os._exit(0)


def _eval_worker(check, env, root, cands, wfd):
    _limits()
    d = tempfile.mkdtemp(prefix="s-", dir=root)
    res = []
    for v in cands:
        src = Src(replay=v)
        c, msg, dis = run_case(check, env, d, src)
        res.append((None if dis else msg, src.rec))
        if msg is not None and not dis:
            break
    shutil.rmtree(d, ignore_errors=True)
    with os.fdopen(wfd, "wb") as f:
        pickle.dump(res, f)
    os._exit(0)


def _fork(fn, *a):
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            fn(*a, w)
        except BaseException:
            traceback.print_exc()
        os._exit(3)
    os.close(w)
    return pid, r


def _read(r):
    with os.fdopen(r, "rb") as f:
        data = f.read()
    return pickle.loads(data) if data else None


def try_batch(check, env, root, cands):
    """first failing candidate of the list (evaluated in parallel), or None"""
    ps = [_fork(_eval_worker, check, env, root, [c]) for c in cands]
    best = None
    for i, (pid, r) in enumerate(ps):
        v = _read(r)
        os.waitpid(pid, 0)
        if v and v[0][0] is not None and best is None:
            best = (v[0][1], v[0][0])
    return best


def shrink(check, env, root, v, msg, secs):
    end = time.time() + secs
    steps = 0
    best, bmsg = v, msg

    def key(x):
        return (len(x), x)

    def attempt(cands):
        nonlocal best, bmsg, steps
        seen = []
        for c in cands:
            if key(c) < key(best) and c not in seen:
                seen.append(c)
        for i in range(0, len(seen), WORKERS):
            if time.time() > end:
                return False
            steps += 1
            r = try_batch(check, env, root, seen[i:i + WORKERS])
            if r and key(r[0]) < key(best):
                best, bmsg = r
                return True
        return False

    progress = True
    while progress and time.time() < end:
        progress = False
        n = len(best)
        size = max(1, n // 2)
        while size >= 1 and time.time() < end:
            pos = 0
            while pos < len(best) and time.time() < end:
                b = best
                cands = [b[:p] + b[p + size:] for p in range(pos, len(b), size)[:WORKERS]] if size < len(b) else [[]]
                if attempt(cands):
                    progress = True
                else:
                    pos += size * WORKERS
            size //= 2
        pos = 0
        while pos < len(best) and time.time() < end:
            b = best
            x = b[pos]
            if x:
                c = []
                for y in (0, 1, x // 2, x - 1):
                    if y < x:
                        c.append(b[:pos] + [y] + b[pos + 1:])
                c.append([*b[:pos], x - 1, *b[pos + 2:]])
                if attempt(c):
                    progress = True
            pos += 1
    return best, bmsg, steps


def main(check, argv, seed, tier):
    t0 = time.time()
    env = check.setup() if check.setup else None
    n = check.thorough if tier == "thorough" else check.quick
    if "--cases" in argv:
        n = int(argv[argv.index("--cases") + 1])
    root = tempfile.mkdtemp(prefix="pbt-", dir=driver.BUILD)
    try:
        if "--replay" in argv or "--case" in argv:
            if "--case" in argv:
                i = int(argv[argv.index("--case") + 1])
                src = Src(random.Random("%s:%s:%d" % (seed, check.id, i)))
            else:
                line = [l for l in open(argv[argv.index("--replay") + 1], encoding="latin-1") if l.startswith("choices:")][-1]
                src = Src(replay=[int(x) for x in line[8:].split()])
            d = tempfile.mkdtemp(dir=root)
            c, msg, dis = run_case(check, env, d, src)
            if "--keep" in argv:
                shutil.copytree(d, argv[argv.index("--keep") + 1], dirs_exist_ok=True)
            print(c.text)
            print("labels:", sorted(c.labels), "nontrivial:", c.nontrivial)
            print("DISCARDED" if dis else "holds" if msg is None else "FAILS\n" + msg)
            if msg is not None and not dis:
                print("VIOLATION property=%s replay=%s" % (check.id, argv[argv.index("--replay") + 1] if "--replay" in argv else argv[-1]))
                return 1
            return 0
        return _main(check, env, root, argv, seed, tier, n, t0)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def _main(check, env, root, argv, seed, tier, n, t0):
    ps = {}
    for k in range(WORKERS):
        pid, r = _fork(_worker, check, env, root, seed, k, n)
        ps[r] = pid
    evals = disc = 0
    keys, labels, samples, known = set(), {}, [], {}
    fail = None
    while ps:
        for r in select.select(list(ps), [], [])[0]:
            pid = ps.pop(r)
            v = _read(r)
            os.waitpid(pid, 0)
            if v is None:
                if fail is None:
                    print("a worker of the check died")
                    return 2
                continue
            evals += v[0]
            disc += v[1]
            keys |= v[2]
            for l, x in v[3].items():
                labels[l] = labels.get(l, 0) + x
            samples += v[4]
            for kf, i in v[6].items():
                known[kf] = min(i, known.get(kf, i))
            if v[5] and (fail is None or v[5][0] < fail[0]):
                fail = v[5]
                for q in ps.values():
                    try:
                        os.kill(q, signal.SIGKILL)
                    except OSError:
                        pass
    rc = 0
    if fail:
        i, rec, msg = fail
        stable = all(try_batch(check, env, root, [rec]) for _ in range(3))
        if not stable:
            print("case %d failed once but not again (not reported as a violation): %s" % (i, msg[:400]))
        else:
            rec, msg, steps = shrink(check, env, root, rec, msg, 200 if tier == "thorough" else 60)
            d = tempfile.mkdtemp(dir=root)
            c, m2, _ = run_case(check, env, d, Src(replay=rec))
            msg = m2 or msg
            path = "%s/%s-seed%s-case%d.replay" % (driver.OUT, check.id, seed, i)
            with open(path, "w", encoding="latin-1", errors="replace") as f:
                f.write("property: %s\nseed: %s\ncase: %d\nshrink rounds: %d\nreplay: ./check %s --replay %s\n\n%s\n\n%s\n\n" % (check.id, seed, i, steps, check.id, path, msg, c.text))
                f.write("choices: " + " ".join(map(str, rec)) + "\n")
            print(msg[:3000])
            print(c.text[:6000])
            print("VIOLATION property=%s replay=%s" % (check.id, path))
            rc = 1
    secs = time.time() - t0
    print("%s: %d cases, %d distinct non-trivial, %d discarded, %.1f s" % (check.id, evals, len(keys), disc, secs))
    for l in sorted(labels):
        print("  %-44s %d" % (l, labels[l]))
    listed = load_known(check.id)
    for kf in sorted(known):
        print("KNOWN-FINDING: property=%s %s" % (check.id, kf))
    ev = {"property": check.id, "tier": tier, "seed": int(seed), "level": "exploration", "wall_s": round(secs, 1),
          "coverage": {"evaluations": evals, "distinct_nontrivial": len(keys), "discarded": disc, "rule": check.rule,
                       "samples": ["case %d:\n%s" % s for s in sorted(samples)[:6]], "classes": labels, "known_findings": sorted(known)},
          "assumptions": check.assumptions, "violations": rc}
    with open("%s/evidence/%s.json" % (driver.VERIF, check.id), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1)
    return rc


def load_known(pid):
    """known findings of a property: list of texts after 'known: property=<id> '"""
    r = []
    for l in open(driver.VERIF + "/known-findings.txt", encoding="utf-8"):
        if l.startswith("known: property=%s " % pid):
            r.append(l.split(" ", 2)[2].strip())
    return r
