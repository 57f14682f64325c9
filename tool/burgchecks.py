"""G01, G02: the code-generator generator lburg."""
import os, re
from pbt import Check, Discard, run
import toolchain

INF = 0x7fff


def setup():
    n, a = toolchain.build()
    return {"tools": n, "san": a}


class Spec:
    pass


NAMES = ["reg", "stmt", "con", "addr", "rc", "mem", "base", "index", "flag", "x1", "acon", "rc5", "freg", "a_b", "P", "I", "reg_", "conreg", "nt"]
TERMS = ["ADDI", "SUBI", "CNSTI", "REG", "INDIRI", "ASGNI", "LOADI", "CVCI", "JUMPV", "MULI", "NEGF", "VREGP", "ADDRGP", "R", "T1", "x_2", "INDIRF", "LABELV"]
TEMPL = ["%0 %1\\n", "# nothing\\n", "", "mov %c,%0\\n", "\\n", "%0", "add %0,%1", "\\\\n", "x\\n ", "a%%b\\n", "/ * comment", "\\t%a\\n"]


def pat_text(s, p):
    sp = s.pick(["", "", "", " "]) if s else ""
    if not p[1]:
        return p[0]
    return p[0] + sp + "(" + sp + ("," + sp).join(pat_text(s, k) for k in p[1]) + sp + ")"


def canon(p):
    return pat_text(None, p)


def generate(s):
    g = Spec()
    nt = s.pick([1, 2, 4, 8, 16])
    names = [s.pick(TERMS) + s.pick(["", "", str(i)]) for i in range(nt + 2)]
    names = list(dict.fromkeys(names))
    if len(names) < 2:
        names = ["A0", "B0"]
    g.terms, used = {}, set()
    for i, n in enumerate(names):
        esn = s.pick([i + 1, s.range(1, 50), s.range(1, 2000), 100000 + i])
        while esn in used:
            esn += 1
        used.add(esn)
        g.terms[n] = (esn, 0 if i == 0 else s.below(3))
    g.leaves = [n for n in names if g.terms[n][1] == 0]
    g.inner = [n for n in names if g.terms[n][1]]
    k = s.pick([1, 2, 3, 5, 9])
    g.nts = list(dict.fromkeys(s.pick(NAMES) + s.pick(["", "", str(i)]) for i in range(k)))
    if s.below(10) == 9:
        g.nts[-1] += "n" * s.pick([30, 200, 600])
    g.nts = [n for n in g.nts if n not in g.terms] or ["stmt"]
    g.start = g.nts[0]
    g.declared = s.below(2)
    g.rules = []          # (lhs, pattern, template, cost text, cost function of v)

    def pattern(d):
        if d == 0 or s.below(3) == 0 or not g.inner:
            if s.below(3) == 0:
                return (s.pick(g.leaves), [])
            return (s.pick(g.nts), [])
        t = s.pick(g.inner)
        return (t, [pattern(d - 1) for _ in range(g.terms[t][1])])

    def add(lhs, p):
        chain = not p[1] and p[0] in g.nts
        c = s.pick([0, 0, 0, 1, 1, 1, 2, 3]) if not chain else s.pick([0, 0, 0, 0, 0, 1])
        f = None
        if c == 0:
            n = s.pick([None, 0, 1, 1, 2, 3, 5, 10, 200])
            text = "" if n is None else str(n)
            f = lambda v, n=n or 0: n
        elif chain:
            n = s.below(4)
            text, f = str(n), (lambda v, n=n: n)
        else:
            x, y, z = s.below(6), s.below(9), s.below(9)
            i = s.below(5)
            text = ["a->v > %d ? %d : %d" % (x, y, z), "a->v + %d" % x, "(a->v == %d) ? 0 : LBURG_MAX" % x, "pick(a, %d, %d)" % (x, y), "(a->v & 1) * %d + %d" % (y, z)][i]
            f = [lambda v: y if v > x else z, lambda v: v + x, lambda v: 0 if v == x else INF, lambda v: y if v == x else 4, lambda v: (v & 1) * y + z][i]
        g.rules.append((lhs, p, s.pick(TEMPL), text, f))

    for n in g.nts:      # one simple rule each, so that most trees have covers
        add(n, (s.pick(g.leaves), []) if s.below(2) else pattern(1))
    for t in g.inner + g.leaves:
        if s.below(3):
            add(s.pick(g.nts), (t, [(s.pick(g.nts), []) for _ in range(g.terms[t][1])]))
    for _ in range(s.pick([0, 3, 10, 30, 80])):
        lhs = s.pick(g.nts) if s.below(2) else g.start
        if s.below(4) == 0 and len(g.nts) > 1:
            p = (s.pick(g.nts), [])
            if p[0] == lhs:
                continue
        else:
            p = pattern(s.pick([0, 1, 1, 2, 2, 3, 4, 12]))
        if not p[1] and p[0] in g.nts and p[0] == lhs:
            continue
        if size(p) > s.pick([14, 60]):
            continue
        add(lhs, p)
    g.rules = [r for i, r in enumerate(g.rules) if not (not r[1][1] and r[1][0] == r[0])]
    # order: the first rule defines the start symbol unless it is declared
    first = [r for r in g.rules if r[0] == g.start]
    if not first:
        first = [(g.start, (g.leaves[0], []), "", "0", lambda v: 0)]
        g.rules.append(first[0])
    rest = g.rules[:]
    if not g.declared:
        rest.remove(first[0])
    if s.below(2):
        for i in range(len(rest) - 1, 0, -1):
            j = s.below(i + 1)
            rest[i], rest[j] = rest[j], rest[i]
    g.rules = rest if g.declared else [first[0]] + rest
    # every nonterminal must be reachable and defined
    seen, todo = {g.start}, [g.start]
    while todo:
        n = todo.pop()
        for r in g.rules:
            if r[0] == n:
                for x in ntsof(r[1], g):
                    if x not in seen:
                        seen.add(x)
                        todo.append(x)
    g.rules = [r for r in g.rules if r[0] in seen]
    defined = {r[0] for r in g.rules}
    for x in sorted(seen - defined):
        g.rules.append((x, (g.leaves[0], []), "", "1", lambda v: 1))
    g.nts = [n for n in g.nts if n in seen]
    # terminals whose arity no rule shows
    g.arity = {}

    def note(p):
        if p[0] in g.terms:
            g.arity[p[0]] = len(p[1])
        for q in p[1]:
            note(q)
    for r in g.rules:
        note(r[1])
    return g


def size(p):
    return 1 + sum(size(k) for k in p[1])


def ntsof(p, g):
    if not p[1]:
        return [p[0]] if p[0] not in g.terms else []
    return [x for k in p[1] for x in ntsof(k, g)]


def spec_lines(s, g):
    """declarations and rules as lists of lines"""
    decl, line = [], ""
    for n, (esn, _) in g.order:
        if line and s.below(3) == 0:
            decl.append(line)
            line = ""
        if not line:
            line = "%term"
        line += s.pick([" ", "  ", "\t"]) + "%s%s=%s%d" % (n, s.pick(["", "", " "]), s.pick(["", "", " "]), esn)
    decl.append(line)
    if g.declared:
        decl.insert(s.below(len(decl) + 1), "%start " + g.start)
    rules = []
    for lhs, p, t, c, _ in g.rules:
        rules.append("%s%s:%s%s%s\"%s\"%s%s" % (lhs, s.pick(["", "", " "]), s.pick([" ", "", "\t"]), pat_text(s, p), s.pick([" ", "  ", "\t", ""]), t,
                     s.pick([" ", "\t", "   "]) if c else s.pick(["", "", "  "]), c + s.pick(["", "", " ", "\t "])))
    if max(map(len, rules)) > 8000:
        raise Discard("line longer than lburg's buffer")
    return decl, rules


PRE = """%%{
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
struct node { int op; struct node *kids[2]; int v, id; struct { void *state; } x; struct { struct { struct { struct node *cse; } t; } u; } **syms; };
typedef struct node *NODEPTR_TYPE;
#define OP_LABEL(p) ((p)->op)
#define LEFT_CHILD(p) ((p)->kids[0])
#define RIGHT_CHILD(p) ((p)->kids[1])
#define STATE_LABEL(p) ((p)->x.state)
#define LBURG_MAX 0x7fff
#define allocate(n, a) memset(malloc(n), 0xa5, n)
#define FUNC 0
#define RX 2
#define mayrecalc(a) 0
%%}
"""
PRE2 = """%%{
#define fatal(f, m, n) (printf("fatal %%s ", f), printf(m, n), exit(3))
static int pick(NODEPTR_TYPE a, int x, int y) { return a->v == x ? y : 4; }
static void %(P)strace(NODEPTR_TYPE p, int eruleno, int cost, int bestcost) { printf("t %%d %%d %%d %%d\\n", p->id, eruleno, cost, bestcost); }
%%}
"""
POST = """
static int data[] = { %(data)s };
static int *next = data, nid;
static struct node *read(void) {
	struct node *p = calloc(1, sizeof *p);
	int n;
	p->op = *next++; n = *next++; p->v = *next++; p->id = nid++;
	if (n > 0) p->kids[0] = read();
	if (n > 1) p->kids[1] = read();
	return p;
}
static void show(struct node *p) {
	struct %(P)sstate *s = STATE_LABEL(p);
	int i;
	printf("n %%d", p->id);
	for (i = 1; i <= %(nnt)d; i++) printf(" %%d", s->cost[i]);
	printf("\\n");
	for (i = 1; i <= %(nnt)d; i++) if (s->cost[i] < 0x7fff) {
		int r = %(P)srule(s, i), j;
		struct node *kids[80];
		memset(kids, 0, sizeof kids);
		printf("r %%d %%d %%d", p->id, i, r);
		%(P)skids(p, r, kids);
		for (j = 0; %(P)snts[r][j]; j++) printf(" %%d:%%d", kids[j]->id, %(P)snts[r][j]);
		printf("%%s\\n", kids[j] ? " too many" : "");
	}
	if (p->kids[0]) show(p->kids[0]);
	if (p->kids[1]) show(p->kids[1]);
}
int main(void) {
	int i;
	for (i = 1; i <= %(nnt)d; i++) printf("N %%d %%s\\n", i, %(P)sntname[i]);
	for (i = 1; i <= %(nr)d; i++) printf("R %%d %%d [%%s] [%%s]\\n", i, %(P)sisinstruction[i], %(P)stemplates[i], %(P)sstring[i]);
	printf("S %%d %%d\\n", %(P)s%(start)s_NT, %(P)srule(0, 1));
	while (*next) {
		struct node *t;
		nid = 0;
		t = read();
		printf("T\\n");
		%(P)slabel(t);
		printf("%%s\\n", %(P)srule(STATE_LABEL(t), 1) ? "cover" : "none");
		show(t);
	}
	return 0;
}
"""


def g01(ctx, env):
    s = ctx.src
    g = generate(s)
    san = s.below(4) == 3
    exe = env["san" if san else "tools"] + "/lburg"
    g.order = [(n, g.terms[n]) for n in g.terms]
    if s.below(2):
        for i in range(len(g.order) - 1, 0, -1):
            j = s.below(i + 1)
            g.order[i], g.order[j] = g.order[j], g.order[i]
    decl, rules = spec_lines(s, g)
    prefix = s.pick(["", "", "", "x86", "my_", "b"])
    P = prefix + "_"
    trace = s.below(4) == 3
    # trees
    leaf = [n for n in g.terms if g.arity.get(n, 0) == 0]
    inner = [n for n in g.terms if g.arity.get(n, 0)]
    trees = []
    for _ in range(s.pick([1, 4, 12, 30])):
        budget = s.pick([1, 3, 10, 40])

        def tree(d):
            nonlocal budget
            budget -= 1
            if budget < 0 or d > 12 or not inner or s.below(6) == 0:
                return [s.pick(leaf), [], s.below(6)]
            if s.below(3) == 0 and g.rules:      # instance of a pattern
                return inst(g.rules[s.below(len(g.rules))][1], d)
            n = s.pick(inner)
            return [n, [tree(d + 1) for _ in range(g.arity[n])], s.below(6)]

        def inst(p, d):
            if p[0] in g.terms:
                return [p[0], [inst(k, d + 1) for k in p[1]], s.below(6)]
            return tree(d + 1)
        trees.append(tree(0))

    def flat(t):
        return "%d,%d,%d," % (g.terms[t[0]][0], len(t[1]), t[2]) + "".join(flat(k) for k in t[1])
    post = POST % dict(P=P, nnt=len(g.nts), nr=len(g.rules), start=g.start, data="".join(flat(t) for t in trees) + "0")
    pre2 = PRE2 % dict(P=P)
    head = PRE % ()

    def blank():
        return s.pick(["", "", "", "\n", " \n", "\t\n\n"])
    two = s.below(2)
    text = head + ("" if two else pre2)
    for l in decl:
        text += blank() + l + "\n"
    if two:
        text += pre2
    text += "%%\n"
    for l in rules:
        text += blank() + l + "\n"
    text += "%%" + post if s.below(4) else "%%\n" + post
    ctx.write("s.md", text)
    opts = (["-p", prefix] if s.below(2) else ["-p" + prefix]) if prefix else []
    opts = opts + ["-T"] if s.below(2) else ["-T"] + opts
    if not trace:
        opts.remove("-T")
    io = s.pick(["ff", "ff", "f-", "-f", "--", "f", ""])
    args = {"ff": ["s.md", "o.c"], "f-": ["s.md", "-"], "-f": ["-", "o.c"], "--": ["-", "-"], "f": ["s.md"], "": []}[io]
    i = s.below(len(args) + 1) if args else 0
    ctx.say("lburg %s\n%s" % (args[:i] + opts + args[i:], text[:text.rindex("%%")]))
    ctx.say("trees:\n" + "\n".join(show(t) for t in trees[:30]))
    r = run([exe] + args[:i] + opts + args[i:], cwd=ctx.dir, input=text.encode() if io[:1] != "f" else None)
    ctx.check(not r.crashed, "lburg crashed (%d): %s" % (r.rc, r.err.decode("latin-1")[:1500]))
    ctx.check(r.rc == 0 and not r.err, "lburg refuses a valid specification (%d): %s" % (r.rc, r.err.decode("latin-1")[:500]))
    out = r.out
    if io in ("ff", "-f"):
        ctx.check(not r.out, "unexpected output")
        out = ctx.read("o.c")
    ctx.check(out, "no output")
    ctx.check(sorted(os.listdir(ctx.dir)) == sorted(["s.md"] + ["o.c"] * (io in ("ff", "-f"))), "files: %s" % os.listdir(ctx.dir))
    ctx.write("o.c", out)
    q = run(["gcc", "-w", "-O0", "-fsanitize=undefined,bounds", "-fno-sanitize-recover=all", "o.c", "-o", "o"] if s.below(12) == 11 else ["gcc", "-w", "-O0", "o.c", "-o", "o"], cwd=ctx.dir, timeout=60)
    ctx.check(q.rc == 0, "the generated matcher does not compile: " + q.err.decode("latin-1")[:1000])
    q = run([ctx.dir + "/o"], cwd=ctx.dir)
    ctx.check(q.rc == 0, "the generated matcher fails (%d): %s" % (q.rc, (q.out[-300:] + q.err[-600:]).decode("latin-1")))
    judge(ctx, g, trees, q.out.decode("latin-1").split("\n"), trace)
    ctx.label("-p" if prefix else "no -p")
    ctx.label("deep patterns" if any(depth(r[1]) > 2 for r in g.rules) else "shallow patterns")
    ctx.label("more than 16 rules" if len(g.rules) > 16 else "up to 16 rules")
    ctx.label("input/output " + io)
    ctx.key = text
    ctx.nontrivial = len(g.rules) > 2 and any(t[1] for t in trees)


def show(t):
    return "%s[%d]" % (t[0], t[2]) + ("(" + ", ".join(show(k) for k in t[1]) + ")" if t[1] else "")


def depth(p):
    return 1 + max([depth(k) for k in p[1]] + [0])


def judge(ctx, g, trees, lines, trace):
    pos = 0

    def nextline():
        nonlocal pos
        pos += 1
        return lines[pos - 1] if pos <= len(lines) else ""
    num, name = {}, {}
    for i in range(1, len(g.nts) + 1):
        m = re.fullmatch(r"N (\d+) (\w+)", nextline())
        ctx.check(m and int(m.group(1)) == i and m.group(2) in g.nts and m.group(2) not in num, "nonterminal names: %s" % lines[pos - 1])
        num[m.group(2)] = i
        name[i] = m.group(2)
    for i, (lhs, p, t, c, f) in enumerate(g.rules, 1):
        l = nextline()
        if "\\" in t or t != t.strip():
            u = eval("'%s'" % t.replace("'", "\\'"))
            while l.count("[") < 2 or not l.endswith("]"):
                l += "\n" + nextline()
        else:
            u = t
        want = "R %d %d [%s] [%s]" % (i, t.endswith("\\n"), u, "%s: %s" % (lhs, canon(p)))
        ctx.check(l == want, "rule table: %r, expected %r" % (l, want))
    l = nextline()
    ctx.check(l == "S %d 0" % num[g.start] and num[g.start] == 1, "start symbol, rule of no state: %s" % l)
    for t in trees:
        nodes = []

        def collect(t):
            nodes.append(t)
            t.append(len(nodes) - 1)
            for k in t[1]:
                collect(k)
        collect(t)
        best = {}

        def match(p, t):
            """cost of the nonterminals of a pattern, None if it does not match"""
            if p[0] in g.terms:
                if p[0] != t[0]:
                    return None
                c = 0
                for a, b in zip(p[1], t[1]):
                    x = match(a, b)
                    if x is None:
                        return None
                    c += x
                return c
            return best[b_id(t)][p[0]]

        def b_id(t):
            return t[3]

        def cost(r, t):
            m = match(r[1], t)
            if m is None:
                return None
            c = m + r[4](t[2])
            return c if c < INF else None
        for t1 in reversed(nodes):
            b = best[t1[3]] = {n: INF for n in g.nts}
            while True:
                again = False
                for r in g.rules:
                    c = cost(r, t1)
                    if c is not None and c < b[r[0]]:
                        b[r[0]] = c
                        again = True
                if not again:
                    break
        ctx.check(nextline() == "T", "output of the matcher")
        traced = {}
        l = nextline()
        while l.startswith("t "):
            n, r, c, old = map(int, l.split()[1:])
            traced.setdefault((n, g.rules[r - 1][0]), []).append((r, c, old))
            l = nextline()
        ctx.check(bool(trace) or not traced, "trace without -T")
        ctx.check(l == ("cover" if best[0][g.start] < INF else "none"), "%s has %s cover: %s" % (show(t)[:500], "a" if best[0][g.start] < INF else "no", l))
        order = []

        def walk(t):
            order.append(t)
            for k in t[1]:
                walk(k)
        walk(t)
        for t1 in order:
            l = nextline()
            want = "n %d " % t1[3] + " ".join(str(best[t1[3]][name[i]]) for i in sorted(name))
            ctx.check(l == want, "costs at %s: %s, expected %s for %s" % (show(t1)[:300], l, want, [name[i] for i in sorted(name)]))
            for i in sorted(name):
                b = best[t1[3]][name[i]]
                if trace:
                    cur = INF
                    for r, c, old in traced.get((t1[3], name[i]), []):
                        ctx.check(old == cur, "trace: best cost %d, expected %d" % (old, cur))
                        cur = min(cur, c)
                    ctx.check(cur == b, "trace: lowest cost %d at %s for %s, expected %d" % (cur, show(t1)[:300], name[i], b))
                if b >= INF:
                    continue
                l = nextline()
                m = re.fullmatch(r"r (\d+) (\d+) (\d+)((?: \d+:\d+)*)", l)
                ctx.check(m and int(m.group(1)) == t1[3] and int(m.group(2)) == i, "rule at %s for %s: %s" % (show(t1)[:300], name[i], l))
                r = int(m.group(3))
                ctx.check(1 <= r <= len(g.rules) and g.rules[r - 1][0] == name[i] and cost(g.rules[r - 1], t1) == b,
                          "rule %d is not a cheapest one at %s for %s" % (r, show(t1)[:300], name[i]))
                kids = []

                def kidsof(p, t):
                    if p[0] not in g.terms:
                        kids.append("%d:%d" % (t[3], num[p[0]]))
                    for a, b in zip(p[1], t[1]):
                        kidsof(a, b)
                kidsof(g.rules[r - 1][1], t1)
                ctx.check(m.group(4).split() == kids, "kids of rule %d (%s) at %s: %s, expected %s" % (r, canon(g.rules[r - 1][1]), show(t1)[:300], m.group(4), kids))
        ctx.label("cover" if best[0][g.start] < INF else "no cover")


# ------------------------------------------------------------------ G02
def g02(ctx, env):
    s = ctx.src
    g = generate(s)
    g.order = [(n, g.terms[n]) for n in g.terms]
    decl, rules = spec_lines(s, g)
    exe = env["san" if s.below(2) else "tools"] + "/lburg"
    conf = "%{\n" + "".join(s.pick(["x\n", "#define A 1\n", "\n", "%%\n", "/* \" */\n"]) for _ in range(s.below(4))) + "%}\n" if s.below(2) else ""
    kind = s.pick(["valid"] + ["plant"] * 5 + ["fuzz"] * 6)
    ctx.label(kind)
    if kind != "fuzz":
        lines = conf.split("\n")[:-1]
        # (line index, message) in order; a message without position has None
        msgs, glob = [], set()
        dl = [(l, None) for l in decl]
        rl = [(l, None) for l in rules]
        n = s.pick([1, 1, 1, 2, 3]) if kind == "plant" else 0
        anyt = s.pick(list(g.arity)) if g.arity else g.leaves[0]
        for i in range(n):
            k = s.pick(["undefterm", "redef", "dup", "isterm", "isnonterm", "arity", "undefnt", "unreach", "noncon", "restart", "syntax", "syntaxd", "quote", "big", "char", "ctrl"])
            z = "zz%d" % i
            dpos, rpos = s.below(len(dl) + 1), 1 + s.below(len(rl))      # the first rule stays first
            nt = s.pick(g.nts)
            t2 = [x for x in g.arity if x in g.terms and g.arity[x] == 0]
            if k == "undefterm":
                rl.insert(rpos, ('%s: %s(%s) "x" 1' % (nt, z, nt), "undefined terminal `%s'" % z))
                glob.add("duplicate external symbol number `zz%d=-1'" % i)
            elif k == "redef":
                dl.append(("%%term %s=%d" % (g.order[0][0], 900000 + i), "redefinition of terminal `%s'" % g.order[0][0]))
            elif k == "dup":
                x = s.pick(g.order)
                dl.append(("%%term %s=%d" % (z, x[1][0]), "duplicate external symbol number `%s=%d'" % (z, x[1][0])))
            elif k == "isterm":
                if "can't reach nonterminal `%s'" % anyt in glob:
                    raise Discard("twice")
                continue_ok = "`%s' is a terminal" % anyt
                rl.append(('%s: %s "" 1' % (anyt, g.leaves[0]), continue_ok))
                glob.add("can't reach nonterminal `%s'" % anyt)
                glob.add("inconsistent arity for terminal")
            elif k == "isnonterm":
                rl.append(('%s: %s(%s) ""' % (g.start, nt, nt), "`%s' is a nonterminal" % nt))
                glob |= {"redefinition of terminal", "undefined nonterminal", "can't reach", "is a terminal", "inconsistent arity"}
            elif k == "arity":
                if not t2:
                    raise Discard("no leaf")
                x = s.pick(t2)
                if "can't reach nonterminal `%s'" % x in glob:
                    raise Discard("twice")
                rl.append(('%s: %s(%s) ""' % (nt, x, nt), "inconsistent arity for terminal `%s'" % x))
            elif k == "undefnt":
                rl.insert(rpos, ('%s: %s "" 3' % (nt, z), None))
                msgs.append((None, "undefined nonterminal `%s'" % z))
            elif k == "unreach":
                rl.insert(rpos, ('%s: %s "" 3' % (z, g.leaves[0]), None))
                msgs.append((None, "can't reach nonterminal `%s'" % z))
            elif k == "noncon":
                x = s.pick(["a->v", "1+1", "f(a)", "x"])
                rl.append(('%s: %s "" %s' % (nt, nt, x), "illegal nonconstant cost `%s'" % x))
            elif k == "restart":
                if not g.declared:
                    raise Discard("no start")
                dl.append(("%%start %s" % z, "redeclaration of the start symbol"))
                glob |= {"undefined nonterminal `%s'" % z, "can't reach nonterminal `%s'" % z}
            elif k == "syntax":
                rl.insert(rpos, (s.pick(["%s %s \"\"", "%s: (%s) \"\"", "%s: %s,%s \"\"", ": %s \"%s\"", "%s: A0(", "%s: \"\" 1", "= %s", "%s: %s(%s,%s,%s) \"\""]).replace("%s", nt), "error"))
            elif k == "syntaxd":
                dl.insert(dpos, (s.pick(["%term X", "%term =5", "%start", "%term X=X", "foo", "%term X=888888 =".replace("X=8", "X%d=8%d" % (i, i)), "%start 5"]), "error"))
                glob |= {"undefined nonterminal", "can't reach"}
            elif k == "quote":
                rl.insert(rpos, ('%s: %s "x %%0' % (nt, g.leaves[0]), 'missing " in assembler template'))
                glob.add("error")
            elif k == "big":
                dl.insert(dpos, ("%%term %s=%s" % (z, s.pick(["2147483648", "99999999999", "4294967296", "2147483650"])), "integer greater than 2147483647"))
                glob.add("duplicate external symbol number")
            elif k == "char":
                x = s.pick("#$&*+-./;<>?@[]^`{|}~!'")
                rl.insert(rpos, ('%s: %s %s "" 1' % (nt, x, g.leaves[0]), "invalid character `%s'" % x))
            else:
                rl.insert(rpos, ('%s: \x01%s "" 1' % (nt, g.leaves[0]), "invalid character `\\001'"))
        for l, m in dl:
            lines += [s.pick(["", " "])] * (s.below(6) == 5)
            lines.append(l)
            if m:
                msgs.append((len(lines), m))
        lines.append("%%")
        for l, m in rl:
            lines += [s.pick(["", " "])] * (s.below(6) == 5)
            lines.append(l)
            if m:
                msgs.append((len(lines), m))
        text = "\n".join(lines) + "\n" + s.pick(["", "%%\nint x;\n", "%%"])
        ctx.write("s.md", text)
        ctx.say(text)
        r = run([exe, "s.md", "o.c"], cwd=ctx.dir)
        e = r.err.decode("latin-1")
        ctx.check(not r.crashed, "lburg crashed (%d): %s" % (r.rc, e[:1500]))
        ctx.check((r.rc != 0) == (kind == "plant"), "status %d: %s" % (r.rc, e[:500]))
        got = e.split("\n")[:-1]
        for n, m in msgs:
            ctx.check(any(x.startswith("line %d: " % n if n else m) and m in x for x in got), "no message %r for line %s:\n%s" % (m, n, e[:800]))
        for x in got:
            ctx.check(any(x.startswith("line %d: " % n if n else m) and m in x for n, m in msgs) or any(m in x for m in glob), "unexpected message %r; planted: %s" % (x, msgs))
        ctx.key = text
        ctx.nontrivial = bool(msgs)
        return
    text = (conf + "\n".join(decl) + "\n%%\n" + "\n".join(rules) + "\n").encode()
    if s.below(3) == 2:
        text += b"%%\nint x;\n"
    # deep or long constructs, then mutations
    k = s.below(8)
    if k == 0:
        d = s.pick([10, 30, 60, 200, 1000])
        t1 = [x for x in g.arity if g.arity[x] == 1] or ["U"]
        p = (t1[0] + "(") * d + g.start + ")" * d
        text = text.replace(b"%%\n", b"%term U=77777\n%%\n", 1) + (g.start + ": " + p + ' "" 1\n').encode()
    elif k == 1:
        t2 = [x for x in g.arity if g.arity[x] == 2] or ["U"]
        d = s.pick([2, 3, 4, 5, 6])

        def full(d):
            return g.start if d == 0 else "%s(%s,%s)" % (t2[0], full(d - 1), full(d - 1))
        text = text.replace(b"%%\n", b"%term U=77777\n%%\n", 1) + (g.start + ": " + full(d) + ' "" 1\n').encode()
    elif k == 2:
        n = "n" * s.pick([100, 500, 2000, 9000])
        text += ("%s: %s \"%s\" %s\n%s: %s \"\"\n" % (g.start, n, s.pick(["x", n]), s.pick(["1", "f(%s)" % n]), n, g.leaves[0])).encode()
        if s.below(2):
            text = text.replace(b"%%\n", b"%term " + n.upper().encode() + b"=77777\n%%\n", 1) + ("%s: %s \"\"" % (g.start, n.upper())).encode()
    elif k == 3:
        text = text.replace(b"\n", b"\r\n")
    text = bytearray(text)
    toks = [b"%term ", b"%start ", b"%%\n", b"%{\n", b"%}\n", b"\n", b"(", b")", b",", b":", b"=", b'"', b" ", b"0", b"99999999999", b"-1", b"\0", b"\xff", b"%", b"INDIRI(VREGP)", b"\\"] + [x.encode() for x in list(g.terms) + g.nts]
    for _ in range(s.pick([0, 1, 2, 5, 20, 60])):
        i = s.below(len(text) + 1)
        o = s.below(5)
        if o == 0:
            text[i:i] = s.pick(toks)
        elif o == 1:
            del text[i:i + s.pick([1, 1, 2, 5, 30])]
        elif o == 2:
            j = s.below(len(text) + 1)
            text[i:i] = text[j:j + s.pick([1, 5, 20, 80])]
        elif o == 3 and text:
            text[min(i, len(text) - 1)] = s.below(256)
        else:
            m = list(re.finditer(rb"\w+", bytes(text)))
            if m:
                x = s.pick(m)
                text[x.start():x.end()] = s.pick(toks)
    if s.below(6) == 5:
        text = text[:s.below(len(text) + 1)]
    text = bytes(text)
    ctx.write("s.md", text)
    opts = s.pick([[], [], [], ["-T"], ["-p", "a"], ["-p"], ["-x"], ["-pxyz", "-T"]])
    if s.below(12) == 11:
        opts = ["-p" + "q" * s.pick([100, 600, 3000])]
    ctx.say("lburg %s\n%s" % (opts, text.decode("latin-1")[:8000]))
    r = run([exe, "s.md", "o.c"] + opts, cwd=ctx.dir)
    e = r.err.decode("latin-1")
    ctx.check(not r.crashed and r.rc in (0, 1), "lburg crashed or hangs (%d): %s" % (r.rc, e[:2500]))
    ctx.check(r.rc == 0 or e, "failure without a message")
    ctx.check(r.rc != 0 or not e or "warning" in e, "status 0 with messages: %s" % e[:500])
    ctx.label("fuzz: accepted" if r.rc == 0 else "fuzz: refused")
    ctx.key = text
    ctx.nontrivial = True


CHECKS = [
    Check("G01", g01, 700, 30000, "tree grammars of up to 9 nonterminals, 18 terminals of arity 0 to 2 and 110 rules with patterns up to 12 levels deep, chain rules, constant and computed costs, in random layout, with -p, -T and all forms of input and output; each matcher compiled and run on up to 30 trees. "
          "Compared with a dynamic programming search over the rules: costs of every nonterminal at every node, a cheapest rule, its subtrees and their nonterminals, names, templates, trace calls. Non-trivial: at least three rules and an inner node; distinct by specification.", setup),
    Check("G02", g02, 6000, 300000, "valid grammars with up to three planted errors of 16 kinds in random lines, and grammars with deep patterns, long names and up to 60 changes of tokens and bytes; half under AddressSanitizer. "
          "Planted errors: failure status, the prescribed message with the line, no other messages; changed ones: no crash, hang or memory error, a message exactly when the status is 1. Non-trivial: an error or a change; distinct by specification.", setup),
]
