"""P22: the grounder under limits and faults."""
import re, errno, signal, itertools, copy
from dst import core
from dst.core import plan, R, run
from dst.checks.single import pos

COMPLETE = "Full and complete proof state written!"
INCOMPLETE = ("Out of memory: Proof state incomplete!", "Timeout: Proof state incomplete!")

# ---------------------------------------------------------------- reference: plain Herbrand instantiation
ARITY = dict(p=1, q=2, r=0, s=1, t=3)
def spec(rng):
    """list of clauses; a clause is a list of (sign, predicate, args), an argument a constant or an upper-case variable"""
    consts = ["a", "b", "c", "d", "e"][:rng.choice([1, 2, 2, 3, 3, 4])]
    V = ["X", "Y", "Z"][:rng.choice([0, 1, 2, 2, 3])]; out = []
    preds = rng.sample(sorted(ARITY), rng.choice([2, 3, 4, 5]))
    big = rng.random() < .3
    if big: consts = ["a", "b", "c", "d", "e"][:rng.choice([4, 5])]; V = ["X", "Y", "Z", "U"]
    for _ in range(rng.choice([2, 3, 5, 8, 12])):
        c = []
        for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
            f = rng.choice(preds)
            c.append((rng.random() < .5, f, tuple(rng.choice(V) if V and rng.random() < .6 else rng.choice(consts) for _ in range(ARITY[f]))))
        out.append(c)
    out.append([(True, "s", (x,)) for x in consts])     # every constant is part of the problem
    rng.shuffle(out)
    return out
def lit(l): return ("" if l[0] else "~") + l[1] + ("(%s)" % ",".join(l[2]) if l[2] else "")
def write(rng, cl):
    t = []
    for i, c in enumerate(cl):
        b = "|".join(map(lit, c)); vs = sorted({x for l in c for x in l[2] if x.isupper()})
        if rng.random() < .2: t.append("fof(c%d,axiom,%s(%s))." % (i, "![%s]:" % ",".join(vs) if vs else "", b))
        else: t.append("cnf(c%d,axiom,(%s))." % (i, b))
    return "\n".join(t) + "\n"
def ground(cl):
    consts = sorted({x for c in cl for l in c for x in l[2] if x.islower()}); out = set()
    for c in cl:
        vs = sorted({x for l in c for x in l[2] if x.isupper()})
        for v in itertools.product(consts, repeat=len(vs)):
            m = dict(zip(vs, v))
            g = frozenset((s, f) + tuple(m.get(x, x) for x in a) for s, f, a in c)
            if not any((not l[0],) + l[1:] in g for l in g): out.add(g)
    return out
def neg(l): return (not l[0],) + l[1:]
def propagate(cl, true):
    """unit propagation from the literals in true: False on conflict, else the extended set"""
    true = set(true); cl = list(cl); change = True
    if any(neg(l) in true for l in true): return False
    while change:
        change = False; rest = []
        for c in cl:
            if any(l in true for l in c): continue
            o = [l for l in c if neg(l) not in true]
            if not o: return False
            if len(o) == 1: true.add(o[0]); change = True
            else: rest.append(frozenset(o))
        cl = rest
    return true, cl
def implied(cl, c): return propagate(cl, {neg(l) for l in c}) is False
def sat(cl, true=frozenset()):
    r = propagate(cl, true)
    if r is False: return False
    t, rest = r
    if not rest: return True
    l = min(rest, key=lambda c: (len(c), sorted(c)))
    l = sorted(l)[0]
    return sat(rest, {l}) or sat(rest, {neg(l)})

LIT = re.compile(r"(~?)([a-z]\w*)(?:\(([^()]*)\))?$")
def parse(text):
    """clauses of a TSTP listing; None if a line is not understood"""
    out = []
    for m in re.finditer(r"^cnf\((\w+), \w+, \((.*)\)\)\.$", text, re.M):
        c = []
        for x in m.group(2).split("|"):
            if x == "$false": continue
            k = LIT.match(x)
            if not k: return None
            c.append((not k.group(1), k.group(2)) + tuple(k.group(3).split(",") if k.group(3) else ()))
        out.append(frozenset(c))
    return out
def dimacs(text):
    m = re.search(r"^p cnf (\d+) (\d+)$", text, re.M)
    if not m: return None
    out = []; cur = []
    for line in text[m.end():].split("\n"):
        if line.startswith("%") or line.startswith("c"): continue
        for w in line.split():
            if w == "0": out.append(frozenset((int(x) > 0, abs(int(x))) for x in cur)); cur = []
            else: cur.append(w)
    return int(m.group(1)), int(m.group(2)), out, cur

def late(rng, T):
    """a point of the run, mostly in its second half, where the instances are made and written"""
    return pos(rng, T) if rng.random() < .3 else int(T * (1 - rng.random() ** 2 * .6)) or 1

class P22(core.Check):
    id = "P22"; quick_cases = 3000; thorough_cases = 60000
    rule = "One evaluation = one random function-free clause set grounded by eground once undisturbed and three times with a soft or hard CPU limit, a failing allocation, a memory limit, an input or an output fault at a seeded point. Every announcement and every printed clause is compared with a plain Herbrand instantiation."
    probes = ("complete", "time limit", "out of memory", "ended by the hard limit", "announced complete although disturbed", "partial set printed", "dimacs", "constraints", "empty clause")
    real = ["eground: all E code, unmodified"]
    assumptions = ["Signals are delivered at basic-block boundaries of E's code.", "Function-free clause sets of up to 13 clauses, 5 predicates and 4 constants."]
    OPTS = [[], [], ["-i"], ["-c"], ["-c", "-i"], ["-U"], ["-r"], ["-t"], ["-U", "-r", "-t"], ["-s"], ["--split-tries=1"], ["--print-statistics"], ["-o", "o.out"]]
    def gen(self, rng, i):
        cl = spec(rng); o = list(rng.choice(self.OPTS)); dim = rng.random() < .15
        f = ["--tstp-in", "--dimacs"] if dim else ["--tstp-format"]
        mk = lambda extra, **k: plan([R("eground", *f, *o, *extra, "p.p")], seed=rng.getrandbits(40), files={"p.p": self.text}, tick_budget=30000000, **k)
        self.text = write(rng, cl)
        p = mk([]); b = run(p); plans = [p]; kinds = ["none"]
        T = b.root()["ticks"]; M = b.root()["ops"].get("malloc", 10)
        for _ in range(3):
            k = rng.choice(["soft", "soft", "soft", "sig", "hard", "malloc1", "malloc1", "mallocp", "heap", "write", "read"]); faults = []; x = []; kw = {}
            if k == "soft": kw["ticks_per_us"] = max(late(rng, T) / 1e6, 1e-5); x = ["--soft-cpu-limit=1", "--cpu-limit=%d" % rng.choice([2, 3, 100])]
            elif k == "hard": kw["ticks_per_us"] = max(late(rng, T) / 1e6, 1e-5); x = ["--cpu-limit=1"]
            elif k == "sig": faults = [[1000, "tick", late(rng, T), 1, "sig", signal.SIGXCPU]]; x = ["--soft-cpu-limit=1000", "--cpu-limit=2000"]
            elif k == "malloc1": faults = [[1000, "malloc", late(rng, M), rng.choice([1, 1, 2]), "err", errno.ENOMEM]]
            elif k == "mallocp": faults = [[1000, "malloc", late(rng, M), 0, "err", errno.ENOMEM]]
            elif k == "heap": kw["heap_limit"] = int(b.root()["heap"] * rng.uniform(.5, 1.02))
            elif k == "write": faults = [[1000, rng.choice(["wout", "wfile"]), rng.randint(1, 6), rng.choice([0, 1]), "err", rng.choice([errno.ENOSPC, errno.EIO])]]
            elif k == "read": faults = [[1000, "read", rng.randint(1, 3), rng.choice([0, 1]), "err", errno.EIO, "p.p"]]
            plans.append(mk(x, faults=faults, **kw)); kinds.append(k)
        return dict(plans=plans, kinds=kinds, clauses=cl, opts=o, dim=dim)
    def judge(self, case, results):
        cl = [[(l[0], l[1], tuple(l[2])) for l in c] for c in case["clauses"]]
        full = ground(cl); truth = None
        purity = "-c" in case["opts"]; split = any(x.startswith("--split") for x in case["opts"])
        for r, k in zip(results, case["kinds"]):
            st = r.status(); q = r.root()
            if q["crash"]: return [("crash", "eground died of signal %d (%s)" % (q["crash"], k))]
            if r.outcome != "done": return [("hang", "eground does not end (%s, %s)" % (r.outcome, k))]
            t = r.tree.get("o.out", "") if "-o" in case["opts"] else r.out(); announced = COMPLETE in t; part = [x for x in INCOMPLETE if x in t]
            if announced and part: return [("announcement", "announced as complete and as incomplete (%s)" % k)]
            if k == "none" and (not announced or st != ("exit", 0)): return [("announcement", "no limit struck, but the result is not announced as complete: %s, %s" % (st, t[-200:]))]
            if st == ("exit", 0) and not announced and not part: return [("announcement", "success exit without an announcement (%s): %s" % (k, t[-200:]))]
            if not announced and not part: continue
            if k in ("write",) and st != ("exit", 0): continue     # cut-off output, reported as such
            if case["dim"]:
                d = dimacs(t)
                if d is None or d[3] or d[1] != len(d[2]): return [("listing", "the DIMACS header does not fit the clauses (%s): %s" % (k, t[:300]))]
                if announced:
                    if truth is None: truth = sat(full)
                    if sat(d[2]) != truth: return [("incomplete", "announced as complete (%s), but the set is %ssatisfiable and the input is not" % (k, "" if not truth else "un"))]
                elif not sat(d[2]):
                    if truth is None: truth = sat(full)
                    if truth: return [("untrue", "an incomplete result (%s) is unsatisfiable, the input is not" % k)]
                continue
            c = parse(t)
            if c is None: return [("listing", "unreadable clause (%s): %s" % (k, t[:300]))]
            if not split:
                for x in c:
                    if x not in full and not implied(full, x): return [("untrue", "printed (%s) but not a consequence of the input: %s" % (k, sorted(x)))]
            if announced:
                if purity or split:
                    if truth is None: truth = sat(full)
                    if sat(c) != truth: return [("incomplete", "announced as complete (%s), but the satisfiability differs from the input's" % k)]
                else:
                    for x in full:
                        if not any(y <= x for y in c) and not implied(c, x): return [("incomplete", "announced as complete (%s), but the instance %s is missing" % (k, sorted(x)))]
        return []
    def probe(self, case, results):
        if case["dim"]: yield "dimacs"
        if "-c" in case["opts"]: yield "constraints"
        for r, k in zip(results, case["kinds"]):
            t = r.out() + r.tree.get("o.out", "")
            if k == "none" and frozenset() in (parse(t) or ()): yield "empty clause"
            if COMPLETE in t: yield "complete" if k == "none" else "announced complete although disturbed"
            if INCOMPLETE[1] in t: yield "time limit"
            if INCOMPLETE[0] in t: yield "out of memory"
            if any(x in t for x in INCOMPLETE) and "cnf(" in t: yield "partial set printed"
            if r.status() == ("exit", 8): yield "ended by the hard limit"
    def shrink(self, case):
        for i in range(len(case["clauses"])):
            c = copy.deepcopy(case); del c["clauses"][i]
            if not any(l[2] for q in c["clauses"] for l in q if any(x.islower() for x in l[2])): continue
            t = "\n".join("cnf(c%d,axiom,(%s))." % (j, "|".join(map(lit, q))) for j, q in enumerate(c["clauses"])) + "\n"
            for p in c["plans"]: p["files"]["p.p"] = t
            yield c
