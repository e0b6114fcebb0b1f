"""P01-P05: one prover process under interruptions, limits and allocation failures."""
import re, errno, signal
from dst import core, problems
from dst.core import plan, R, run
from dst.problems import statuses, contradicts, PROOF, MODEL

OPTS = [[], ["--auto"], ["-s", "--auto", "--proof-object"], ["--proof-object", "--print-saturated"], ["--auto", "--presat-simplify"],
  ["--definitional-cnf=2", "--split-clauses=7", "--split-reuse-defs"], ["--simul-paramod", "--condense", "--ac-handling=KeepUnits"],
  ["--satcheck=ConjMinMinFreq", "--satcheck-proc-interval=3"], ["--forward-contract-limit=3", "--filter-orphans-limit=2"],
  ["-tKBO6", "-WSelectNewComplexAHPExceptRRHorn", "-winvfreqrank", "-c1"], ["-l", "4"], ["--pcl-out", "-l", "2"],
  ["--strong-rw-inst", "--detsort-rw", "--fw-subsumption-aggressive"], ["--prefer-initial-clauses", "--sos-uses-input-types"],
  ["-tLPO4", "-WPSelectComplexExceptUniqMaxHorn"], ["--print-statistics", "--resources-info"], ["--free-numbers", "--no-eq-unfolding"],
  ["--proof-object=3", "--full-deriv"], ["--training-examples=3", "--proof-object"], ["--auto", "--memory-limit=2000"], ["--no-preprocessing"],
  ["--expert-heuristic=Weight", "--destructive-er", "--strong-destructive-er", "--destructive-er-aggressive"],
  ["--literal-selection-strategy=NoSelection"], ["--auto", "--output-file=o.out", "--proof-object"]]

def pos(rng, T):
    """a point of a run of length T: uniform, early, or close to the end"""
    T = max(2, T); r = rng.random()
    if r < .5: return rng.randint(1, T)
    if r < .65: return max(1, int(T ** rng.random()))
    return max(1, T - int(T ** rng.random()))

def cmd(opts, f="p.p"): return R("eprover", *opts, f)

def outtext(res, k=0):
    """everything the user sees: stdout plus the output file if one was asked for"""
    return res.out(k) + res.tree.get("o.out", "")

class Single(core.Check):
    real = ["eprover: all E code, unmodified"]
    assumptions = ["Asynchronous signals are delivered at basic-block boundaries of E's code (not inside libc).",
                   "CPU time is the number of executed basic blocks plus a fixed charge per system call, divided by the simulated CPU speed."]
    budget = 40000000
    def base(self, rng, opts=None, prob=None, need=None):
        for _ in range(20):
            pr = prob(rng) if prob else problems.pick(rng)
            if need is None or need(pr): break
        o = list(rng.choice(OPTS)) if opts is None else opts(rng)
        p = plan([cmd(o)], seed=rng.getrandbits(40), files={"p.p": pr["text"]}, tick_budget=self.budget)
        return pr, o, p, run(p)
    def mk(self, rng, o, pr, **k):
        f = {"p.p": pr["text"]}
        return plan([cmd(o)], seed=rng.getrandbits(40), files=f, tick_budget=k.pop("tick_budget", self.budget), **k)
    def shrink(self, case):
        import copy
        # drop command-line options one at a time
        for pi, p in enumerate(case["plans"]):
            a = p["roots"][0]["argv"]
            for i in range(1, len(a) - 1):
                if "limit" in a[i] or a[i].startswith("--output-file") or a[i - 1] == "-l" or a[i] == "-l": continue
                c = copy.deepcopy(case); del c["plans"][pi]["roots"][0]["argv"][i]
                yield c

def disturb(self, rng, pr, o, b, kinds):
    """one disturbed variant of baseline b; returns (plan, kind)"""
    T = b.root()["ticks"]; M = b.root()["ops"].get("malloc", 10); H = b.root()["heap"]
    fin = b.outcome == "done"
    kind = rng.choice(kinds)
    tb = max(int(T * 3), 4000000) if fin else self.budget
    kw = dict(tick_budget=self.budget)
    faults = []; oo = list(o)
    if kind == "sig":
        faults = [[1000, "tick", pos(rng, T), 1, "sig", rng.choice([signal.SIGTERM, signal.SIGINT, signal.SIGXCPU, signal.SIGXCPU])]]
    elif kind == "hard":
        kw["ticks_per_us"] = max(pos(rng, T) / 1e6, 1e-5); oo += ["--cpu-limit=1"]
    elif kind == "soft":
        x = pos(rng, T); kw["ticks_per_us"] = max(x / 1e6, 1e-5)
        oo += ["--soft-cpu-limit=1", "--cpu-limit=%d" % rng.choice([2, 2, 3, 5, 100])]
    elif kind == "malloc1":
        faults = [[1000, "malloc", pos(rng, M), rng.choice([1, 1, 1, 2, 3]), "err", errno.ENOMEM]]
    elif kind == "mallocp":
        faults = [[1000, "malloc", pos(rng, M), 0, "err", errno.ENOMEM]]
    elif kind == "malloci":     # intermittent single failures
        for _ in range(rng.randint(2, 12)): faults.append([1000, "malloc", pos(rng, M), 1, "err", errno.ENOMEM])
    elif kind == "heap":
        kw["heap_limit"] = int(H * rng.uniform(.3, 1.05)) if rng.random() < .5 else int(H - rng.random() ** 3 * 300000)
    elif kind == "bad":
        oo += ["--delete-bad-limit=%d" % rng.choice([1, 1000, rng.randint(1000, 400000), rng.randint(1, max(2, H))])]
    elif kind == "badmem":
        oo += ["--memory-limit=1"]; kw["heap_limit"] = 3000000
    elif kind == "step":
        oo += ["--%s=%d" % (rng.choice(["processed-clauses-limit", "processed-set-limit", "unprocessed-limit", "total-clause-set-limit", "generated-limit", "term-bank-insert-limit"]),
                            rng.choice([1, 2, 3, 5, 8, rng.randint(1, 60), rng.randint(1, 3000)]))]
    elif kind == "watch":       # the prover stops when all watched clauses have been found
        cl = re.findall(r"^cnf\(\w+,\s*\w+,\s*(\(.*\))\)\.$", pr["text"], re.M)
        ws = [rng.choice(cl) for _ in range(rng.randint(1, 3))] if cl and rng.random() < .8 else ["(wlp(a))", "(wlp(X)|~wlp(X))"][:rng.randint(1, 2)]
        pr = dict(pr, text=pr["text"] + "".join("cnf(wl%d,watchlist,%s).\n" % (k, w) for k, w in enumerate(ws)))
        oo += [rng.choice(["--watchlist", "--watchlist", "--static-watchlist"])] + rng.choice([[], ["--no-watchlist-simplification"]])
        if rng.random() < .3: oo += ["--delete-bad-limit=1000"]
    elif kind == "multi":
        faults = [[1000, "tick", pos(rng, T), 1, "sig", signal.SIGXCPU], [1000, "malloc", pos(rng, M), rng.choice([0, 1, 2]), "err", errno.ENOMEM]]
        oo += ["--soft-cpu-limit=1000000"] if rng.random() < .7 else []
    return self.mk(rng, oo, pr, faults=faults, **kw), kind

def finite(pr, o):
    return True

class P01(Single):
    id = "P01"; quick_cases = 2600; thorough_cases = 60000
    rule = "One evaluation = one problem with computed or known truth, one strategy, one undisturbed and three disturbed runs (signal, CPU limit, allocation failure, memory limit, clause deletion or step limit at a seeded point)."
    probes = ("proof verdict under disturbance", "model verdict under disturbance", "no verdict under disturbance", "status then interruption")
    kinds = ["sig", "hard", "soft", "soft", "malloc1", "mallocp", "malloci", "heap", "bad", "badmem", "step", "multi", "watch"]
    def gen(self, rng, i):
        pr, o, p, b = self.base(rng)
        plans = []; kinds = []
        for _ in range(3):
            q, k = disturb(self, rng, pr, o, b, self.kinds); plans.append(q); kinds.append(k)
        return dict(plans=[p] + plans, kinds=["none"] + kinds, truth=pr["truth"], conj=pr["conj"], name=pr["name"])
    def judge(self, case, results):
        v = []
        for r, k in zip(results, case["kinds"]):
            t = outtext(r); st = statuses(t)
            for s in st:
                if contradicts(case, s): v.append(("wrong-verdict", "%s on %s (truth %s) in a run disturbed by %s" % (s, case["name"], case["truth"], k)))
            concl = [s for s in st if s in PROOF or s in MODEL]
            if len(set(s in PROOF for s in concl)) > 1: v.append(("contradicting-verdicts", "%s" % st))
            e = r.status()
            if e == ("exit", 0) and case["truth"] == "S": v.append(("wrong-exit", "proof-found exit code on %s (no proof exists), disturbed by %s" % (case["name"], k)))
            if e == ("exit", 1) and case["truth"] == "U": v.append(("wrong-exit", "satisfiable exit code on %s (refutable), disturbed by %s" % (case["name"], k)))
        return v[:1]
    def probe(self, case, results):
        for r, k in zip(results[1:], case["kinds"][1:]):
            st = statuses(outtext(r))
            if any(s in PROOF for s in st): yield "proof verdict under disturbance"
            elif any(s in MODEL for s in st): yield "model verdict under disturbance"
            else: yield "no verdict under disturbance"
            if len(st) > 1: yield "status then interruption"

INC = [["--sine=Auto"], ["--sine=Threshold(3)"], ["--rel-pruning-level=1"], ["--rel-pruning-level=2"], ["--disable-eq-factoring"], ["--disable-paramod-into-neg-units"],
       ["--literal-selection-strategy=NoGeneration"], ["--literal-comparison=TFOEqMax"]]
class P02(Single):
    id = "P02"; quick_cases = 2600; thorough_cases = 60000
    rule = "One evaluation = one problem, one strategy, one undisturbed run and three runs under limits that discard work."
    probes = ("clauses were thrown away", "watchlist emptied", "gave up", "resource out", "proof despite deletion", "saturated despite limit")
    def gen(self, rng, i):
        pr, o, p, b = self.base(rng, need=(lambda q: q["truth"] == "U") if rng.random() < .75 else None)
        plans = []; kinds = []
        for _ in range(3):
            r = rng.random()
            if r < .15:
                inc = rng.choice(INC); q, k = self.mk(rng, o + inc, pr, tick_budget=15000000), "restricted"
            else: q, k = disturb(self, rng, pr, o, b, ["bad", "bad", "bad", "badmem", "step", "step", "soft", "multi", "watch"])
            q["params"]["tick_budget"] = 15000000
            plans.append(q); kinds.append(k)
        return dict(plans=plans, kinds=kinds, truth=pr["truth"], conj=pr["conj"], name=pr["name"])
    def judge(self, case, results):
        for r, k in zip(results, case["kinds"]):
            t = outtext(r); st = statuses(t)
            sat = any(s in MODEL for s in st) or r.status() == ("exit", 1) or "SZS output start Saturation" in t
            if sat and case["truth"] == "U":
                return [("false-satisfiable", "model-type verdict (%s, exit %s) on refutable %s after work was discarded by %s" % (st, r.status(), case["name"], k))]
            if any(s in PROOF for s in st) and case["truth"] == "S":
                return [("false-proof", "proof verdict %s on %s" % (st, case["name"]))]
            m = re.findall(r"and (\d+) bad clauses \(prover may be incomplete now\)", t)
            if sat and any(int(x) for x in m):
                return [("satisfiable-after-deletion", "model-type verdict after %s clauses were thrown away on %s" % (m, case["name"]))]
        return []
    def probe(self, case, results):
        for r in results:
            t = outtext(r); st = statuses(t)
            if any(int(x) for x in re.findall(r"and (\d+) bad clauses", t)):
                yield "clauses were thrown away"
                if any(s in PROOF for s in st): yield "proof despite deletion"
            if "Watchlist is empty" in t: yield "watchlist emptied"
            if "GaveUp" in st: yield "gave up"
            if "ResourceOut" in st: yield "resource out"
            if any(s in MODEL for s in st): yield "saturated despite limit"

class Last:
    """the last status printed; with an output file there are two streams and either may hold the final word"""
    def __init__(self, r):
        a = statuses(r.out()); b = statuses(r.tree.get("o.out", ""))
        self.set = {x[-1] for x in (a, b) if x} or {None}
    def isin(self, s): return bool(self.set & set(s))
    def only(self, s): return self.set <= set(s)
    def __repr__(self): return "/".join(map(str, sorted(self.set, key=str)))
EXITMSG = {2, 3, 4, 5, 6, 7, 8, 11, 12, 13}
def status_exit(r, silent=False):
    """None or a description of a disagreement between statuses and exit status"""
    e = r.status(); last = Last(r)
    if e[0] == "signal": return None
    c = e[1]; none = {None} if silent else set()
    if c == 0 and not last.isin(PROOF): return "exit code 0 (proof found) but last status is %s" % last
    if c == 1 and not last.isin(MODEL): return "exit code 1 (satisfiable) but last status is %s" % last
    if c in (8, 9) and not last.isin({"ResourceOut"} | none): return "exit code %d (resource out) but last status is %s" % (c, last)
    if c == 10 and not last.isin({"GaveUp"} | none): return "exit code 10 (gave up) but last status is %s" % last
    if c == 14: return "internal exit code 14 left the program"
    if c in EXITMSG and not r.err() and not (silent and c == 8): return "error exit code %d without any error message" % c
    if c > 14: return "undocumented exit code %d" % c
    if last.only(PROOF) and c not in (0, 6, 7): return "last status %s but exit code %d" % (last, c)
    if last.only(MODEL) and c not in (1, 6, 7): return "last status %s but exit code %d" % (last, c)
    return None

BADOPTS = ["--no-such-option", "--cpu-limit=abc", "--cpu-limit=", "-tNoSuchOrdering", "-WNoSuchSelection", "--split-clauses=many", "-HNoSuchHeuristic", "--delete-bad-limit=-5x", "--answers=none", "--definitional-cnf=yes", "--satcheck=Never",
  "--memory-limit=lots", "--soft-cpu-limit=x", "--sine=NoSuchFilter", "--expert-heuristic=nobody", "-Z", "--literal-comparison=Nothing", "--proof-object=many", "--processed-clauses-limit=1.5", "--ac-handling=Sometimes", "--training-examples=a"]
def garble(rng, t):
    """the same problem with an error in it somewhere"""
    for _ in range(rng.choice([1, 1, 2])):
        i = rng.randint(0, len(t)); j = min(len(t), i + rng.choice([1, 1, 2, 5, 30]))
        t = rng.choice([t[:i], t[:i] + t[j:], t[:i] + rng.choice(["(", ")", ",", ".", "'", '"', "$", "![", "p q", " & ", "\0x", "include(", "%", "/*", "= =", "@", "~~", "9", "X", "\n"]) + t[i:], t[:i] + t[i:j] + t[i:]])
    return t
def questions(rng, t):
    t = re.sub(r"^(fof\(\w+,\s*)conjecture", lambda m: m.group(1) + rng.choice(["question", "question", "conjecture"]), t, flags=re.M)
    return t + rng.choice(["", "fof(ansq,question,?[X]: %s(X)).\n" % rng.choice(["p", "q", "even", "nosuch"]), "fof(ansf,axiom,(p(a)|p(b))).\nfof(ansq,question,?[X]: p(X)).\n", "fof(ansf,axiom,(ap(a)&ap(b)&![X]: (ap(X)=>ap(f(X))))).\nfof(ansq,question,?[X]: ap(X)).\n"])

class P03(Single):
    id = "P03"; quick_cases = 2600; thorough_cases = 60000
    rule = "One evaluation = one problem and strategy, undisturbed and under three seeded disturbances; outcome, exit code and statuses compared."
    kinds = ["sig", "hard", "soft", "malloc1", "mallocp", "malloci", "heap", "bad", "step", "multi", "rlim", "ioerr", "watch", "restricted", "garbled", "usage", "answers"]
    def gen(self, rng, i):
        pr, o, p, b = self.base(rng)
        plans = []; kinds = []
        for _ in range(3):
            k = rng.choice(self.kinds)
            if k == "restricted": q = self.mk(rng, o + rng.choice(INC), pr, tick_budget=15000000)
            elif k == "garbled": q = self.mk(rng, o, dict(pr, text=garble(rng, pr["text"])), tick_budget=15000000)
            elif k == "usage": q = self.mk(rng, o[:], pr); q["roots"][0]["argv"].insert(rng.randint(1, 1 + len(o)), rng.choice(BADOPTS))
            elif k == "answers":
                q = self.mk(rng, o + rng.choice([["--answers=%d" % rng.choice([1, 2, 3, 5, 50])], ["--answers=%d" % rng.choice([1, 2, 5, 50]), "--conjectures-are-questions"], ["--conjectures-are-questions"]]), dict(pr, text=questions(rng, pr["text"])), tick_budget=15000000)
                if rng.random() < .3: q["faults"] = [[1000, "tick", pos(rng, b.root()["ticks"]), 1, "sig", signal.SIGXCPU]]; q["roots"][0]["argv"].insert(1, "--soft-cpu-limit=1000")
            elif k == "rlim": q = self.mk(rng, o + ["--cpu-limit=%d" % rng.randint(1, 300)], pr, faults=[[1000, "rlimit", rng.randint(1, 4), rng.choice([0, 1]), "err", errno.EPERM]])
            elif k == "ioerr":
                op = rng.choice(["wout", "wout", "wfile", "read", "openr", "openw", "close"])
                n = b.root()["ops"].get(op, 1)
                q = self.mk(rng, o, pr, faults=[[1000, op, rng.randint(1, n + 1), rng.choice([0, 1]), "err", rng.choice([errno.EIO, errno.ENOSPC, errno.EPIPE if op == "wout" else errno.EIO])]])
            else: q, k = disturb(self, rng, pr, o, b, [k])
            plans.append(q); kinds.append(k)
        return dict(plans=[p] + plans, kinds=["none"] + kinds, name=pr["name"], endless=b.outcome != "done", truth=pr["truth"], conj=pr["conj"])
    def judge(self, case, results):
        for r, k in zip(results, case["kinds"]):
            p = r.root()
            if p["crash"]: return [("crash", "died of signal %d on %s disturbed by %s" % (p["crash"], case["name"], k))]
            if r.outcome == "deadlock": return [("hang", "blocked forever on %s disturbed by %s" % (case["name"], k))]
            if r.outcome == "tickbudget":
                if not case["endless"] and k in ("none", "sig", "malloc1", "mallocp", "malloci", "heap", "multi", "rlim", "ioerr", "hard"):
                    return [("no-end", "run that ends undisturbed did not end on %s disturbed by %s" % (case["name"], k))]
                continue
            e = r.status()
            if e[0] == "signal" and e[1] not in (signal.SIGTERM, signal.SIGINT, signal.SIGPIPE, signal.SIGXCPU): return [("killed", "ended by signal %d on %s disturbed by %s" % (e[1], case["name"], k))]
            m = status_exit(r)
            if m: return [("status-exit", "%s (%s disturbed by %s; statuses %s)" % (m, case["name"], k, statuses(outtext(r))))]
        return []

def norm(t):
    """output without the parts that report consumed time and memory"""
    return "\n".join(l for l in t.split("\n") if not re.match(r"^[%#] (User time|System time|Total time|Maximum resident|Preprocessing time|.*CPU|Resource usage)", l))

class P04(Single):
    id = "P04"; quick_cases = 2600; thorough_cases = 60000
    rule = "One evaluation = one problem and strategy with allocation failures placed at seeded allocations: persistent, burst, single and memory-limit variants."
    probes = ("out-of-memory exit", "transient failure survived")
    def gen(self, rng, i):
        pr, o, p, b = self.base(rng)
        if b.outcome != "done":
            pr = dict(problems.rnd_epr(rng)); o = []; p = plan([cmd(o)], seed=rng.getrandbits(40), files={"p.p": pr["text"]}, tick_budget=self.budget); b = run(p)
        o = [x for x in o if not x.startswith("--memory-limit")]
        p["roots"][0]["argv"] = cmd(o)["argv"]
        plans = []; kinds = []; pts = []
        for k in ["mallocp", rng.choice(["mallocp", "heap", "mallocb"]), "malloc1"]:
            if k == "mallocb":
                q = self.mk(rng, o, pr, faults=[[1000, "malloc", pos(rng, b.root()["ops"]["malloc"]), 0, "err", errno.ENOMEM, ""]])
                q["faults"][0][5] = rng.choice([64, 512, 1024, 4096])   # only larger requests fail
            elif k == "malloc1": q = self.mk(rng, o, pr, faults=[[1000, "malloc", pos(rng, b.root()["ops"]["malloc"]), 1, "err", 0]])
            elif k == "mallocp": q = self.mk(rng, o, pr, faults=[[1000, "malloc", pos(rng, b.root()["ops"]["malloc"]), 0, "err", 0]])
            else: q, _ = disturb(self, rng, pr, o, b, [k])
            plans.append(q); kinds.append(k)
        return dict(plans=[p] + plans, kinds=["none"] + kinds, name=pr["name"], truth=pr["truth"], conj=pr["conj"], bticks=b.root()["ticks"])
    def judge(self, case, results):
        b = results[0]
        for r, k in list(zip(results, case["kinds"]))[1:]:
            p = r.root(); e = r.status(); t = outtext(r); st = statuses(t)
            failed = bool(r.d["fired"].get("malloc:err")) or (k == "heap" and e == ("exit", 2))
            if p["crash"]: return [("crash", "died of signal %d when allocation failed (%s, %s)" % (p["crash"], case["name"], k))]
            if r.outcome != "done": return [("hang", "did not end after allocation failure: %s (%s, %s)" % (r.outcome, case["name"], k))]
            if any(contradicts(case, s) for s in st): return [("wrong-verdict", "%s on %s" % (st, case["name"]))]
            if k == "malloc1":
                # reclaiming memory changes addresses, which may change the order of the search, but not the verdict
                if st != statuses(outtext(b)) or e != b.status():
                    return [("transient-changes-result", "a single failing allocation changed the result on %s: exit %s instead of %s, statuses %s instead of %s" % (case["name"], e, b.status(), st, statuses(outtext(b))))]
            elif e != ("exit", 2):
                if k == "mallocp" and failed: return [("no-oom-exit", "persistent allocation failure ended with %s instead of the out-of-memory exit code (%s)" % (e, case["name"]))]
                if e != b.status(): return [("no-oom-exit", "memory shortage ended with %s instead of the out-of-memory exit code (%s, %s)" % (e, case["name"], k))]
            else:
                if "emory" not in r.err(): return [("oom-silent", "out-of-memory exit without saying so (%s, %s)" % (case["name"], k))]
                if not Last(r).isin({"ResourceOut"}): return [("oom-status", "out-of-memory exit but last status is %s (%s, %s)" % (Last(r), case["name"], k))]
                if p["ticks"] > case["bticks"] + 3000000: return [("oom-late", "ran on for long after memory was exhausted (%s)" % case["name"])]
        return []
    def probe(self, case, results):
        for r, k in list(zip(results, case["kinds"]))[1:]:
            if r.status() == ("exit", 2): yield "out-of-memory exit"
            elif r.d["fired"].get("malloc:err"): yield "transient failure survived"

def firstdiff(a, b):
    a = a.split("\n"); b = b.split("\n")
    for i in range(max(len(a), len(b))):
        x = a[i] if i < len(a) else "<end>"; y = b[i] if i < len(b) else "<end>"
        if x != y: return "line %d: %r vs %r" % (i + 1, x[:160], y[:160])
    return "same"

class P05(Single):
    id = "P05"; quick_cases = 2600; thorough_cases = 60000
    rule = "One evaluation = one problem and strategy under three CPU-limit settings with a simulated CPU speed chosen so that the limit strikes at a seeded point (parsing, preprocessing, saturation, proof output)."
    probes = ("hard limit ended the run", "soft limit ended the run", "soft then hard limit", "finished before the limit")
    def gen(self, rng, i):
        pr, o, p, b = self.base(rng, prob=(lambda r: dict(problems.BYNAME[r.choice(["grp-comm", "grp-idem", "grp-sat", "rw-sat", "trans-chain-cs", "set-incl"])])) if rng.random() < .4 else None)
        T = b.root()["ticks"]; plans = []; lims = []
        for _ in range(3):
            x = pos(rng, T)
            hard = soft = None
            r = rng.random()
            if r < .45: hard = rng.choice([1, 2, 3, 10, 60, 300]); lim = hard
            elif r < .6: soft = rng.choice([1, 2, 10, 60]); lim = soft
            else: soft = rng.choice([1, 2, 3, 10, 60]); hard = soft + rng.choice([1, 1, 2, 10, 100]); lim = rng.choice([soft, soft, hard])
            oo = o + (["--soft-cpu-limit=%d" % soft] if soft else []) + (["--cpu-limit=%d" % hard] if hard else [])
            if soft and hard and rng.random() < .5: oo[-2], oo[-1] = oo[-1], oo[-2]
            tpu = max(x / (lim * 1e6), 1e-4)
            q = self.mk(rng, oo, pr, ticks_per_us=tpu, tick_budget=int(T * 2.5) + 20000000)
            plans.append(q); lims.append([soft, hard, tpu])
        return dict(plans=plans, lims=lims, name=pr["name"], truth=pr["truth"], conj=pr["conj"])
    def judge(self, case, results):
        for r, (soft, hard, tpu) in zip(results, case["lims"]):
            p = r.root(); e = r.status(); st = statuses(outtext(r)); cpu = p["cpu_us"] / 1e6; w = "soft=%s hard=%s on %s" % (soft, hard, case["name"])
            if p["crash"]: return [("crash", "died of signal %d (%s)" % (p["crash"], w))]
            if hard:
                # grace: what printing the failure takes, in CPU time of the simulated machine
                if cpu > hard + 60000 / (tpu * 1e6): return [("limit-exceeded", "used %.3f s CPU (%s)" % (cpu, w))]
                if r.outcome != "done": return [("limit-exceeded", "still running at %.3f s CPU (%s)" % (cpu, w))]
            if soft and not hard:
                if r.outcome != "done" and cpu > soft + 18000000 / (tpu * 1e6): return [("soft-ignored", "still running at %.3f s CPU (%s)" % (cpu, w))]
            if r.outcome != "done": continue
            if e[0] == "signal": return [("killed", "ended by signal %d instead of an orderly stop (%s)" % (e[1], w))]
            if p["xcpu"]:
                by_hard = (not soft) or (hard and cpu >= hard)
                if by_hard and e[1] != 8: return [("limit-not-reported", "CPU limit struck but exit code is %d, statuses %s (%s)" % (e[1], st, w))]
                if by_hard and not Last(r).isin({"ResourceOut"}): return [("limit-not-reported", "CPU limit struck but last status is %s (%s)" % (st[-1:], w))]
                if not by_hard and e[1] not in (0, 1, 9, 10): return [("soft-outcome", "soft limit ended with exit code %d, statuses %s (%s)" % (e[1], st, w))]
                m = status_exit(r)
                if m: return [("limit-status", "%s (%s)" % (m, w))]
            elif e[1] not in (0, 1, 10): return [("early-stop", "exit code %d though no limit was reached: %.3f s CPU, %s" % (e[1], cpu, w))]
            if any(contradicts(case, s) for s in st): return [("wrong-verdict", "%s (%s)" % (st, w))]
        return []
    def probe(self, case, results):
        for r, (soft, hard, tpu) in zip(results, case["lims"]):
            x = r.root()["xcpu"]
            if not x: yield "finished before the limit"
            elif not soft: yield "hard limit ended the run"
            elif x > 1: yield "soft then hard limit"
            else: yield "soft limit ended the run"
