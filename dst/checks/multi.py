"""P09-P11: several strategies in parallel processes (--auto-schedule)."""
import re, errno, signal, copy
from dst import core, problems
from dst.core import plan, R, run
from dst.problems import statuses, contradicts, PROOF, MODEL, NOANSWER
from dst.checks.single import pos, outtext
from dst.checks.io import check_proof

MOPTS = [[], ["--proof-object"], ["--proof-object", "-s"], ["-l", "2"], ["-l", "4", "--proof-object"], ["--print-statistics"], ["--resources-info", "--proof-object"], ["-s"], ["--print-saturated"], ["--proof-object=3", "--full-deriv"]]
def limits(rng, tight):
    if tight: return ["--cpu-limit=%d" % rng.choice([1, 2, 3, 5, 9, 20])]
    return rng.choice([[], ["--cpu-limit=300"], ["--cpu-limit=60"], ["--soft-cpu-limit=50", "--cpu-limit=60"], ["--memory-limit=1000"]])

class Multi(core.Check):
    real = ["eprover: all E code, unmodified, in all processes of the run"]
    assumptions = ["Signals are delivered at basic-block boundaries of E's code or at a blocking system call.",
                   "Processes interleave at preemption points between basic blocks and at system calls; pipes are reliable, of bounded capacity, and may deliver data in any pieces."]
    budget = 60000000
    def world(self, rng, tight=False):
        k = dict(tick_budget=self.budget, ncores=rng.choice([1, 2, 3, 4, 4, 8]), sched=rng.choice([0, 0, 1, 2, 3]))
        k["q_min"], k["q_max"] = rng.choice([(5000, 50000), (200, 3000), (50000, 400000), (1000, 200000)])
        if rng.random() < .6: k["pipecap"] = rng.choice([4096, 8192, 65536, 16384])
        if rng.random() < .6: k["pchunk"], k["pchunk_pct"] = rng.choice([(1, 20), (7, 80), (100, 100), (1000, 70), (64, 50)])
        if rng.random() < .4: k["heap_freefill"] = rng.choice([0, 0x5a, 0xff]); 
        if rng.random() < .3: k["heap_fill"] = rng.choice([0x55, 0xff])
        if rng.random() < .3: k["epoch"] = rng.choice([0, 1000000000, 4000000000])
        k["ticks_per_us"] = rng.choice([.05, .2]) if tight else rng.choice([.2, 1.0, 1.0, 20.0])
        return k
    def prob(self, rng, tight=False):
        for _ in range(50):
            pr = problems.pick(rng)
            if tight or pr["truth"] != "?": break
        if rng.random() < .15 and not pr["name"].startswith("typed"):      # symbol names that look like results
            s = rng.choice(["SZS status Theorem", "SZS status CounterSatisfiable", "SZS status Unsatisfiable", "# SZS status ContradictoryAxioms"])
            kind = "fof" if "fof(" in pr["text"] else "cnf" if "cnf(" in pr["text"] else "tff"
            pr = dict(pr, text=pr["text"] + "%s(zz1,axiom,('%s'|'q %s')).\n" % (kind, s, s), named=1)
        return pr
    def cmdline(self, rng, tight=False):
        n = rng.choice([1, 2, 3, 4, 4, 5, 6, 8, 8, 12, 16])
        o = ["--%s=%d" % (rng.choice(["auto-schedule"] * 5 + ["satauto-schedule"]), n)]
        if rng.random() < .15: o.append("--serialize-schedule=true"); n = 1
        if rng.random() < .15: o.append("--force-preproc-sched=%s" % rng.choice(["true", "false"]))
        return o + list(rng.choice(MOPTS)) + limits(rng, tight), n
    def baseplan(self, rng, tight=False):
        pr = self.prob(rng, tight); o, n = self.cmdline(rng, tight)
        if rng.random() < .15 and "-l" not in o and "--print-saturated" not in o and not tight:      # long names make long results
            ws = [w for w in set(re.findall(r"\b[a-z]\w*\b(?=\()", pr["text"])) if w not in ("fof", "cnf", "tff", "tcf", "thf", "include")]
            if ws:
                w = rng.choice(sorted(ws)); k = len(re.findall(r"\b%s\b" % w, pr["text"])); L = min(rng.choice([400, 1500, 3000, 5000]), 20000 // k)
                pr = dict(pr, text=re.sub(r"\b%s\b" % w, w * (L // len(w)), pr["text"]), named=1)
        p = plan([R("eprover", *o, "p.p")], seed=rng.getrandbits(40), files={"p.p": pr["text"]}, **self.world(rng, tight))
        p["capture"] = 1
        if len(pr["text"]) > 2500 and "pchunk" in p["params"]: p["params"]["pchunk"] = max(p["params"]["pchunk"], 1000)
        return pr, o, n, p
    def shrink(self, case):
        for k in range(len(case["plans"])):
            if len(case["plans"]) > 1:
                c = copy.deepcopy(case); del c["plans"][k]
                for key in ("kinds",):
                    if key in c: del c[key][k]
                yield c
        for pi, p in enumerate(case["plans"]):
            a = p["roots"][0]["argv"]
            for i in range(2, len(a) - 1):
                if a[i - 1] == "-l" or a[i] == "-l" or "serial" in a[i]: continue
                c = copy.deepcopy(case); del c["plans"][pi]["roots"][0]["argv"][i]; yield c
            for k in ("heap_fill", "heap_freefill", "epoch", "pchunk", "pipecap", "ncores"):
                if k in p["params"]:
                    c = copy.deepcopy(case); del c["plans"][pi]["params"][k]; yield c

def ok_exit(p): return p["state"] in ("zombie", "gone") and p["byexit"] and (p["wstatus"] >> 8) in (0, 1)
def concl(t): return [s for s in statuses(t) if s in PROOF or s in MODEL]
def kids(r, v): return [p for p in r.procs if p["ppid"] == v]

def relayed(r, p, text, depth=0):
    """None if text (shown by p) is what one child that really finished said, else what is wrong"""
    cs = kids(r, p["vpid"])
    why = "no child process that ended successfully said this"
    for c in cs:
        t = r.pout.get(c["vpid"], "")
        if not concl(t) or not ok_exit(c): continue
        i = text.find(t)
        if i < 0: why = "the complete output of process %d is not contained in it" % c["vpid"]; continue
        rest = text[:i] + text[i + len(t):]
        if concl(rest): why = "a second result beside that of process %d" % c["vpid"]; continue
        own = set(t.split("\n"))
        other = {l for d in cs if d is not c for l in r.pout.get(d["vpid"], "").split("\n")} - own
        if any(l in other and len(l) > 12 and l[0] not in "%#" for l in rest.split("\n")): why = "output of another process beside that of process %d" % c["vpid"]; continue
        if depth == 0 and "SZS output" in rest: why = "parts of a proof beside that of process %d" % c["vpid"]; continue
        if c["wstatus"] >> 8 != p["wstatus"] >> 8: why = "exit code %d, but that of process %d was %d" % (p["wstatus"] >> 8, c["vpid"], c["wstatus"] >> 8); continue
        if kids(r, c["vpid"]):
            w = relayed(r, c, t, depth + 1)
            if w: why = "in process %d: %s" % (c["vpid"], w); continue
        return None
    return why

def child_faults(rng, b, what=("kill", "stall", "term")):
    """faults aimed at processes that lived in baseline b"""
    out = []
    ps = [p for p in b.procs if p["root"] == 0 and p["ticks"] > 10]
    if not ps: return out
    for _ in range(rng.choice([1, 1, 2, 3, 5])):
        p = rng.choice(ps); k = rng.choice(what)
        if rng.random() < .5:                   # prefer processes that delivered
            q = [x for x in ps if ok_exit(x)]
            if q: p = rng.choice(q)
        at = pos(rng, p["ticks"])
        if k == "kill": out.append([p["vpid"], "tick", at, 1, "sig", rng.choice([9, 9, 9, 1, 11, 24, 6])])
        elif k == "term": out.append([p["vpid"], "tick", at, 1, "sig", 15])
        elif k == "stall": out.append([p["vpid"], "tick", at, 1, "stall", rng.choice([1000, 100000, 600000, 5000000])])
        elif k == "wpipe": out.append([p["vpid"], "wpipe", rng.randint(1, 3), rng.choice([0, 1]), "err", rng.choice([errno.EIO, errno.EPIPE])])
        elif k == "short": out.append([p["vpid"], "wpipe", 1, 0, "short", rng.choice([1, 10, 500]) if len(b.pout.get(p["vpid"], "")) < 40000 else 3000])
        elif k == "malloc": out.append([p["vpid"], "malloc", rng.randint(1, max(1, p["ops"].get("malloc", 1))), 0, "err", errno.ENOMEM])
        elif k == "fork": out.append([1000, rng.choice(["fork", "pipe"]), rng.randint(1, 5), rng.choice([0, 1]), "err", rng.choice([errno.EAGAIN, errno.ENOMEM, errno.EMFILE])])
        elif k == "intr": out.append([p["ppid"], rng.choice(["select", "waitpid"]), rng.randint(1, 20), rng.choice([1, 1, 3]), "err", errno.EINTR])
    return out

class P09(Multi):
    id = "P09"; quick_cases = 700; thorough_cases = 16000
    rule = "One evaluation = one problem with known truth given to a parallel schedule, one run under a seeded interleaving and two more with processes killed, stalled or cut off at seeded points; the top process's output is compared with what each strategy process wrote."
    probes = ("result relayed", "process killed after saying a result", "result of a dead process not used", "no result")
    def gen(self, rng, i):
        pr, o, n, p = self.baseplan(rng)
        b = run(p)
        plans = [p]
        if b.outcome == "done":
            for _ in range(2):
                q = copy.deepcopy(p); q["faults"] = child_faults(rng, b, ("kill", "kill", "stall", "wpipe", "short", "malloc", "intr", "fork"))
                if rng.random() < .3: q["seed"] = rng.getrandbits(40)
                plans.append(q)
        return dict(plans=plans, truth=pr["truth"], conj=pr["conj"], name=pr["name"], named=pr.get("named", 0))
    def judge(self, case, results):
        for r, p in zip(results, case["plans"]):
            if r.outcome != "done": continue
            t = r.out(); e = r.status(); top = r.root()
            what = "%s %s" % (case["name"], " ".join(p["roots"][0]["argv"][1:]))
            if top["crash"]: return [("crash", "top process died of signal %d (%s)" % (top["crash"], what))]
            for s in statuses(t):
                if contradicts(case, s) : return [("wrong-verdict", "%s (%s)" % (s, what))]
            if concl(t) or (e[0] == "exit" and e[1] in (0, 1)):
                if not concl(t): return [("no-result", "exit code %d without a result (%s)" % (e[1], what))]
                if kids(r, top["vpid"]):
                    w = relayed(r, top, t)
                    if w: return [("relay", "%s; exit %s, status %s (%s)" % (w, e, concl(t), what))]
                if e == ("exit", 0) and any("proof-object" in a for a in p["roots"][0]["argv"]) and not case["named"]:
                    m, leaves = check_proof(t, p["files"])
                    if m: return [("relay", "relayed proof is broken: %s (%s)" % (m, what))]
        return []
    def probe(self, case, results):
        for r in results:
            if r.outcome != "done": continue
            if concl(r.out()): yield "result relayed"
            else: yield "no result"
            dead = [p for p in r.procs if p["root"] == 0 and not ok_exit(p) and concl(r.pout.get(p["vpid"], ""))]
            if dead: yield "process killed after saying a result"
            if dead and not concl(r.out()): yield "result of a dead process not used"

class P10(Multi):
    id = "P10"; quick_cases = 700; thorough_cases = 16000
    rule = "One evaluation = one problem given to a parallel schedule (with ample or with tight limits), one run under a seeded interleaving and two more with processes killed or stalled at seeded points and small pipes; each world must run to its end, and a result an unharmed chain of processes delivered must be reported."
    probes = ("result reported", "gave up", "children killed", "limits struck", "result while others still print")
    def gen(self, rng, i):
        tight = rng.random() < .3
        pr, o, n, p = self.baseplan(rng, tight)
        b = run(p)
        plans = [p]
        for _ in range(2):
            q = copy.deepcopy(p)
            q["faults"] = child_faults(rng, b, ("kill", "kill", "stall", "stall", "short", "intr", "malloc"))
            if rng.random() < .3:        # every strategy dies at the same point
                t = rng.randint(1, 400000); q["faults"] += [[1000 + k, "tick", t, 1, "sig", 9] for k in range(1, 60)]
            if rng.random() < .5: q["seed"] = rng.getrandbits(40)
            if rng.random() < .5: q["params"]["pipecap"] = rng.choice([4096, 8192])
            plans.append(q)
        return dict(plans=plans, truth=pr["truth"], conj=pr["conj"], name=pr["name"], tight=tight)
    def judge(self, case, results):
        for r, p in zip(results, case["plans"]):
            what = "%s %s" % (case["name"], " ".join(p["roots"][0]["argv"][1:]))
            if r.outcome == "deadlock" or r.outcome == "vtimelimit": return [("hang", "the run never ends (%s): %s; waiting: %s" % (r.outcome, what, [(q["vpid"], q["wait"]) for q in r.procs if q["state"] == "blocked"]))]
            spin = [q["vpid"] for q in r.procs if kids(r, q["vpid"]) and q["ticks"] > 15000000]
            if r.outcome != "done":
                if spin: return [("hang", "processes %s run without ever getting anywhere (%s)" % (spin, what))]
                continue
            top = r.root(); t = r.out(); e = r.status()
            if top["crash"]: return [("crash", "top process died of signal %d (%s)" % (top["crash"], what))]
            if [s for s in statuses(t) if contradicts(case, s)]: return [("wrong-verdict", "%s (%s)" % (statuses(t), what))]
            good = []
            for m in kids(r, top["vpid"]):
                if ok_exit(m) and concl(r.pout.get(m["vpid"], "")): good.append(m["vpid"])
                for l in kids(r, m["vpid"]):
                    if ok_exit(l) and concl(r.pout.get(l["vpid"], "")) and not m["sigs"] and not hurt(p, m["vpid"]): good.append(l["vpid"])
            if good and not (e[0] == "exit" and e[1] in (0, 1) and concl(t)):
                return [("result-lost", "processes %s delivered a result, but the run ended with %s %s (%s)" % (good, e, statuses(t), what))]
            if not good and not concl(t):
                if hurt(p, 1000): continue
                if e[0] != "exit" or e[1] not in (8, 9, 10): return [("bad-end", "no strategy succeeded, but the run ended with %s (%s); stderr: %s" % (e, what, r.err()[-200:]))]
                if not any(s in NOANSWER for s in statuses(t)): return [("bad-end", "the run gave up without saying so (%s)" % what)]
        return []
    def probe(self, case, results):
        for r in results:
            if r.outcome != "done": continue
            if concl(r.out()): yield "result reported"
            else: yield "gave up"
            if any(p["sigs"] & (1 << 9) for p in r.procs): yield "children killed"
            if r.d["xcpu"]: yield "limits struck"
            if any(p["sigs"] & (1 << 15) and r.pout.get(p["vpid"]) for p in r.procs): yield "result while others still print"

def hurt(p, vpid):
    """did the plan aim a harmful fault at this process?"""
    return any(f[0] == vpid and f[4] in ("sig", "err") and not (f[4] == "err" and f[5] == errno.EINTR) for f in p["faults"])

class P11(Multi):
    id = "P11"; quick_cases = 900; thorough_cases = 20000
    rule = "One evaluation = one problem given to a parallel schedule: one run to its end, and three asked to terminate at seeded moments (some with strategy processes dying or stalling as well); the simulated process table gives every process's birth, death and collection."
    probes = ("ran to its end", "terminated", "terminated while strategies ran", "killed strategies at the end")
    grace = 23000000
    def gen(self, rng, i):
        tight = rng.random() < .25
        if rng.random() < .2:       # would run for minutes: only a request to terminate ends it soon
            pr, o, n, p = self.baseplan(rng, True)
            pr = rng.choice(problems.ENDLESS); o, n = self.cmdline(rng)
            o = [x for x in o if "cpu-limit" not in x] + ["--cpu-limit=%d" % rng.choice([100, 300])]
            p["roots"][0]["argv"] = ["eprover"] + o + ["p.p"]; p["files"]["p.p"] = pr["text"]
            p["params"].update(sched=0, q_min=200, q_max=2000, ticks_per_us=rng.choice([.05, .1]), ncores=rng.choice([2, 4, 8]))
            at = int(rng.random() ** 2 * 6e7) + 20000
            p["faults"] = [[1000, rng.choice(["time", "time", "tick"]), at, 1, "sig", 15]]
            if p["faults"][0][1] == "tick": p["faults"][0][2] = rng.randint(1, 300000)
            p["params"].pop("pchunk", 0)        # reading what is left in the pipes piece by piece takes its time
            return dict(plans=[p], kinds=["term"], n=n, truth=pr["truth"], conj=pr["conj"], name=pr["name"])
        pr, o, n, p = self.baseplan(rng, tight)
        b = run(p)
        plans = [p]; kinds = ["none"]
        leaf = [q["vpid"] for q in b.procs if q["root"] == 0 and not kids(b, q["vpid"])]
        for _ in range(3):
            q = copy.deepcopy(p); k = "term" if rng.random() < .8 else "none"
            if k == "term":
                at = rng.randint(1, max(2, b.d["now"])) if rng.random() < .7 else max(1, b.d["now"] - int(b.d["now"] ** rng.random()))
                if rng.random() < .6: q["faults"].append([1000, "time", at, 1, "sig", 15])
                else: q["faults"].append([1000, "tick", pos(rng, b.root()["ticks"]), 1, "sig", 15])
            for f in child_faults(rng, b, ("kill", "stall", "stall")) if rng.random() < .5 else []:
                if f[4] == "stall" or f[0] in leaf: q["faults"].append(f)
            plans.append(q); kinds.append(k)
        return dict(plans=plans, kinds=kinds, n=n, truth=pr["truth"], conj=pr["conj"], name=pr["name"])
    def judge(self, case, results):
        for r, p, k in zip(results, case["plans"], case["kinds"]):
            what = "%s %s" % (case["name"], " ".join(p["roots"][0]["argv"][1:]))
            top = r.root()
            if r.outcome == "deadlock" or r.outcome == "vtimelimit": return [("hang", "the run never ends: %s" % what)]
            w = busy(r)
            if w > max(1, case["n"]): return [("too-many", "%d strategy processes at work at the same time, %d cores allowed (%s)" % (w, case["n"], what))]
            if r.outcome != "done": continue
            sig = [i for i, f in enumerate(p["faults"]) if f[0] == 1000 and f[4] == "sig"]
            fired = [r.d["faultfired"][i] for i in sig]
            # a strategy process that dies of a fault while it has children cannot collect them
            if any(q["sigs"] & ((1 << 9) | (1 << 11) | (1 << 6)) and kids(r, q["vpid"]) for q in r.procs if q["root"] == 0): continue
            if any(q["xcpu"] and kids(r, q["vpid"]) for q in r.procs): continue
            late = [q for q in r.procs if q["root"] == 0 and (q["state"] in ("ready", "blocked") or q["died"] > top["died"])]
            if late: return [("outlives", "processes %s were still running when the run had ended with %s (%s)" % ([q["vpid"] for q in late], r.status(), what))]
            left = [q for q in r.procs if q["ppid"] == 1000 and not q["reaped"]]
            if left: return [("uncollected", "processes %s were never collected, run ended with %s (%s)" % ([q["vpid"] for q in left], r.status(), what))]
            if k == "term" and any(fired):
                t0 = termtime(p, r)
                st = max([f[5] for f, n in zip(p["faults"], r.d["faultfired"]) if f[4] == "stall" and n] or [0])
                if t0 is not None and p["params"].get("sched", 0) == 0 and p.get("choices") is None and top["died"] - t0 > self.grace + st * 2 + 60 * p["params"].get("q_max", 50000) / p["params"].get("ticks_per_us", 1): return [("slow-end", "ended %.1f s after being asked to (%s)" % ((top["died"] - t0) / 1e6, what))]
        return []
    def probe(self, case, results):
        for r, k, p in zip(results, case["kinds"], case["plans"]):
            if r.outcome != "done": continue
            f = any(n for f, n in zip(p["faults"], r.d["faultfired"]) if f[0] == 1000 and f[4] == "sig")
            yield "terminated" if f else "ran to its end"
            if f and any(q["root"] == 0 for q in r.procs): yield "terminated while strategies ran"
            if not f and any(q["sigs"] & (1 << 15) for q in r.procs if q["root"] == 0): yield "killed strategies at the end"

def termtime(p, r):
    for f, n in zip(p["faults"], r.d["faultfired"]):
        if f[0] == 1000 and f[4] == "sig" and n and f[1] == "time": return f[2]
    return None

def busy(r):
    """largest number of processes (not the top one) alive at the same time without a living child of their own"""
    ev = []
    ps = [p for p in r.procs if p["root"] == 0]
    end = r.d["now"] + 1
    times = sorted({p["born"] for p in ps}); best = 0
    for t in times:
        live = [p for p in ps if p["born"] <= t and (p["died"] > t if p["state"] in ("zombie", "gone") else True)]
        par = {p["ppid"] for p in live}
        best = max(best, len([p for p in live if p["vpid"] not in par]))
    return best
