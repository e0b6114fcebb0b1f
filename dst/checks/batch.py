"""P16-P20: batch mode, strategy-parallel front end, proof checker, temporary files."""
import re, errno, copy
from dst import core
from dst.core import plan, R, run
from dst.problems import statuses, PROOF, MODEL

SHORT = ("Theorem", "Unsatisfiable", "ContradictoryAxioms")
PROOFLINE = re.compile(r"^% SZS status (Theorem|Unsatisfiable|ContradictoryAxioms)", re.M)

def world(rng):
    k = dict(tick_budget=300000000, vtime_limit=900000000, sched=rng.choice([0, 0, 1, 2, 3]), ncores=rng.choice([1, 2, 4, 8]))
    k["q_min"], k["q_max"] = rng.choice([(5000, 50000), (500, 3000), (50000, 400000)])
    if rng.random() < .6: k["pchunk"], k["pchunk_pct"] = rng.choice([(1, 20), (7, 80), (100, 100), (1000, 70), (64, 50)])
    if rng.random() < .5: k["pipecap"] = rng.choice([4096, 8192, 65536])
    if rng.random() < .4: k["heap_fill"] = rng.choice([0x41, 0x55, 0xff]); k["heap_freefill"] = rng.choice([0x42, 0x5a, 0xff])
    k["epoch"] = rng.choice([1700000000, 1000000000, 4000000000])
    return k
def tail(r): return (r.out(0)[-200:], r.err(0)[-200:])

# what a scripted prover does.  (program, may it establish a proof)
def stub(rng, kind):
    head = "pid;put %% goals: %%G\\n;"
    t = rng.choice([0, 0, 1000, 200000, 700000, 1500000, 2500000, 4000000])
    w = "sleep %d;" % t if t else ""
    st = rng.choice(["Theorem", "Theorem", "ContradictoryAxioms", "Unsatisfiable"])
    pf = "put %% SZS status %s\\n;" % st
    fill = "fill %d;" % rng.choice([0, 1, 30, 300, 3000]) if rng.random() < .7 else ""
    body = "put %% SZS output start\\nfof(x,axiom,p).\\n%% SZS output end\\n;"
    if kind == "proof": return head + rng.choice([w + fill + pf + body, w + pf + fill + body + "fill 3;", fill + w + pf + body + "put last line without end;", pf + w + body + "put %% end\\n;"]) + "exit 0"
    if kind == "model": return head + w + "put %% SZS status %s\\n;" % rng.choice(["Satisfiable", "CounterSatisfiable"]) + fill + "exit 1"
    if kind == "fail": return head + w + fill + rng.choice(["put %% SZS status ResourceOut\\n;exit 8", "put %% SZS status GaveUp\\n;exit 9", "exit 10", "exit 0", "exit 1", "exit 3"])
    if kind == "dead": return head + w + pf + fill + rng.choice(["sig 9", "sig 11", "exit 8", "exit 2", "sig 6", "exit 11", body + "exit 7"])
    if kind == "partial": return head + w + rng.choice(["put %% SZS status Theor;exit 0", "put %% SZS sta;sig 9", "put fof(a,axiom,'%% SZS status Theorem').\\n;exit 0", "put  %% SZS status Theorem\\n;exit 0", "put x%% SZS status Theorem\\n;exit 9", "put %% SZS status;sig 11", fill + "put %% No SZS status Theorem\\n;exit 0"])
    if kind == "hang": return head + w + rng.choice(["hang", fill + "hang", pf + "hang", pf + body + "hang", "sleep 100000000;" + pf + "exit 0", "burn 100000;hang"])
    if kind == "silent": return rng.choice(["exit 0", "put hello\\n;exit 0", "sig 11", "put %% Pi;exit 1"])
    raise AssertionError(kind)
def stubs(rng, n, mix):
    return "\n".join(stub(rng, rng.choice(mix)).replace("%%", "%") for _ in range(n)) + "\n"

class Batch(core.Check):
    """one batch file; provers scripted or real"""
    real = ["e_ltb_runner: all E code, unmodified; eprover: all E code in the runs with real provers"]
    stubbed = ["libc process, time, signal, memory, file and pipe entry points (simulated)", "prover: scripted program with E's calling conventions in most runs"]
    assumptions = ["Processes interleave at preemption points between basic blocks and at system calls; pipes are reliable and may deliver data in any pieces.",
                   "Provers announce their process id when they start, end when asked to terminate, and do not close their output before they end, as E does."]
    def problem(self, rng, j, real):
        """-> text, goal name, does it follow"""
        g = "goal_%d" % j
        if not real: return "fof(ax_%d,axiom,p(c%d)).\nfof(%s,conjecture,p(c%d)).\n" % (j, j, g, j), g, True
        n = rng.choice([1, 2, 5, 12]); t = "".join("fof(h_%d_%d,axiom,![X]:(p%d(X)=>p%d(X))).\n" % (j, i, i, i + 1) for i in range(n))
        ok = rng.random() < .75
        if ok: t += "fof(f_%d,axiom,p0(c)).\n" % j
        return t + "fof(%s,conjecture,p%d(c)).\n" % (g, n), g, ok
    def mk(self, rng, mix, real=False, overall=None, np=None):
        nb = rng.choice([1, 1, 1, 2]) if not real else 1
        files = {}; spec = "division.category LTB.X\n"; batches = []; j = 0; opts = []
        jobs = []
        for b in range(nb):
            n = np or rng.choice([1, 2, 3, 5]); lim = rng.choice([1, 2, 3, 5, 8]) if not real else rng.choice([5, 10])
            o = rng.choice(["Assurance", "Proof", "Proof Answer", "Assurance Proof", "ListOfFOF"])
            if rng.random() < .3: spec += "execution.order %s\n" % rng.choice(["ordered", "unordered"])
            spec += "output.required %s\n" % o
            if rng.random() < .3: spec += "output.desired %s\n" % rng.choice(["Proof", "Model", "Answer"])
            spec += "limit.time.problem.wc %d\n" % lim
            T = 0
            if overall if overall is not None else rng.random() < .3: T = rng.choice([n * (lim + 3), n * 4 + 4, 100, n, n + 1, 2 * n]) if overall else rng.choice([n * (lim + 3) + 5, 1000]); spec += "limit.time.overall.wc %d\n" % T
            for i in range(rng.choice([0, 0, 1, 2])):
                f = "Axioms/s%d_%d.ax" % (b, i); spec += "include('%s').\n" % f
                files[f] = "".join("fof(sh_%d_%d_%d,axiom,%s).\n" % (b, i, x, rng.choice(["q(c)", "![X]:(q(X)=>r(X))", "s(d)"])) for x in range(rng.choice([1, 3])))
            probs = []
            for i in range(n):
                t, g, ok = self.problem(rng, j, real)
                src = "Problems/%s%d.p" % (rng.choice(["a", "PUZ00", "x-y+z"]), j); files[src] = t
                dst = rng.choice(["o%d", "sol.%d.out", "r-%d"]) % j
                spec += "%s %s\n" % (src, dst); probs.append(dict(src=src, dst=dst, goal=g, ok=ok, lim=lim)); j += 1
            batches.append(dict(lim=lim, T=T, probs=probs))
        if rng.random() < .4: opts += ["-d", "res"]; files["res/keep"] = ""
        if rng.random() < .2: opts += ["-o", "log.txt"]
        stdin = None
        if nb == 1 and rng.random() < .2:
            opts.append("-i"); stdin = ""
            for i in range(rng.choice([0, 1, 2])):
                t, g, ok = self.problem(rng, j, real); nm = "job_%d" % j; j += 1
                stdin += "job %s.\n%sgo.\n" % (nm, t); jobs.append(dict(src=nm, dst=None, goal=g, ok=ok, lim=batches[0]["lim"]))
            stdin += rng.choice(["quit\ngo.\n", ""])
        files["spec"] = spec
        if not real: files["stub.s"] = stubs(rng, 60, mix)
        k = world(rng)
        if real: k["ticks_per_us"] = 20.0; k["tick_budget"] = 600000000
        p = plan([R("e_ltb_runner", *opts, "spec", stdin=stdin)], seed=rng.getrandbits(40), files=files, stub="" if real else "prover", stop_when_roots=1, settle_us=3000000, **k)
        p["capture"] = 1
        return p, dict(batches=batches, jobs=jobs, odir="res/" if "-d" in opts else "", log="log.txt" if "-o" in opts else None, real=real)
    def shrink(self, case):
        for pi, p in enumerate(case["plans"]):
            s = p["files"].get("stub.s", "").split("\n")
            for i, l in enumerate(s):
                q = re.sub(r";fill \d+", "", l)
                if q != l: c = copy.deepcopy(case); x = list(s); x[i] = q; c["plans"][pi]["files"]["stub.s"] = "\n".join(x); yield c
            for k in ("heap_fill", "heap_freefill", "pipecap", "ncores", "pchunk", "epoch"):
                if k in p["params"]: c = copy.deepcopy(case); del c["plans"][pi]["params"][k]; yield c

REP = re.compile(r"% SZS status (\w+) for (\S+)$", re.M)
def provers(r): return sorted((q for q in r.procs if q["ppid"] == 1000), key=lambda q: q["vpid"])
def goal_of(t):
    m = re.search(r"^% goals: (\S*)", t, re.M)
    return (m[1].split(",") if m[1] else []) if m else None
def logtext(case, r):
    """(batch log, everything on stdout)"""
    return (r.tree.get(case["log"], "") if case["log"] else r.out(0)), r.out(0)
def established(r, q):
    return q["state"] in ("zombie", "gone") and q["byexit"] and q["wstatus"] >> 8 == 0 and PROOFLINE.search(r.pout.get(q["vpid"], ""))
def rounds(case, r, log):
    """provers of each problem, by the log: between two reports, k 'Filtering for' lines = k provers"""
    n = []; c = 0
    for m in re.finditer(r"% Filtering for |" + REP.pattern, log, re.M):
        if m[0] == "% Filtering for ": c += 1
        else: n.append(c); c = 0
    return n, c
class P16(Batch):
    id = "P16"; quick_cases = 900; thorough_cases = 20000
    rule = "One evaluation = one batch specification of 1 to 5 problems (some with shared axioms, several batches, interactive jobs) given to e_ltb_runner with scripted or real provers that prove, fail, crash, are killed, hang or print partial results at seeded times; log and solution files are compared with what each prover process wrote and how it ended."
    probes = ("proved", "gave up", "result of a failed prover ignored", "real provers", "interactive job", "variants", "runner ended with an error", "output larger than a pipe")
    def gen(self, rng, i):
        real = rng.random() < .1
        mix = rng.choice([["proof"] * 2 + ["model", "fail", "dead", "partial", "hang"] * 2, ["dead", "partial", "fail"], ["proof"], ["proof"] + ["dead"] * 6 + ["partial"] * 3, ["proof", "hang"] , ["model", "fail", "dead"]])
        if rng.random() < .03: mix = mix + ["silent"]
        p, c = self.mk(rng, mix, real)
        if not real and rng.random() < .2: return self.mkvariants(rng, mix)
        fl = p["faults"]
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
            k = rng.choice(["kill", "kill", "kill", "select", "select", "rpipe", "temp", "dest", "stall", "stall"])
            if k == "kill": fl.append([rng.randint(1001, 1001 + 12 * sum(len(b["probs"]) for b in c["batches"])), "wpipe", rng.randint(1, 8), 1, "sig", rng.choice([9, 11, 15])])
            elif k == "select": fl.append([1000, "select", rng.randint(1, 20), rng.choice([1, 3]), "err", errno.EINTR])
            elif k == "rpipe": fl.append([1000, "rpipe", rng.randint(9, 60), 1, "err", errno.EINTR])
            elif k == "temp": o = rng.choice(["mkstemp", "openw", "wfile"]); fl.append([1000, o, rng.randint(1, 12), 1, "err", rng.choice([errno.ENOSPC, errno.EIO, errno.EMFILE]), "" if o == "mkstemp" else "epr_"])
            elif k == "dest": d = rng.choice([q for b in c["batches"] for q in b["probs"]])["dst"]; fl.append([1000, rng.choice(["openw", "wfile", "wfile", "close"]), rng.choice([1, 1, 2, 3]), rng.choice([0, 1]), "err", rng.choice([errno.ENOSPC, errno.EIO]), d])
            elif k == "stall": fl.append([rng.choice([1000, rng.randint(1001, 1020)]), "tick", rng.randint(1, 30000), 1, "stall", rng.choice([100000, 1500000])])
        return dict(c, plans=[p])
    def mkvariants(self, rng, mix):
        """abstract problems with several concrete forms, tried in turn"""
        o, vs = rng.choice([("--variants27", ["+4", "+5", "_4", "_5"]), ("--variants28", ["+1", "_1"]), ("--variants28", ["+1", "_1"])])
        n = rng.choice([1, 2, 3]); files = {}; T = rng.choice([20, 40, 90]) * n
        spec = "division.category LTB.X\noutput.required Proof\nlimit.time.problem.wc 0\nlimit.time.overall.wc %d\n" % T
        if rng.random() < .4:
            spec += "include('Axioms/s*').\n"
            for v in vs: files["Axioms/s%s.ax" % v] = "fof(sh,axiom,q(c)).\n"
        probs = []
        for j in range(n):
            spec += "Problems/P%d*.p out%d\n" % (j, j)
            for k, v in enumerate(vs): files["Problems/P%d%s.p" % (j, v)] = "fof(ax_%d,axiom,p(c%d)).\nfof(goal_%d_%d,conjecture,p(c%d)).\n" % (j, j, j, k, j)
            probs.append("Problems/P%d" % j)
        files["spec"] = spec; files["stub.s"] = stubs(rng, 80, [m for m in mix if m != "silent"])
        p = plan([R("e_ltb_runner", o, "spec")], seed=rng.getrandbits(40), files=files, stub="prover", stop_when_roots=1, settle_us=3000000, **world(rng)); p["capture"] = 1
        for _ in range(rng.choice([0, 1, 2])):
            k = rng.choice(["kill", "select", "stall"])
            if k == "kill": p["faults"].append([rng.randint(1001, 1040), "wpipe", rng.randint(1, 8), 1, "sig", rng.choice([9, 11, 15])])
            elif k == "select": p["faults"].append([0, "select", rng.randint(1, 20), 1, "err", errno.EINTR])
            else: p["faults"].append([rng.randint(1001, 1040), "tick", rng.randint(1, 30000), 1, "stall", rng.choice([100000, 1500000])])
        return dict(plans=[p], variants=vs, names=probs, batches=[], jobs=[], log=None, real=False, odir="")
    def judge_variants(self, case, r):
        out = r.out(0); st = r.status(0)
        if r.root(0)["crash"] or st[0] == "signal": return [("crash", "e_ltb_runner died of signal %s" % (r.root(0)["crash"] or st[1]))]
        if st != ("exit", 0): return [] if any(r.d["faultfired"]) else [("error-exit", "e_ltb_runner ended with %s without any fault: %s" % (st, tail(r)))]
        wraps = [q for q in provers(r) if q["name"] == "e_ltb_runner"]
        blocks = re.findall(r"^% Trying abstract problem (\S+) via (\S+) for (-?\d+)s\n(.*?)^% SZS status Ended for (\S+)$", out, re.M | re.S)
        if len(blocks) != len(wraps): return [("not-once", "%d attempts, %d of them in the log" % (len(wraps), len(blocks)))]
        solved = {}; want = []
        for k, v in enumerate(case["variants"]):
            for j, nm in enumerate(case["names"]): want.append((k, j, nm + v + ".p"))
        i = 0
        for k, j, cn in want:
            if j in solved: continue
            if i >= len(blocks) or blocks[i][1] != cn: return [("not-once", "attempt %d is for %s, expected %s" % (i, blocks[i][1] if i < len(blocks) else "nothing", cn))]
            w = wraps[i]; txt = blocks[i][3]; lim = int(blocks[i][2]); i += 1
            mine = sorted((q for q in r.procs if q["ppid"] == w["vpid"]), key=lambda q: q["vpid"])
            rep = [x for x in REP.findall(txt) if x[0] != "Started"]
            if w["sigs"] & ~(1 << 17): continue     # struck itself
            if len(rep) != 1 or rep[0][1] != cn: return [("not-once", "reports for %s: %s" % (cn, rep))]
            good = [p for p in mine if established(r, p)]
            for p in mine:
                g = goal_of(r.pout.get(p["vpid"], ""))
                if g is not None and g != ["goal_%d_%d" % (j, k)]: return [("wrong-problem", "prover %d was run for %s on %s" % (p["vpid"], cn, g))]
            if rep[0][0] in SHORT:
                if not good: return [("unfounded", "%s reported as %s, but no prover run for it established that" % rep[0][::-1])]
                solved[j] = (rep[0][0], cn, good)
            elif rep[0][0] == "GaveUp":
                dl = mine[0]["born"] + lim * 1000000 - 1500000 - stalled(case, r) if mine else 0
                lost = [p for p in good if p["died"] < dl]
                if lost: return [("lost", "%s given up although prover %d had completed a proof" % (cn, lost[0]["vpid"]))]
            else: return [("unfounded", "%s reported as %s" % rep[0][::-1])]
        if i != len(blocks): return [("not-once", "%d attempts, expected %d" % (len(blocks), i))]
        for j in range(len(case["names"])):
            d = r.tree.get("out%d" % j)
            if j in solved:
                w, cn, good = solved[j]
                if not any(d == "%% SZS status %s for %s\n%s" % (w, cn, r.pout[p["vpid"]]) for p in good): return [("solution", "the solution file of %s is not the complete output of a prover that succeeded" % cn)]
            elif d is not None and d != "%% SZS status GaveUp for %s%s.p\n" % (case["names"][j], case["variants"][-1]) and not any(r.d["faultfired"]): return [("solution", "solution file of %s (given up): %r" % (case["names"][j], d[:200]))]
        return []
    def judge(self, case, results):
        r = results[0]; log, out = logtext(case, r)
        if "variants" in case and r.outcome in ("done", "stopped"): return self.judge_variants(case, r)
        if r.outcome in ("deadlock", "vtimelimit", "tickbudget"):
            if r.outcome == "tickbudget" and case["real"]: return []
            return [("hang", "the batch run does not end (%s): %s" % (r.outcome, [(q["vpid"], q["name"], q["state"], q["wait"]) for q in r.procs if q["state"] not in ("zombie", "gone")][:6]))]
        rn = r.root(0); st = r.status(0)
        probs = [q for b in case["batches"] for q in b["probs"]] + case["jobs"]
        reps = REP.findall(log); per, opened = rounds(case, r, log)
        fired = any(r.d["faultfired"])
        if rn["crash"] or st[0] == "signal":
            if unstarted(case, per, opened, reps, probs): return []
            return [("crash", "e_ltb_runner died of signal %s after %d of %d problems" % (rn["crash"] or st[1], len(reps), len(probs)))]
        clean = st == ("exit", 0)
        if not clean and not fired and not case_silent(case): return [("error-exit", "e_ltb_runner ended with %s without any fault: %s" % (st, tail(r)))]
        if clean and len(reps) != len(probs): return [("not-once", "%d problems, reported: %s" % (len(probs), reps))]
        ps = provers(r); k0 = 0; stalls = stalled(case, r)
        for j, (word, name) in enumerate(reps):
            if j >= len(probs) or name != probs[j]["src"]: return [("not-once", "report %d is for %s, expected %s" % (j, name, probs[j]["src"] if j < len(probs) else "none"))]
            q = probs[j]; mine = ps[k0:k0 + per[j]]; k0 += per[j]
            dest = r.tree.get(case["odir"] + q["dst"]) if q["dst"] else None
            last = not clean and j == len(reps) - 1
            if not mine: continue       # the overall limit had run out (see DESIGN.md)
            if word in SHORT:
                good = [p for p in mine if established(r, p)]
                if not good: return [("unfounded", "%s reported as %s, but no prover run for it established that (%s)" % (name, word, [(p["vpid"], p["wstatus"], r.pout.get(p["vpid"], "")[-60:]) for p in mine]))]
                for p in mine:
                    g = goal_of(r.pout.get(p["vpid"], ""))
                    if g is not None and q["goal"] not in g: return [("wrong-problem", "prover %d was run for %s on %s" % (p["vpid"], name, g))]
                if case["real"] and not q["ok"]: return [("unfounded", "%s reported as %s, but its conjecture does not follow" % (name, word))]
                if dest is not None and not last:
                    if not any(dest == "%% SZS status %s for %s\n%s" % (word, name, r.pout[p["vpid"]]) for p in good):
                        return [("solution", "the solution file of %s is not the complete output of a prover that succeeded: %r ... %r (%d bytes; provers wrote %s)" % (name, dest[:60], dest[-60:], len(dest), [len(r.pout[p["vpid"]]) for p in good]))]
                if dest is None and q["dst"] and clean: return [("solution", "no solution file for %s" % name)]
                if q["dst"] is None and not case["log"] and clean:
                    if not any(r.pout[p["vpid"]] in out for p in good): return [("solution", "the answer to job %s does not contain the prover's output" % name)]
            elif word == "GaveUp":
                if dest is not None and not last and dest != "%% SZS status GaveUp for %s\n" % name: return [("solution", "solution file of %s (given up): %r" % (name, dest[:200]))]
                if True:
                    dl = mine[0]["born"] + q["lim"] * 1000000 - 1500000 - stalls
                    if case["batches"][0]["T"] or case["batches"][-1]["T"]: dl = 0   # shorter limits apply; P17 looks at those
                    lost = [p for p in mine if established(r, p) and p["died"] < dl]
                    if lost: return [("lost", "%s given up although prover %d had completed a proof %d ms after the first prover started (limit %d s)" % (name, lost[0]["vpid"], (lost[0]["died"] - mine[0]["born"]) // 1000, q["lim"]))]
            else: return [("unfounded", "%s reported as %s" % (name, word))]
        for n, b in enumerate(case["batches"]):
            m = re.findall(r"Solved:\s*(\d+)/\s*(\d+)", log)
            if clean and len(m) != len(case["batches"]): return [("count", "batch summaries: %s" % m)]
            if n < len(m):
                at = sum(len(x["probs"]) for x in case["batches"][:n]); mine = reps[at:at + len(b["probs"])]
                if m[n] != (str(sum(w in SHORT for w, _ in mine)), str(len(b["probs"]))): return [("count", "batch %d: %s solved of %s, but the reports are %s" % (n, m[n][0], m[n][1], mine))]
        return []
    def probe(self, case, results):
        r = results[0]; log, out = logtext(case, r); reps = REP.findall(log)
        if any(w in SHORT for w, _ in reps): yield "proved"
        if any(w == "GaveUp" for w, _ in reps): yield "gave up"
        if case["real"]: yield "real provers"
        if "variants" in case: yield "variants"
        if case["jobs"]: yield "interactive job"
        if r.status(0) != ("exit", 0): yield "runner ended with an error"
        for p in provers(r):
            t = r.pout.get(p["vpid"], "")
            if PROOFLINE.search(t) and not established(r, p) : yield "result of a failed prover ignored"; break
        if any(len(r.pout.get(p["vpid"], "")) > 70000 for p in provers(r)): yield "output larger than a pipe"

def unstarted(case, per, opened, reps, probs):
    """the overall limit ran out before the last problems: E then looks at an uninitialised variable (DESIGN.md)"""
    return any(b["T"] for b in case["batches"]) and (0 in per or (opened == 0 and len(reps) < len(probs)))
def stalled(case, r):
    return sum(f[5] for f, x in zip(case["plans"][0]["faults"], r.d["faultfired"]) if x and f[4] == "stall")
def case_silent(case):
    return any(not l.startswith("pid;") for l in case["plans"][0]["files"].get("stub.s", "").split("\n") if l)

class P17(Batch):
    id = "P17"; quick_cases = 900; thorough_cases = 20000
    rule = "One evaluation = one batch specification with per-problem and overall limits given to e_ltb_runner with provers that prove, fail, hang, outlast every limit or flood their output at seeded times and clock positions; simulated clock and process table decide whether each problem and the batch kept to their limits and whether every prover was ended and collected in time."
    probes = ("limit reached", "proved", "hanging provers ended", "overall limit", "real provers", "flooding provers")
    def gen(self, rng, i):
        real = rng.random() < .06
        mix = rng.choice([["hang"], ["hang"] * 5 + ["fail"], ["proof", "hang", "model"], ["fail"], ["proof"] + ["fail"] * 6, ["hang"] * 3 + ["dead"] * 3, ["model"]])
        p, c = self.mk(rng, mix, real, overall=rng.random() < .4)
        p["params"]["epoch"] = rng.choice([1700000000, 1000000000, 4000000000]); p["roots"][0]["start"] = rng.randrange(1000000)
        if not real and rng.random() < .3:      # provers that never stop writing
            p["files"]["stub.s"] = "".join(l.replace("hang", "fill 20000;hang") + "\n" if rng.random() < .3 else l + "\n" for l in p["files"]["stub.s"].split("\n") if l); p["params"]["tick_budget"] = 600000000
        for _ in range(rng.choice([0, 0, 1, 2])):
            k = rng.choice(["kill", "select", "stall"])
            if k == "kill": p["faults"].append([rng.randint(1001, 1040), "wpipe", rng.randint(2, 8), 1, "sig", rng.choice([9, 11, 15])])
            elif k == "select": p["faults"].append([1000, "select", rng.randint(1, 20), rng.choice([1, 5]), "err", errno.EINTR])
            else: p["faults"].append([rng.choice([1000, rng.randint(1001, 1020)]), "tick", rng.randint(1, 30000), 1, "stall", rng.choice([100000, 1500000])])
        return dict(c, plans=[p])
    def judge(self, case, results):
        r = results[0]; log, out = logtext(case, r); rn = r.root(0); st = r.status(0)
        reps = REP.findall(log); per, opened = rounds(case, r, log)
        probs = [q for b in case["batches"] for q in b["probs"]] + case["jobs"]
        if r.outcome == "tickbudget" : return [] if case["real"] or any("fill 20000" in l for l in case["plans"][0]["files"]["stub.s"].split("\n")) else [("hang", "the batch run never ends (%s)" % r.outcome)]
        if r.outcome in ("deadlock", "vtimelimit"): return [("hang", "the batch run does not end (%s): %s" % (r.outcome, [(q["vpid"], q["name"], q["state"], q["wait"]) for q in r.procs if q["state"] not in ("zombie", "gone")][:6]))]
        if unstarted(case, per, opened, reps, probs): return []
        if rn["crash"] or st[0] == "signal": return [("crash", "e_ltb_runner died of signal %s" % (rn["crash"] or st[1]))]
        if st != ("exit", 0): return [] if any(r.d["faultfired"]) else [("error-exit", "e_ltb_runner ended with %s without any fault: %s" % (st, tail(r)))]
        ps = provers(r); slow = stalled(case, r); k = 0; groups = []
        for n in per: groups.append(ps[k:k + n]); k += n
        if k != len(ps) or len(groups) != len(probs): return [("not-once", "%d provers for %d problems, log says %s" % (len(ps), len(probs), per))]
        GR = 2600000
        for j, g in enumerate(groups):
            if not g: continue
            t0 = g[0]["born"]; nxt = next((h[0]["born"] for h in groups[j + 1:] if h), None); end = nxt if nxt is not None else rn["died"]
            b = next((b for b in case["batches"] if probs[j] in b["probs"]), None)
            if b is None and j + 1 == len(groups): pass
            lim = probs[j]["lim"] * 1000000
            if end - t0 > lim + GR + slow: return [("limit", "problem %d was worked on for %.2f s, its limit is %d s" % (j, (end - t0) / 1e6, probs[j]["lim"]))]
            for p in g:
                if p["state"] not in ("zombie", "gone"): return [("left-running", "prover %d of problem %d is still running after the batch run" % (p["vpid"], j))]
                if p["died"] > end: return [("left-running", "prover %d of problem %d was still running %.3f s after the next problem had been started" % (p["vpid"], j, (p["died"] - end) / 1e6))]
                if not p["reaped"]: return [("uncollected", "prover %d of problem %d was never collected" % (p["vpid"], j))]
        for d in r.procs:
            if d["state"] not in ("zombie", "gone") and d["vpid"] != 1000 : return [("left-running", "process %d is still running after the batch run" % d["vpid"])]
        at = 0
        for b in case["batches"]:
            n = len(b["probs"]); g = [x for x in groups[at:at + n]]; at += n
            if not b["T"] or not any(g): continue
            t0 = next(x for x in g if x)[0]["born"]; t1 = max(p["died"] for x in g for p in x)
            if t1 - t0 > b["T"] * 1000000 + n * 1000000 + GR + slow: return [("overall", "the batch was worked on for %.2f s, its limit is %d s" % ((t1 - t0) / 1e6, b["T"]))]
        return []
    def probe(self, case, results):
        r = results[0]; log, out = logtext(case, r); reps = REP.findall(log)
        if any(w == "GaveUp" for w, _ in reps): yield "limit reached"
        if any(w in SHORT for w, _ in reps): yield "proved"
        if case["real"]: yield "real provers"
        if any(b["T"] for b in case["batches"]): yield "overall limit"
        if any("hang" in l for l in case["plans"][0]["files"].get("stub.s", "").split("\n")): yield "hanging provers ended"
        if "fill 20000" in case["plans"][0]["files"].get("stub.s", ""): yield "flooding provers"

# ------------------------------------------------------------------ P19
class P19(Batch):
    id = "P19"; quick_cases = 4000; thorough_cases = 25000
    real = ["e_stratpar: all E code, unmodified"]
    rule = "One evaluation = one run of e_stratpar with eight scripted provers that prove, fail, crash, are killed, hang or print partial results at seeded times; its output is compared with what each prover process wrote and how it ended."
    probes = ("proof relayed", "gave up", "result of a failed prover ignored", "hanging provers ended", "ended with an error")
    def gen(self, rng, i):
        real = False
        mix = rng.choice([["proof", "model", "fail", "dead", "partial"], ["dead", "partial", "fail"], ["proof"], ["proof"] + ["dead"] * 6 + ["partial"] * 3, ["model", "fail", "dead"], ["fail"]])
        k = world(rng); files = {}; lim = rng.choice([10, 20, 100])
        if real:
            t, g, ok = self.problem(rng, 0, True); k["ticks_per_us"] = 20.0; k["tick_budget"] = 600000000; k["pipecap"] = 65536
        else:
            t, g, ok = self.problem(rng, 0, False); L = [stub(rng, rng.choice(mix)).replace("%%", "%") for _ in range(8)]
            if any(PROOFLINE.search(l.replace(";put ", "\n").replace("\\n", "\n")) and l.endswith("exit 0") for l in L) and "proof" in mix:
                for j in range(8):
                    if rng.random() < .25 and not L[j].endswith("exit 0"): L[j] = stub(rng, "hang").replace("%%", "%")
            if rng.random() < .04: L[rng.randrange(8)] = stub(rng, "silent").replace("%%", "%")
            files["stub.s"] = "\n".join(L) + "\n"
        files["p.p"] = t
        p = plan([R("e_stratpar", "--cpu-limit=%d" % lim, "p.p")], seed=rng.getrandbits(40), files=files, stub="" if real else "prover", stop_when_roots=1, settle_us=1000, **k); p["capture"] = 1
        for _ in range(rng.choice([0, 0, 1, 2, 3])):
            f = rng.choice(["kill", "kill", "select", "stall", "popen", "rpipe"])
            if f == "kill": p["faults"].append([rng.randint(1001, 1008), "wpipe", rng.randint(2, 8), 1, "sig", rng.choice([9, 11, 15, 24])])
            elif f == "select": p["faults"].append([1000, "select", rng.randint(1, 20), rng.choice([1, 5]), "err", errno.EINTR])
            elif f == "rpipe": p["faults"].append([1000, "rpipe", rng.randint(9, 60), 1, "err", errno.EINTR])
            elif f == "popen": p["faults"].append([1000, "popen", rng.randint(1, 8), 1, "err", errno.EAGAIN]) if rng.random() < .3 else None
            else: p["faults"].append([rng.randint(1000, 1008), "tick", rng.randint(1, 30000), 1, "stall", rng.choice([100000, 1500000])])
        return dict(plans=[p], real=real, ok=ok)
    def judge(self, case, results):
        r = results[0]; out = r.out(0); st = r.status(0); ps = provers(r)
        hangs = any("hang" in l for l in case["plans"][0]["files"].get("stub.s", "").split("\n"))
        if r.outcome == "tickbudget" and case["real"]: return []
        good = [p for p in ps if established(r, p)]
        if r.outcome in ("deadlock", "vtimelimit", "tickbudget"):
            if hangs and not good: return []      # the prover that was to answer was struck; scripted provers have no CPU limit
            return [("hang", "e_stratpar does not end (%s)" % r.outcome)]
        if r.root(0)["crash"] or st[0] == "signal": return [("crash", "e_stratpar died of signal %s" % (r.root(0)["crash"] or st[1]))]
        said = PROOFLINE.search(out)
        if st != ("exit", 0):
            if said: return [("unfounded", "ended with %s after %r" % (st, said[0]))]
            return [] if any(r.d["faultfired"]) or case_silent(case) else [("error-exit", "e_stratpar ended with %s without any fault: %s" % (st, tail(r)))]
        rest = "".join(l + "\n" for l in out.split("\n") if not l.startswith("% No proof found by "))
        gave = "SZS status GaveUp" in out and not said
        if said:
            if not good: return [("unfounded", "%r was reported, but no prover established it: %s" % (said[0], [(p["vpid"], p["wstatus"], r.pout.get(p["vpid"], "")[-60:]) for p in ps]))]
            if case["real"] and not case["ok"]: return [("unfounded", "a proof was reported, but the conjecture does not follow")]
            if not any(out.endswith(r.pout[p["vpid"]]) and all(l.startswith("% No proof found by ") or not l for l in out[:-len(r.pout[p["vpid"]])].split("\n")) for p in good):
                return [("altered", "the answer is not the complete output of one prover that succeeded: %r ... %r" % (out[:200], out[-100:]))]
        elif not gave: return [("no-report", "neither a result nor a failure was reported: %s" % (tail(r),))]
        elif good: return [("lost", "gave up although prover %d completed a proof" % good[0]["vpid"])]
        for q in r.procs:
            if q["vpid"] == 1000: continue
            if q["state"] not in ("zombie", "gone"): return [("left-running", "process %d (%s) is still running after e_stratpar ended" % (q["vpid"], q["name"]))]
            if q["ppid"] == 1000 and not q["reaped"]: return [("uncollected", "prover %d was never collected" % q["vpid"])]
        return []
    def probe(self, case, results):
        r = results[0]; out = r.out(0)
        if PROOFLINE.search(out): yield "proof relayed"
        if "GaveUp" in out: yield "gave up"
        if case["real"]: yield "real provers"
        if r.status(0) != ("exit", 0): yield "ended with an error"
        if any(p["wstatus"] & 127 == 15 for p in provers(r)): yield "hanging provers ended"
        if any(PROOFLINE.search(r.pout.get(p["vpid"], "")) and not established(r, p) for p in provers(r)): yield "result of a failed prover ignored"

# ------------------------------------------------------------------ P20
def lit(x): return ("++" if x[0] else "--") + x[1]
class Proto:
    """PCL protocol of clauses over p0..p6 with known truth of every step"""
    def __init__(self, rng, bad):
        self.steps = []; self.rng = rng
        n = rng.choice([2, 3, 5])
        for _ in range(n):
            a, b = rng.randrange(7), rng.randrange(7)
            if rng.random() < .4: self.add([(1, "p%d(%s)" % (a, rng.choice(["a", "b", "X1"])))], [], None)
            else: self.add([(0, "p%d(X1)" % a), (1, "p%d(X1)" % b)], [], None)
        for _ in range(rng.choice([1, 2, 4, 8])): self.derive(bad)
    def add(self, lits, parents, op): self.steps.append(dict(lits=lits, parents=parents, op=op, true=not parents or follows(lits, [self.steps[x - 1]["lits"] for x in parents]), id=len(self.steps) + 1)); return len(self.steps)
    def derive(self, bad):
        rng = self.rng; k = rng.choice([1, 2, 2, 2, 3]); par = [rng.randint(1, len(self.steps)) for _ in range(k)]
        P = [self.steps[x - 1]["lits"] for x in set(par)]
        cand = [[(1, "p%d(%s)" % (i, c))] for i in range(7) for c in ["a", "b", "X1"]] + [[(0, "p%d(X1)" % i), (1, "p%d(X1)" % j)] for i in range(7) for j in range(7)]
        good = [c for c in cand if follows(c, P)]; other = [c for c in cand if not follows(c, P)]
        nt = [c for c in good if len(c) == 1 or c[0][1] != c[1][1]] or good
        c = rng.choice(other) if rng.random() < bad and other else rng.choice(nt)
        if rng.random() < .15: c = c + [(1, "p6(b)")]
        op = {1: ["cn(%d)", "er(%d)", "%d", "ef(%d)"], 2: ["pm(%d,%d)", "spm(%d,%d)", "rw(%d,%d)", "sr(%d,%d)", "cn(pm(%d,%d))", "csr(%d,%d)"], 3: ["rw(pm(%d,%d),%d)", "cn(sr(spm(%d,%d),%d))", "sr(sr(%d,%d),%d)"]}[k]
        self.add(c, par, rng.choice(op) % tuple(par))
    def text(self):
        o = ""
        for s in self.steps:
            o += "%6d : %s : [%s] : %s\n" % (s["id"], self.rng.choice(["", "neg"]) if False else "", ",".join(map(lit, s["lits"])), s["op"] or 'initial("p.p", n%d)' % s["id"])
        return o
def follows(c, P):
    """does clause c follow from the clauses P? (function-free: decided on the Herbrand instances)"""
    cls = [frozenset([(1 - x[0], x[1].replace("X1", "sk"))]) for x in c]
    for cl in P: cls += [frozenset((x[0], x[1].replace("X1", d)) for x in cl) for d in (["a", "b", "sk"] if any("X1" in x[1] for x in cl) else ["a"])]
    return not sat(cls)
def sat(cls):
    while True:
        u = next((cl for cl in cls if len(cl) < 2), None)
        if u is None: break
        if not u: return False
        (l,) = u; n = (1 - l[0], l[1]); cls = [cl - {n} for cl in cls if l not in cl]
    if not cls: return True
    l = sorted(cls[0])[0]
    return sat(cls + [frozenset([l])]) or sat(cls + [frozenset([(1 - l[0], l[1])])])
def handed(t):
    """clauses a scripted prover was given"""
    o = []
    for m in re.findall(r"input_clause\([^,]*,[^,]*,\[([^\]]*)\]\)", t):
        o.append(sorted(re.sub(r"e?sk\d+_0|epred\d+_0", "SK", re.sub(r"X\d+", "X", x.strip())) for x in re.findall(r"[+-][+-][^(]*\([^)]*\)", m)))
    return sorted(o)

class P20(core.Check):
    id = "P20"; quick_cases = 8000; thorough_cases = 30000
    real = ["checkproof: all E code, unmodified; eprover: all E code in the runs with real provers"]
    stubbed = Batch.stubbed
    assumptions = ["Protocols of clausal steps (E's checker takes other steps on trust and says so).", "A prover confirms a step by announcing that it found a proof."]
    rule = "One evaluation = one protocol of clauses whose steps are known to follow or not, given to checkproof with scripted or real provers that confirm, deny, crash, are killed or stop inside a line, or with failing temporary files; the verdict is compared with what each prover process announced, and what each was given with the step."
    probes = ("verified", "refused", "false step refused", "real provers", "prover struck", "ended with an error")
    def gen(self, rng, i):
        real = rng.random() < .15; bad = rng.choice([0, 0, .3, .6]); pr = Proto(rng, bad); k = world(rng); k["tick_budget"] = 200000000
        files = {"p.pcl": pr.text()}; opts = list(rng.choice([[], [], ["-l", "2"], ["-l", "3"], ["-s"], ["-t", "5"]]))
        if not real:
            c = rng.choice([1, 1, .9, .6]); L = []
            for s in pr.steps:
                if not s["parents"]: continue
                w = "cat;" + rng.choice(["", "sleep 20000;", "fill 200;"])
                if rng.random() < c: L.append(w + rng.choice(["put % Proof found!\\n% SZS status Unsatisfiable\\n;exit 0", "put % Proof found!\\n;fill 30;exit 0", "fill 3;put % Proof found!\\n% SZS status Unsatisfiable\\n;exit 0"]))
                else: L.append(w + rng.choice(["put % No proof found!\\n% SZS status Satisfiable\\n;exit 1", "put % Failure: Resource limit exceeded (time)\\n;exit 8", "sig 11", "sig 9", "exit 0", "put % Proof fou;exit 0", "put % Proo;sig 9", "put %;put  Proof;put  found;exit 2", "exit 2", "put % SZS status ResourceOut\\n;exit 8"]))
            files["stub.s"] = "\n".join(L) + "\n"
        p = plan([R("checkproof", *opts, "p.pcl")], seed=rng.getrandbits(40), files=files, stub="" if real else "prover", stop_when_roots=1, settle_us=1000000, **k); p["capture"] = 1
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            n = sum(1 for s in pr.steps if s["parents"]); f = rng.choice(["kill", "kill", "tick", "temp", "popen", "rpipe", "malloc"])
            if f == "kill": p["faults"].append([1000 + rng.randint(1, n), "wpipe", rng.randint(1, 12), 1, "sig", rng.choice([9, 11, 15])])
            elif f == "tick": p["faults"].append([1000 + rng.randint(1, n), "tick", rng.randint(1, 4000), 1, "sig", rng.choice([9, 11, 15, 24])])
            elif f == "temp": o = rng.choice(["mkstemp", "openw", "wfile", "wfile", "unlink"]); p["faults"].append([1000, o, rng.randint(1, n), rng.choice([1, 0]), "err", rng.choice([errno.ENOSPC, errno.EIO]), "" if o == "mkstemp" else "epr_"])
            elif f == "popen": p["faults"].append([1000, "popen", rng.randint(1, n), 1, "err", errno.EAGAIN])
            elif f == "rpipe": p["faults"].append([1000, "rpipe", rng.randint(1, 12), 1, "err", rng.choice([errno.EINTR, errno.EIO])])
            else: p["faults"].append([1000 + rng.randint(0, n), "malloc", rng.randint(1, 400), 1, "err", errno.ENOMEM])
        return dict(plans=[p], steps=pr.steps, real=real)
    def judge(self, case, results):
        r = results[0]; out = r.out(0); st = r.status(0)
        if r.outcome in ("deadlock", "vtimelimit", "tickbudget"): return [("hang", "checkproof does not end (%s)" % r.outcome)]
        if r.root(0)["crash"] or st[0] == "signal": return [("crash", "checkproof died of signal %s" % (r.root(0)["crash"] or st[1]))]
        m = re.search(r"Successfully checked (\d+) of (\d+) steps \((\d+) unchecked\):\s+(.*)", out); fired = any(r.d["faultfired"])
        if not m:
            if st == ("exit", 0) or not fired: return [("no-verdict", "checkproof ended with %s and gave no verdict: %s" % (st, tail(r)))]
            return []
        need = [s for s in case["steps"] if s["parents"]]; ps = provers(r)
        conf = [bool(re.search(r"% Proof found!", r.pout.get(p["vpid"], ""))) for p in ps]
        ok = "Proof verified!" in m[4]; init = len(case["steps"]) - len(need)
        if ok and (len(ps) != len(need) or not all(conf)): return [("unverified", "the proof was reported as verified, but of %d steps only %d were confirmed by a prover" % (len(need), sum(conf)))]
        if int(m[2]) != len(case["steps"]): return [("count", "%s of %d steps are mentioned" % (m[2], len(case["steps"])))]
        if int(m[1]) > init + sum(conf): return [("unverified", "%s steps are called checked, but only %d were confirmed" % (m[1], init + sum(conf)))]
        if not fired and int(m[1]) != init + sum(conf): return [("count", "%s steps are called checked, %d were confirmed" % (m[1], init + sum(conf)))]
        if case["real"] and ok and not all(s["true"] for s in need): return [("false-step", "the proof was reported as verified, but step %d does not follow" % next(s["id"] for s in need if not s["true"]))]
        if case["real"] and int(m[1]) > init + sum(s["true"] for s in need): return [("false-step", "%s steps are called checked, but only %d follow" % (m[1], init + sum(s["true"] for s in need)))]
        if not case["real"]:
            for p, s in zip(ps, need):
                t = r.pout.get(p["vpid"], "")
                if not re.search(r"% Proof found!", t): continue
                want = [sorted(lit(x).replace("X1", "X") for x in case["steps"][q - 1]["lits"]) for q in sorted(set(s["parents"]))] + [[lit((1 - x[0], x[1])).replace("X1", "SK")] for x in s["lits"]]
                got = handed("\n".join(l[2:] for l in t.split("\n") if l.startswith("| ")))
                if got != sorted(want): return [("wrong-problem", "step %d (%s from %s) was checked with %s" % (s["id"], s["lits"], s["parents"], got))]
        return []
    def probe(self, case, results):
        r = results[0]; o = r.out(0)
        if "Proof verified!" in o: yield "verified"
        elif "Failed to verify" in o: yield "refused"
        if case["real"]:
            yield "real provers"
            if "Failed" in o and not all(s["true"] for s in case["steps"]): yield "false step refused"
        if r.status(0) != ("exit", 0): yield "ended with an error"
        if any(f[0] != 1000 and x for f, x in zip(case["plans"][0]["faults"], r.d["faultfired"])): yield "prover struck"

# ------------------------------------------------------------------ P18
class P18(Batch):
    id = "P18"; quick_cases = 1200; thorough_cases = 25000
    real = ["e_ltb_runner, checkproof, e_deduction_server: all E code, unmodified"]
    stubbed = Batch.stubbed + ["client: scripted program speaking the documented message protocol"]
    assumptions = ["Signals are delivered at basic-block boundaries of E's code or at a blocking system call.", "Removing a file does not fail.", "A process is asked to terminate once."]
    rule = "One evaluation = one run of e_ltb_runner, checkproof or a session of e_deduction_server that needs temporary files, then three more of it that are terminated or interrupted at a seeded basic block, run out of memory, or meet failing file operations, prover starts or malformed input; afterwards the temporary directory is searched."
    probes = ("ended normally", "terminated", "terminated with a temporary file present", "ended with an error", "checkproof", "e_ltb_runner", "session")
    def gen(self, rng, i):
        kind = rng.choice(["checkproof", "e_ltb_runner", "session", "session"])
        if kind == "e_ltb_runner":
            p, c = self.mk(rng, rng.choice([["proof"], ["hang", "proof"], ["fail"], ["hang"], ["proof", "dead", "fail", "model"]]), np=rng.choice([1, 2, 3])); victim = [1000]
            if rng.random() < .15: p["files"]["stub.s"] = stubs(rng, 20, ["proof", "silent"])
        elif kind == "checkproof":
            pr = Proto(rng, 0); L = [rng.choice(["", "sleep 20000;"]) + rng.choice(["put % Proof found!\\n;exit 0", "put % No proof found!\\n;exit 1", "sig 9"]) for _ in range(12)]
            p = plan([R("checkproof", *rng.choice([[], ["-l", "3"], ["-v"]]), "p.pcl")], seed=rng.getrandbits(40), files={"p.pcl": pr.text(), "stub.s": "\n".join(L) + "\n"}, stub="prover", stop_when_roots=1, settle_us=100000, **world(rng)); victim = [1000]
        else:
            from dst.checks.server import net, PORT, esc
            cl = []; n = rng.choice([1, 1, 2])
            for j in range(n):
                s = ["connect %d" % PORT]
                for x in range(rng.choice([1, 2, 4])):
                    if rng.random() < .6: s += ["send ADD s%d\\n" % x, "send " + esc(rng.choice(["fof(a%d,axiom,p(c)).\n" % x] * 6 + ["fof(a,axiom", "cnf(x,axiom,(p|)).\n", "garbage", "'"])), "send GO\\n", "reply"]
                    else: s += ["send RUN j%d\\n" % x, "send " + esc("fof(goal_%d,conjecture,p(c)).\n" % x), "send GO\\n"] + rng.choice([["reply"], ["reply"], ["sleep 200000", "close"], ["recv 1", "close"]])
                    if s[-1] == "close": break
                if s[-1] != "close": s += rng.choice([["send QUIT\\n", "drain"], ["close"]])
                cl.append("\n".join(s) + "\n")
            mix = rng.choice([["proof"], ["proof", "fail"], ["hang", "proof"], ["proof", "dead", "model"]])
            k = net(rng); k["vtime_limit"] = 200000000
            files = {"c%d.s" % j: t for j, t in enumerate(cl)}; files["stub.s"] = stubs(rng, 80, mix)
            p = plan([R("e_deduction_server", "-p", str(PORT), "eprover")] + [R("client", "c%d.s" % j, start=10000) for j in range(n)], seed=rng.getrandbits(40), files=files, stub="prover", stop_when_roots=sum(2 << j for j in range(n)), settle_us=40000000, **k)
            victim = [1001 + n + j for j in range(n)]
        b = run(p); plans = [p]
        pt = {q["vpid"]: q for q in b.procs}
        for _ in range(3):
            q = copy.deepcopy(p); v = rng.choice(victim); x = pt.get(v)
            f = rng.choice(["term", "term", "term", "term", "malloc", "file", "file", "popen"])
            if f == "term" and x and x["ticks"] > 10:
                sg = rng.choice([15, 2])
                if rng.random() < .5:
                    op = rng.choice(["mkstemp", "openw", "wfile", "popen", "rpipe", "select", "unlink", "openr", "waitpid"]); m = max(1, x["ops"].get(op, 1))
                    q["faults"].append([v, op, rng.randint(1, m), 1, "sig", sg])
                else: q["faults"].append([v, "tick", rng.randint(1, x["ticks"]), 1, "sig", sg])
            elif f == "malloc": q["faults"].append([v, "malloc", rng.randint(1, max(1, (x or {"ops": {}})["ops"].get("malloc", 100))), rng.choice([0, 1]), "err", errno.ENOMEM])
            elif f == "popen": q["faults"].append([v, "popen", rng.randint(1, 12), 1, "err", errno.EAGAIN])
            else: o = rng.choice(["openw", "wfile", "mkstemp", "close"]); q["faults"].append([v, o, rng.randint(1, 6), rng.choice([0, 1]), "err", rng.choice([errno.ENOSPC, errno.EIO]), "" if o == "mkstemp" else "epr_"])
            plans.append(q)
        return dict(plans=plans, kind=kind, victim=victim)
    def judge(self, case, results):
        for n, r in enumerate(results):
            if r.outcome == "tickbudget": continue
            left = [f for f in r.tree if f.startswith("tmp/") and f != "tmp/"]
            ms = [q for q in r.procs if q["name"] in ("e_ltb_runner", "checkproof", "e_deduction_server")]
            if any(q["crash"] for q in ms): return [("crash", "%s died of signal %s" % next((q["name"], q["crash"]) for q in ms if q["crash"]))]
            live = [q for q in ms if q["state"] not in ("zombie", "gone") and not (case["kind"] == "session" and q["vpid"] == 1000)]
            if live: return [("hang", "%s %d is still there" % (live[0]["name"], live[0]["vpid"]))]
            for f, k in zip(case["plans"][n]["faults"], r.d["faultfired"]):
                v = [q for q in r.procs if q["vpid"] == f[0]]
                if f[4] == "sig" and k and v and v[0]["wstatus"] & 127 == 0 and v[0]["wstatus"] >> 8 in (0, 1): return [("ignored", "%s was asked to terminate (signal %d) and went on to its normal end with exit code %d" % (v[0]["name"], f[5], v[0]["wstatus"] >> 8))]
            if left: return [("left-behind", "%s, %s: temporary files %s are left; processes ended: %s" % (case["kind"], case["plans"][n]["faults"], left, [(q["vpid"], q["name"], q["wstatus"]) for q in ms]))]
        return []
    def probe(self, case, results):
        yield case["kind"]
        for n, r in enumerate(results):
            v = [q for q in r.procs if q["vpid"] in case["victim"]]
            if any(q["wstatus"] & 127 in (2, 15) for q in v):
                yield "terminated"
                if any(q["ops"].get("unlink", 0) for q in v): yield "terminated with a temporary file present"
            elif any(q["wstatus"] >> 8 for q in v): yield "ended with an error"
            else: yield "ended normally"
