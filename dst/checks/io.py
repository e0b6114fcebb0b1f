"""P06 input faults, P07 output delivery, P08 repeatability, P21 proof completeness."""
import re, errno, signal, copy
from dst import core, problems
from dst.core import plan, R, run
from dst.problems import statuses, contradicts, PROOF, MODEL
from dst.checks.single import Single, OPTS, pos, disturb, norm, firstdiff, outtext, Last

# ---------------------------------------------------------------- other programs and their inputs
PCL = None
def formulas(text):
    """split a problem into its top-level formulas (text of each, ends with '.')"""
    out = []; cur = []; depth = 0; q = None
    i = 0
    while i < len(text):
        c = text[i]; cur.append(c)
        if q:
            if c == "\\": i += 1; cur.append(text[i])
            elif c == q: q = None
        elif c in "'\"": q = c
        elif c in "([": depth += 1
        elif c in ")]": depth -= 1
        elif c == "." and depth == 0:
            out.append("".join(cur).strip()); cur = []
        i += 1
    return out

def order(fs):
    """type declarations first: other formulas may be moved freely behind them"""
    return [f for f in fs if ",type," in f.replace(" ", "")], [f for f in fs if ",type," not in f.replace(" ", "")]

def deliver(rng, pr, opts, prog="eprover", incl=None):
    """one way of delivering the problem: (roots, files, paths of the input files)"""
    mode = rng.choice(["file", "stdin", "dash", "two", "inc", "inc", "nest", "incsel"]) if incl is None else incl
    t = pr["text"]; fs = formulas(t)
    if mode == "file": return mode, [R(prog, *opts, "p.p")], {"p.p": t}, ["p.p"]
    if mode == "stdin": return mode, [R(prog, *opts, stdin=t)], {}, ["stdin"]
    if mode == "dash": return mode, [R(prog, *opts, "-", stdin=t)], {}, ["stdin"]
    k = rng.randint(0, len(fs))
    a, b = "\n".join(fs[:k]) + "\n", "\n".join(fs[k:]) + "\n"
    if mode == "two":
        if not fs[:k] or not fs[k:]: return mode, [R(prog, *opts, "p.p")], {"p.p": t}, ["p.p"]
        return mode, [R(prog, *opts, "p1.p", "p2.p")], {"p1.p": a, "p2.p": b}, ["p1.p", "p2.p"]
    if mode == "nest":
        j = rng.randint(0, k)
        return mode, [R(prog, *opts, "p.p")], {"p.p": "include('d/in1.ax').\n" + b, "d/in1.ax": "include('in2.ax').\n" + "\n".join(fs[j:k]) + "\n", "d/in2.ax": "\n".join(fs[:j]) + "\n"}, ["p.p", "in1.ax", "in2.ax"]
    if mode == "incsel":
        names = [re.match(r"\w+\((\w+)", f).group(1) for f in fs[:k]]
        junk = "fof(junkp,axiom,jjp).\nfof(junkn,axiom,~jjp).\n"
        sel = ",[%s]" % ",".join(names) if names else ""
        return mode, [R(prog, *opts, "p.p")], {"p.p": ("include('in1.ax'%s).\n" % sel if names else "") + b, "in1.ax": "\n".join(fs[:k]) + "\n" + junk}, ["p.p"] + (["in1.ax"] if names else [])
    return "inc", [R(prog, *opts, "p.p")], {"p.p": "include('in1.ax').\n" + b, "in1.ax": a}, ["p.p", "in1.ax"]

CHUNK = [dict(), dict(rchunk=1, rchunk_pct=100), dict(rchunk=7, rchunk_pct=60), dict(rchunk=100, rchunk_pct=90), dict(rchunk=4000, rchunk_pct=50)]
def chunk(rng): return dict(rng.choice(CHUNK))

TOOLS = ["eprover", "eprover", "eprover", "eprover", "eprover", "classify_problem", "eground", "e_axfilter", "enormalizer", "edpll"]
class P06(Single):
    id = "P06"; quick_cases = 2200; thorough_cases = 60000
    rule = "One evaluation = one problem with known truth, delivered undisturbed and in three other ways: split over files and includes, through standard input, in seeded chunks, with a file that is missing, unreadable, fails at a seeded read, or is cut inside a formula."
    probes = ("delivered intact", "read error", "open error", "missing file", "torn file", "fault in an included file", "error reported")
    IOPT = [o for o in OPTS if not any("output-file" in x for x in o)]
    def gen(self, rng, i):
        o = list(rng.choice(self.IOPT))
        pr = problems.pick(rng)
        prog = rng.choice(TOOLS)
        if prog != "eprover":
            o = {"classify_problem": ["--tstp-in", "-caaaaaaaaaaaaa", "-"][:1], "eground": ["--tstp-in"], "e_axfilter": ["--tstp-in", "-o", "flt"], "enormalizer": ["-t", "terms"], "edpll": []}[prog]
        plans, kinds, hit = [], [], []
        def add(mode, roots, files, kind, faults=(), **k):
            plans.append(plan(roots, seed=rng.getrandbits(40), files=files, faults=list(faults), tick_budget=self.budget, **k)); kinds.append((mode, kind))
        if prog != "eprover": return self.gen_tool(rng, prog, pr)
        add("file", [R("eprover", *o, "p.p")], {"p.p": pr["text"]}, "ref")
        for _ in range(3):
            mode, roots, files, paths = deliver(rng, pr, o)
            ck = chunk(rng)
            kind = rng.choice(["intact", "intact", "read", "read", "read", "open", "missing", "torn", "mangled"])
            if mode in ("stdin", "dash") and kind in ("open", "missing"): kind = "read"
            tgt = rng.choice(paths)
            if kind == "intact": add(mode, roots, files, kind, **ck)
            elif kind == "read":
                size = len(files.get(tgt, files.get("d/" + tgt, "")) if tgt != "stdin" else pr["text"])
                nr = size // max(1, ck.get("rchunk", 4096)) + 2
                m = tgt if tgt != "stdin" else ""
                act = [[1000, "read", rng.randint(1, max(1, nr)) if rng.random() < .7 else rng.randint(1, 3), rng.choice([0, 1]), "err", rng.choice([errno.EIO, errno.EIO, errno.EISDIR, errno.EBADF, errno.ESTALE]), m]]
                add(mode, roots, files, kind + (":inc" if "ax" in tgt else ""), act, **ck)
            elif kind == "open": add(mode, roots, files, kind + (":inc" if "ax" in tgt else ""), [[1000, "openr", 1, 0, "err", rng.choice([errno.EACCES, errno.ENOENT, errno.EMFILE, errno.EIO]), tgt]], **ck)
            elif kind == "missing":
                f = {k: v for k, v in files.items() if not k.endswith(tgt)}
                if rng.random() < .3: f[[k for k in files if k.endswith(tgt)][0]] = None    # a directory instead
                add(mode, roots, f, kind + (":inc" if "ax" in tgt else ""), **ck)
            else:
                key = next((k for k in files if k.endswith(tgt)), None)
                t = files[key] if key else pr["text"]
                ends = set(); p = 0
                for f in formulas(t): p = t.index(f, p) + len(f); ends.add(p)
                for _ in range(20):
                    c = rng.randint(1, max(1, len(t) - 1))
                    last = max([e for e in ends if e <= c], default=0)
                    if t[last:c].strip(): break
                else:
                    add(mode, roots, files, "intact", **ck); continue
                cut = t[:c]
                if kind == "mangled":          # one formula starts with an unknown word
                    fs = formulas(t); at = 0
                    lo = 0 if "ax" in tgt else 1      # the first word of the first file selects the input language
                    if len(fs) <= lo: add(mode, roots, files, "intact", **ck); continue
                    j = rng.randrange(lo, len(fs))
                    for f in fs[:j]: at = t.index(f, at) + len(f)
                    at = t.index(fs[j], at); w = re.match(r"\w+", fs[j]).group(0)
                    cut = t[:at] + rng.choice([w[:-1], w + "x", "c", "end", w.upper()]) + t[at + len(w):]
                if key: f = dict(files); f[key] = cut; add(mode, roots, f, kind + (":inc" if "ax" in tgt else ""), **ck)
                else:
                    r = [dict(roots[0], stdin=cut)]; add(mode, r, files, kind, **ck)
        return dict(plans=plans, kinds=kinds, truth=pr["truth"], conj=pr["conj"], name=pr["name"], prog=prog)
    def gen_tool(self, rng, prog, pr):
        text = pr["text"]; files = {"p.p": text}; tgt = "p.p"
        if prog == "eground":
            pr = problems.rnd_epr(rng); files = {"p.p": pr["text"]}; a = ["eground", "--tstp-in", "p.p"]
        elif prog == "classify_problem": a = ["classify_problem", "--tstp-in", "p.p"]
        elif prog == "e_axfilter": a = ["e_axfilter", "--tstp-format", "-o", "flt", "p.p"]
        elif prog == "enormalizer":
            files = {"p.p": "cnf(a1,axiom,(plus(z,X)=X)).\ncnf(a2,axiom,(plus(s(X),Y)=s(plus(X,Y)))).\n", "t.p": "plus(s(s(z)),s(z))\nplus(plus(z,z),s(s(z)))\n" * rng.randint(1, 4)}
            a = ["enormalizer", "--tstp-format", "-t", "t.p", "p.p"]; tgt = rng.choice(["p.p", "t.p"])
        else:
            pr = problems.rnd_prop(rng, "cnf"); files = {"p.p": pr["text"]}; a = ["edpll", "--tstp-in", "p.p"]
        size = len(files[tgt]); plans = []; kinds = []
        base = dict(files=files, tick_budget=self.budget)
        plans.append(plan([R(*a)], seed=rng.getrandbits(40), **base)); kinds.append(("file", "ref"))
        for _ in range(3):
            ck = chunk(rng); kind = rng.choice(["intact", "read", "read", "open", "missing"])
            f = []; fl = dict(files)
            if kind == "read": f = [[1000, "read", rng.randint(1, size // max(1, ck.get("rchunk", 4096)) + 2) if rng.random() < .7 else 1, rng.choice([0, 1]), "err", errno.EIO, tgt]]
            elif kind == "open": f = [[1000, "openr", 1, 0, "err", rng.choice([errno.EACCES, errno.EIO]), tgt]]
            elif kind == "missing": del fl[tgt]
            plans.append(plan([R(*a)], seed=rng.getrandbits(40), files=fl, faults=f, tick_budget=self.budget, **ck)); kinds.append(("file", kind))
        return dict(plans=plans, kinds=kinds, truth=pr["truth"], conj=pr["conj"], name=pr["name"], prog=prog)
    def judge(self, case, results):
        ref = results[0]
        if ref.outcome != "done" or ref.root()["crash"]: return []
        for r, (mode, kind), p in zip(results, case["kinds"], case["plans"]):
            what = "%s of %s delivered by %s, %s" % (case["prog"], case["name"], mode, kind)
            st = statuses(r.out()); e = r.status(); pr = r.root()
            if pr["crash"]: return [("crash", "died of signal %d: %s" % (pr["crash"], what))]
            if case["prog"] == "eprover":
                for s in st:
                    if contradicts(case, s): return [("wrong-verdict", "%s: %s" % (s, what))]
            hit = kind.split(":")[0] in ("missing", "torn", "mangled") or any(r.d["faultfired"])
            if kind in ("ref", "intact") or not hit:
                if kind == "ref": continue
                if r.outcome != "done":
                    return [("delivery", "no end although the same problem ends when read from one file: %s" % what)] if mode in ("file", "stdin", "dash") else []
                if mode in ("file", "stdin", "dash"):
                    a, b = dtext(ref), dtext(r)
                    if e != ref.status() or a != b: return [("delivery", "result depends on the delivery: %s vs %s: %s; %s" % (ref.status(), e, what, firstdiff(a, b)))]
                elif e[0] != "exit" or e[1] not in (0, 1, 10) : return [("delivery", "exit %s: %s: %s" % (e, what, r.err()[:200]))]
                elif e[1] in (0, 1) and ref.status()[1] in (0, 1) and e != ref.status(): return [("delivery", "exit %s instead of %s: %s" % (e, ref.status(), what))]
                continue
            if r.outcome != "done": return [("no-end", "input fault did not end the run: %s" % what)]
            if any(s in PROOF or s in MODEL for s in st): return [("verdict-on-bad-input", "printed %s: %s" % (st, what))]
            if e[0] != "exit" or e[1] < 2 or e[1] in (8, 9, 10, 14): return [("fault-not-reported", "ended with %s: %s" % (e, what))] if not (case["prog"] == "e_axfilter" and kind in ("open", "missing")) else [("axfilter-missing-input", "ended with %s: %s" % (e, what))]
            if not r.err().strip(): return [("fault-not-reported", "no error message: %s" % what)]
        return []
    def shrink(self, case):
        for k in range(1, len(case["plans"])):
            if len(case["plans"]) > 2:
                c = copy.deepcopy(case); del c["plans"][k]; del c["kinds"][k]; yield c
    def probe(self, case, results):
        for r, (mode, kind) in zip(results[1:], case["kinds"][1:]):
            k = kind.split(":")[0]; f = any(r.d["faultfired"])
            if k == "intact": yield "delivered intact"
            if k == "read" and f: yield "read error"
            if k == "open" and f: yield "open error"
            if k == "missing": yield "missing file"
            if k == "torn": yield "torn file"
            if ":inc" in kind: yield "fault in an included file"
            if r.err().strip(): yield "error reported"

def dtext(r):
    """output with the places naming the input source neutralised"""
    return norm(re.sub(r"(file\(|initial\()(['\"])[^'\"]*\2", r"\1IN", outtext(r)))

# ---------------------------------------------------------------- P07
VOPTS = [[], ["-l", "1"], ["-l", "4"], ["-l", "6"], ["--proof-object"], ["--auto", "--proof-object", "--print-saturated"], ["-s"], ["-s", "--print-saturated"],
         ["--print-statistics"], ["--resources-info"], ["--cnf"], ["--pcl-out", "-l", "3"], ["--proof-object=3"], ["--training-examples=3", "--proof-object"], ["--print-sat-info"],
         ["--output-file=o.out", "--proof-object"], ["--output-file=o.out", "-l", "4"], ["--output-file=o.out", "--print-saturated", "--auto"], ["--print-strategy"], ["--answers", "--conjectures-are-questions"], ["--version"], ["--print-pid", "--proof-graph"]]
class P07(Single):
    id = "P07"; quick_cases = 2400; thorough_cases = 60000
    rule = "One evaluation = one program run with its output accepted in full, and three runs where the output channel accepts only part of the data: error or short write at a seeded write, full disk from there on, closed pipe."
    probes = ("output lost and reported", "success with complete output", "output to file", "fault fired")
    def gen(self, rng, i):
        pr = problems.pick(rng); files = {"p.p": pr["text"]}
        r = rng.random()
        if r < .75: a = ["eprover"] + list(rng.choice(VOPTS)) + ["p.p"]
        elif r < .80: files = {"p.p": problems.rnd_epr(rng)["text"]}; a = ["eground", "--tstp-in", "p.p"] + ([] if rng.random() < .5 else ["--output-file=o.out"])
        elif r < .85: a = ["e_axfilter", "--tstp-format", "-o", "o.out", "p.p"]
        elif r < .90:
            files = {"p.p": "cnf(a1,axiom,(plus(z,X)=X)).\ncnf(a2,axiom,(plus(s(X),Y)=s(plus(X,Y)))).\n", "t.p": "plus(s(s(z)),s(z))\nplus(plus(z,z),s(s(z)))\n" * rng.randint(1, 4)}
            a = ["enormalizer", "--tstp-format", "-t", "t.p", "p.p"]
        elif r < .95: a = ["classify_problem", "--tstp-in", "p.p"]
        else: files = {"p.p": problems.rnd_prop(rng, "cnf")["text"]}; a = ["edpll", "--tstp-in", "p.p"]
        p = plan([R(*a)], seed=rng.getrandbits(40), files=files, tick_budget=self.budget)
        b = run(p)
        if b.outcome != "done": return None
        n = b.root()["ops"].get("wout", 0); m = b.root()["ops"].get("wfile", 0)
        plans = [p]
        for _ in range(3):
            op = "wfile" if m else "wout"      # with an output file, that file is the output channel
            k = n if op == "wout" else m
            kind = rng.choice(["err", "err", "errp", "short", "shorterr", "pipe"] + (["close"] if m else []))
            at = rng.randint(1, max(1, k)) if rng.random() < .6 else max(1, k - int(rng.random() ** 2 * k))
            if kind == "err": f = [[1000, op, at, 1, "err", rng.choice([errno.EIO, errno.ENOSPC, errno.EDQUOT, errno.EFBIG])]]
            elif kind == "errp": f = [[1000, op, at, 0, "err", rng.choice([errno.EIO, errno.ENOSPC])]]
            elif kind == "close": f = [[1000, "close", rng.choice([1, 1, 1, 2]), 0, "err", rng.choice([errno.EIO, errno.ENOSPC, errno.EDQUOT]), "o.out"]]   # what was buffered is lost when the file is closed
            elif kind == "short": f = [[1000, op, rng.randint(1, max(1, k)), rng.choice([0, 1, 3]), "short", rng.randint(1, 200)]]
            elif kind == "shorterr": f = [[1000, op, at, 1, "short", rng.randint(1, 600)], [1000, op, at + 1, 0, "err", errno.ENOSPC]]
            else: f = [[1000, op, at, 0, "err", errno.EPIPE]]
            plans.append(plan([R(*a)], seed=p["seed"], files=files, faults=f, tick_budget=self.budget))
        return dict(plans=plans, truth=pr["truth"], conj=pr["conj"], name=pr["name"], argv=a)
    def judge(self, case, results):
        ref = results[0]
        if ref.outcome != "done" or ref.status()[0] != "exit": return []
        for r, p in zip(results[1:], case["plans"][1:]):
            what = "%s with %s" % (" ".join(case["argv"]), p["faults"])
            if r.root()["crash"]: return [("crash", "died of signal %d: %s" % (r.root()["crash"], what))]
            if r.outcome != "done": return [("no-end", "run did not end: %s" % what)]
            e = r.status()
            a, b = allout(ref), allout(r)
            if e[0] == "exit" and e[1] in (0, 1):
                if p["faults"][0][1] == "close" and r.d["faultfired"][0]: return [("success-with-lost-output", "exit code %d although closing the output file failed: %s" % (e[1], what))]
                if a != b: return [("success-with-lost-output", "exit code %d but output differs: %s; %s" % (e[1], what, firstdiff(a, b)))]
                if e != ref.status(): return [("exit-changed", "%s instead of %s: %s" % (e, ref.status(), what))]
            elif e[0] == "exit" and e != ref.status() and not any(r.d["faultfired"]): return [("exit-changed", "%s instead of %s: %s" % (e, ref.status(), what))]
        return []
    def shrink(self, case):
        for k in range(1, len(case["plans"])):
            if len(case["plans"]) > 2:
                c = copy.deepcopy(case); del c["plans"][k]; yield c
    def probe(self, case, results):
        ref = results[0]
        for r in results[1:]:
            if any(r.d["faultfired"]): yield "fault fired"
            if "o.out" in r.tree: yield "output to file"
            if norm(r.out()) != norm(ref.out()): yield "output lost and reported"
            elif r.status() == ref.status(): yield "success with complete output"

def allout(r):
    """everything a run produced: standard output and every file it wrote"""
    return norm(r.out()) + "".join("\n== %s\n%s" % (k, norm(v)) for k, v in sorted(r.tree.items()) if v is not None and not k.endswith("p.p"))

# ---------------------------------------------------------------- P08
class P08(Single):
    id = "P08"; quick_cases = 2200; thorough_cases = 60000
    rule = "One evaluation = one program run repeated under three different machines: CPU speed, wall-clock start, process ids, heap base address and gaps, contents of fresh and freed memory, input chunking; outputs compared byte by byte apart from the resource-usage lines."
    probes = ("identical", "addresses in another order")
    def gen(self, rng, i):
        pr = problems.pick(rng); files = {"p.p": pr["text"]}; r = rng.random()
        if r < .86:
            o = list(rng.choice(OPTS + [["--cpu-limit=100000"], ["--auto", "--soft-cpu-limit=100000", "--cpu-limit=200000"], ["--auto", "--proof-object=3", "-l", "4"], ["-l", "6", "--print-saturated"]]))
            a = ["eprover"] + o + ["p.p"]
        elif r < .90: files = {"p.p": problems.rnd_epr(rng)["text"]}; a = ["eground", "--tstp-in", "p.p"]
        elif r < .93: a = ["e_axfilter", "--tstp-format", "-o", "o.out", "p.p"]
        elif r < .96:
            files = {"p.p": "cnf(a1,axiom,(plus(z,X)=X)).\ncnf(a2,axiom,(plus(s(X),Y)=s(plus(X,Y)))).\n", "t.p": "plus(s(s(z)),s(z))\nplus(plus(z,z),s(s(z)))\n" * rng.randint(1, 4)}
            a = ["enormalizer", "--tstp-format", "-t", "t.p", "p.p"]
        else: a = ["classify_problem", "--tstp-in", "p.p"]
        plans = [plan([R(*a)], seed=rng.getrandbits(40), files=files, tick_budget=self.budget)]
        for _ in range(3):
            k = dict(ticks_per_us=rng.choice([.05, 1.0, 20.0, 500.0]), epoch=rng.choice([0, 1, 1000000000, 1700000000, 2147483000, 4000000000]), vpid0=rng.choice([2, 1000, 31000]))
            if rng.random() < .6: k["heap_base"] = rng.choice([1, 2, 3, 5, 7, 64, 255, 256, 4096, rng.randint(1, 100000)])
            if rng.random() < .7: k["heap_fill"] = rng.choice([0, 1, 0x55, 0xA5, 0xFF, 0x80])
            if rng.random() < .5: k["heap_freefill"] = rng.choice([0, 0x5A, 0xFF, 0xDD])
            if rng.random() < .5: k["heap_seed"] = 4 * rng.randint(1, 1000000)                          # gaps between allocations
            elif rng.random() < .15: k["heap_seed"] = 4 * rng.randint(1, 1000000) + rng.choice([1, 2, 3])   # another order of addresses: only the verdict is compared
            k.update(chunk(rng))
            plans.append(plan([R(*a)], seed=rng.getrandbits(40), files=files, tick_budget=self.budget, **k))
        return dict(plans=plans, name=pr["name"], argv=a)
    def judge(self, case, results):
        ref = results[0]
        keep = [k for k, (r, p) in enumerate(zip(results, case["plans"])) if r.outcome == "done" or not p["params"].get("heap_seed", 0) & 3]
        case = dict(case, plans=[case["plans"][k] for k in keep]); results = [results[k] for k in keep]
        done = [r for r in results if r.outcome == "done"]
        if len(done) < len(results):
            if done and any(abs(r.root()["ticks"] - self.budget) > self.budget // 4 for r in done): return [("end-differs", "%s ends in one run but not in another" % " ".join(case["argv"]))]
            return []
        for r, p in zip(results[1:], case["plans"][1:]):
            what = "%s on %s under %s" % (" ".join(case["argv"]), case["name"], {k: v for k, v in p["params"].items() if k != "tick_budget"})
            if r.root()["crash"]: return [("crash", "died of signal %d: %s" % (r.root()["crash"], what))]
            if p["params"].get("heap_seed", 0) & 3:
                c = [x for x in (ref, r) if x.status()[0] == "exit" and x.status()[1] in (0, 1)]
                if len(c) == 2 and ref.status() != r.status(): return [("verdict-differs", "%s vs %s: %s" % (ref.status(), r.status(), what))]
                if r.status()[0] != "exit" or (r.status()[1] > 1 and r.status()[1] not in (9, 10) and r.status() != ref.status()): return [("exit-differs", "%s vs %s: %s" % (ref.status(), r.status(), what))]
                continue
            if r.status() != ref.status(): return [("exit-differs", "%s vs %s: %s" % (ref.status(), r.status(), what))]
            a, b = pidless(ref), pidless(r)
            if a != b: return [("output-differs", "%s: %s" % (what, firstdiff(a, b)))]
        return []
    def shrink(self, case):
        for k in range(1, len(case["plans"])):
            if len(case["plans"]) > 2:
                c = copy.deepcopy(case); del c["plans"][k]; yield c
        yield from Single.shrink(self, case)
        for pi in range(1, len(case["plans"])):
            for k in ("ticks_per_us", "epoch", "vpid0"):
                if k in case["plans"][pi]["params"]:
                    c = copy.deepcopy(case); del c["plans"][pi]["params"][k]; yield c
    def probe(self, case, results):
        yield "identical"
        if any(p["params"].get("heap_seed", 0) & 3 for p in case["plans"]): yield "addresses in another order"

def pidless(r): return norm(re.sub(r"^[%#] Pid: \d+", "% Pid:", outtext(r), flags=re.M))

# ---------------------------------------------------------------- P21
STEP = re.compile(r"^(cnf|fof|tff|tcf|thf)\(([^,]+),\s*(\w+),\s*(.*)\)\.\s*$")
def parse_proof(block):
    """list of (name, role, formula text, source text)"""
    steps = []
    for l in block.split("\n"):
        l = l.strip()
        if not l or l[0] in "#%": continue
        m = STEP.match(l)
        if not m: return None, "unreadable proof line: %s" % l[:200]
        rest = split_args(m.group(4))
        steps.append((m.group(2), m.group(3), rest[0], rest[1:]))
    return steps, None
def split_args(t):
    out = []; d = 0; cur = ""; q = None; i = 0
    while i < len(t):
        c = t[i]
        if q:
            cur += c
            if c == "\\": i += 1; cur += t[i]
            elif c == q: q = None
        elif c in "'\"": q = c; cur += c
        elif c in "([": d += 1; cur += c
        elif c in ")]": d -= 1; cur += c
        elif c == "," and d == 0: out.append(cur.strip()); cur = ""
        else: cur += c
        i += 1
    out.append(cur.strip())
    return out
def parents(src):
    """names of parents in an inference term; None if it is a leaf"""
    if src.startswith("file("): return None
    if src.startswith("introduced("): return None
    if src.startswith("inference("):
        a = split_args(src[len("inference("):-1]); ps = []
        lst = a[-1]
        assert lst.startswith("["), src
        for x in split_args(lst[1:-1]):
            if not x: continue
            if x.startswith("inference(") or x.startswith("file(") or x.startswith("introduced("):
                q = parents(x); ps += q if q else []
            elif x.startswith("theory("): pass
            else: ps.append(x.split(":")[0].strip())
        return ps
    return [src]
TOK = re.compile(r"'(?:[^'\\\\]|\\\\.)*'|\"[^\"]*\"|\$?\w+|!=|<=>|<~>|=>|<=|[^\s\w]")
def bag(f):
    """the symbols of a formula as a multiset: E may reorder literals and turn equations around"""
    ts = []
    for x in TOK.findall(f):
        if x in "(),[]": continue
        if x == "!=": ts += ["~", "="]
        else: ts.append("V" if x[0].isupper() else x)
    return sorted(ts)

def cbag(f):
    """clause: set of literals, without those that are false by themselves"""
    f = re.sub(r"\s", "", f)
    while f.startswith("(") and f.endswith(")") and closed(f[1:-1]): f = f[1:-1]
    out = set()
    for l in split_top(f, "|"):
        while l.startswith("(") and l.endswith(")") and closed(l[1:-1]): l = l[1:-1]
        m = re.match(r"(.*)!=(.*)$", l)
        if l == "$false" or (m and m.group(1) == m.group(2)): continue
        out.add(tuple(bag(l)))
    return out
def closed(t):
    d = 0
    for c in t:
        d += (c == "(") - (c == ")")
        if d < 0: return False
    return d == 0
def split_top(t, sep):
    out = [""]; d = 0
    for c in t:
        d += (c in "([") - (c in ")]")
        if c == sep and d == 0: out.append("")
        else: out[-1] += c
    return out
def same(kind, a, b): return cbag(a) == cbag(b) if kind == "cnf" else bag(a) == bag(b)

def check_proof(text, files):
    """None or description of what is wrong with the proof printed in text"""
    m = re.search(r"^[%#] SZS output start CNFRefutation[^\n]*\n(.*?)^[%#] SZS output end CNFRefutation", text, re.M | re.S)
    if not m: return ("no complete CNFRefutation block"), []
    steps, err = parse_proof(m.group(1))
    if err: return (err), []
    names = {}
    for n, role, f, src in steps:
        if n in names: return ("step name %s used twice" % n), []
        names[n] = (role, f, src)
    order = [s[0] for s in steps]; idx = {n: i for i, n in enumerate(order)}
    inputs = {}
    for t in files.values():
        for f in formulas(t):
            mm = re.match(r"(\w+)\((\w+)\s*,\s*(\w+)\s*,(.*)\)\s*\.$", f, re.S)
            if mm: inputs[mm.group(2)] = (mm.group(1), mm.group(3), mm.group(4))
    children = {}; leaves = []
    for n, role, f, src in steps:
        if not src and role == "type": continue
        if not src: return ("step %s has no source" % n), []
        ps = parents(src[0])
        if ps is None:
            if src[0].startswith("file("):
                a = split_args(src[0][5:-1])
                if a[0].strip("'") not in files: return ("leaf %s comes from %s, not from the input" % (n, a[0])), []
                if len(a) < 2 or a[1] not in inputs: return ("leaf %s names input %s, which does not exist" % (n, a[1:])), []
                if not same(inputs[a[1]][0], inputs[a[1]][2], f): return ("leaf %s (%s) is %s, but the input formula is %s" % (n, a[1], f, inputs[a[1]][2])), []
                if role not in (inputs[a[1]][1], "plain", "type") and not (inputs[a[1]][1] == "hypothesis"): return ("leaf %s has role %s, input %s has %s" % (n, role, a[1], inputs[a[1]][1])), []
                leaves.append(a[1])
            continue
        for p in ps:
            if p not in names: return ("parent %s of step %s is not printed" % (p, n)), []
            if idx[p] >= idx[n]: return ("parent %s of step %s comes after it" % (p, n)), []
            children.setdefault(p, []).append(n)
    last = [s for s in steps if "$false" in s[2]]
    if not last: return ("no contradiction in the proof"), []
    if steps[-1][2].strip("() ") != "$false": return ("the derivation ends in %s, not in a contradiction" % steps[-1][2]), []
    return None, leaves

POPTS = [["--proof-object"], ["--auto", "--proof-object"], ["-s", "--auto", "--proof-object"], ["--proof-object=3"], ["--auto", "--proof-object=2", "--print-saturated"], ["--proof-object", "--definitional-cnf=2", "--split-clauses=7"],
  ["--proof-object", "--simul-paramod", "--condense"], ["--proof-object", "--satcheck=ConjMinMinFreq", "--satcheck-proc-interval=3"], ["--proof-object", "--forward-contract-limit=3"], ["--proof-object", "-tKBO6", "-WSelectNewComplexAHPExceptRRHorn"],
  ["--proof-object", "--filter-orphans-limit=2", "--delete-bad-limit=150000"], ["--proof-object", "--delete-bad-limit=1"], ["--training-examples=3", "--proof-object"], ["--proof-object", "--sine=Auto"], ["--proof-object", "--presat-simplify", "--auto"], ["--proof-object", "--definitional-cnf=1", "--miniscope-limit=1"],
  ["--proof-object", "--full-deriv"], ["--proof-object", "--split-clauses=31", "--split-aggressive", "--split-reuse-defs"], ["--proof-object", "--strong-rw-inst", "--fw-subsumption-aggressive"], ["--proof-object", "--sos-uses-input-types", "--prefer-initial-clauses"], ["--proof-object", "--rel-pruning-level=3"], ["--proof-object", "--output-file=o.out"]]

def gclimit(self, rng, pr, o):
    """a storage limit that is exceeded late in the run (found by bisection), so that clauses are deleted and terms collected while the proof is under way"""
    lo, hi = 20000, 6000000
    for _ in range(9):
        m = int((lo * hi) ** .5)
        r = run(self.mk(rng, o + ["--delete-bad-limit=%d" % m], pr, tick_budget=self.budget // 4))
        if r.outcome != "done": return None
        if "orphaned clauses and" in outtext(r): lo = m
        else: hi = m
    return int(lo * rng.choice([1, .99, .97, .9, .8, .6, rng.random()]))

class P21(Single):
    id = "P21"; quick_cases = 2600; thorough_cases = 60000; variants = ("fo", "sm")
    rule = "One evaluation = one refutable problem, one proof-printing strategy, one undisturbed and three disturbed runs (signal, limit, allocation failure, clause deletion, output fault); every printed derivation is parsed and checked: closed, acyclic, leaves are the input formulas, last step is the empty clause, and for problems with a decision procedure the leaves are refutable on their own."
    probes = ("proof checked", "proof checked after clause deletion or reclaimed memory", "proof checked after terms were collected", "leaves decided refutable", "proof cut off, no success code")
    def gen(self, rng, i):
        prob = None
        r = rng.random()
        pr, o, p, b = self.base(rng, opts=lambda g: list(g.choice(POPTS)), need=lambda q: q["truth"] == "U")
        plans = []; kinds = []; gl = None
        for _ in range(3):
            k = rng.choice(["gc", "gc", "bad", "malloc1", "malloci", "heap", "soft", "sig", "step", "multi", "ioerr", "badmem", "none"])
            if k == "gc":
                if gl is None: gl = gclimit(self, rng, pr, o) if "-s" not in o and not any("delete-bad" in x for x in o) else 0
                if not gl: k = "none"
                else: q = self.mk(rng, o + ["--delete-bad-limit=%d" % int(gl * rng.choice([1, 1, .97, .9, .8, .6]))], pr, heap_fill=rng.choice([-1, 0x55]), heap_freefill=rng.choice([-1, 0xff]))
            if k == "gc":
                if rng.random() < .7: q["variant"] = "sm"; q["params"]["heap_freefill"] = rng.choice([0xff, 0xdd, 0])
            elif k == "none": q = self.mk(rng, o, pr, heap_fill=rng.choice([0, 0x55, 0xff]), heap_freefill=rng.choice([-1, 0, 0xff]))
            elif k == "ioerr":
                op = "wfile" if any("output-file" in x for x in o) else "wout"; n = b.root()["ops"].get(op, 1)
                q = self.mk(rng, o, pr, faults=[[1000, op, rng.randint(1, n), rng.choice([0, 1]), "err", rng.choice([errno.EIO, errno.ENOSPC])]])
            else: q, k = disturb(self, rng, pr, o, b, [k])
            plans.append(q); kinds.append(k)
        return dict(plans=[p] + plans, kinds=["none"] + kinds, name=pr["name"], truth=pr["truth"], conj=pr["conj"])
    def judge(self, case, results):
        for r, k, p in zip(results, case["kinds"], case["plans"]):
            if r.root()["crash"]: return [("crash", "died of signal %d while searching for or printing the proof (%s, %s, under %s)" % (r.root()["crash"], case["name"], " ".join(p["roots"][0]["argv"][1:]), k))]
            if r.outcome != "done": continue
            t = outtext(r); e = r.status()
            if "SZS output end CNFRefutation" not in t:
                if e == ("exit", 0): return [("no-proof", "proof-found exit code but no complete derivation (%s under %s)" % (case["name"], k))]
                continue
            if e != ("exit", 0): continue      # output incomplete or interrupted by the message about a limit, and the exit code says so
            m, leaves = check_proof(t, p["files"])
            if m: return [("bad-proof", "%s (%s, %s, under %s)" % (m, case["name"], " ".join(p["roots"][0]["argv"][1:]), k))]
            if not refutable(case["name"], p["files"]["p.p"], leaves): return [("insufficient-leaves", "the leaves %s of the printed derivation of %s are satisfiable (under %s)" % (sorted(set(leaves)), case["name"], k))]
        return []
    def probe(self, case, results):
        for r, k, p in zip(results, case["kinds"], case["plans"]):
            t = outtext(r)
            if "SZS output end CNFRefutation" in t:
                yield "proof checked"
                if k == "gc" and "orphaned clauses and" in t: yield "proof checked after terms were collected"
                if k in ("bad", "gc", "badmem", "malloc1", "malloci", "heap"): yield "proof checked after clause deletion or reclaimed memory"
                if case["name"].startswith(("prop", "epr")): yield "leaves decided refutable"
            elif k == "ioerr": yield "proof cut off, no success code"

def refutable(name, text, leaves):
    """for families with a decision procedure: are the leaves unsatisfiable by themselves?"""
    if not name.startswith(("prop", "epr")): return True
    L = set(leaves); cl = []
    for f in formulas(text):
        m = re.match(r"\w+\((\w+),\w+,(.*)\)\.$", f, re.S)
        if m.group(1) not in L: continue
        body = m.group(2).strip()
        if body.startswith("~("):      # negated conjunction as conjecture: its clauses are assumed
            for part in body[2:-1].split("&"): cl.append(parse_clause(part))
        else: cl.append(parse_clause(body))
    consts = sorted({a for c in cl for _, _, args in c for a in args if a[0].islower()}) or ["a"]
    atoms = {}; g = []
    import itertools
    for c in cl:
        vs = sorted({a for _, _, args in c for a in args if a[0].isupper()})
        for val in itertools.product(consts, repeat=len(vs)):
            s = dict(zip(vs, val)); d = {(1 if sg else -1) * atoms.setdefault((p, tuple(s.get(a, a) for a in args)), len(atoms) + 1) for sg, p, args in c}
            if not any(-l in d for l in d): g.append(d)
    return not problems.dpll(g)
def parse_clause(t):
    out = []
    t = t.strip()
    while t.startswith("(") and t.endswith(")"): t = t[1:-1].strip()
    for x in t.split("|"):
        x = x.strip(); sg = not x.startswith("~"); x = x.lstrip("~").strip()
        m = re.match(r"(\w+)(?:\((.*)\))?$", x)
        out.append((sg, m.group(1), tuple(a.strip() for a in m.group(2).split(",")) if m.group(2) else ()))
    return out
