"""P12-P15: the message protocol and the deduction server."""
import re, errno, copy, os, random
from dst import core
from dst.core import plan, R, run
from dst.problems import statuses, PROOF, MODEL

PORT = 9000
def esc(t): return "".join("\\n" if c == "\n" else "\\\\" if c == "\\" else c if 32 <= ord(c) < 127 else "\\x%02x" % ord(c) for c in t)
def unesc(t): return re.sub(r"\\(n|\\|x[0-9a-f]{2})", lambda m: "\n" if m[1] == "n" else "\\" if m[1] == "\\" else chr(int(m[1][1:], 16)), t)
def events(out):
    """what a client saw: list of ('msg', text) | ('EOF'|'CUT'|'ERR'|..., rest)"""
    r = []
    for l in out.split("\n"):
        if l.startswith("< "): r.append(("msg", unesc(l[2:])))
        elif l: r.append((l.split(" ")[0], l))
    return r
def msgs(out): return [t for k, t in events(out) if k == "msg"]
CODE = re.compile(r"\d\d\d ")

def net(rng, heavy=False):
    k = dict(tick_budget=200000000, sched=rng.choice([0, 0, 1, 2, 3]), ncores=rng.choice([1, 2, 4, 8]))
    k["q_min"], k["q_max"] = rng.choice([(5000, 50000), (500, 3000), (50000, 400000)])
    if rng.random() < .75: k["schunk"], k["schunk_pct"] = rng.choice([(1, 30), (1, 100), (2, 60), (3, 100), (7, 80), (50, 80), (400, 90), (1024, 60)])
    if rng.random() < .5: k["pipecap"] = rng.choice([4096, 8192, 65536])
    if rng.random() < .4: k["heap_fill"] = rng.choice([0x41, 0x55, 0xff]); k["heap_freefill"] = rng.choice([0x42, 0x5a, 0xff])
    return k

WORDS = ["foo", "bar", "GO", "go", "0000", "\\", "'q r'", "x" * 40, "%", "%s%n", "\n", "  ", "(", "é".encode("utf-8").decode("latin-1")]
def text(rng, n=None):
    n = n if n is not None else rng.choice([1, 2, 3, 5, 20, 100, 1016, 1019, 1020, 1021, 1022, 1024, 1025, 2040, 2044, 3000, 5000, 9000, 70000])
    o = ""
    while len(o) < n: o += rng.choice(WORDS) + rng.choice(["", " ", "_", "\n"])
    return o[:n]

class Base(core.Check):
    real = ["e_deduction_server, e_server, e_client and eprover: all E code, unmodified; a small accepting program around E's message queues (TCPChannel functions)"]
    stubbed = ["libc process, time, signal, memory, file and socket entry points (simulated)", "client: scripted program speaking the documented message protocol"]
    assumptions = ["The network is a reliable byte stream that may deliver data in any pieces, end or reset at any byte.",
                   "Processes interleave at preemption points between basic blocks and at system calls."]
    def shrink(self, case):
        for pi, p in enumerate(case["plans"]):
            for k in ("heap_fill", "heap_freefill", "pipecap", "ncores", "schunk"):
                if k in p["params"]:
                    c = copy.deepcopy(case); del c["plans"][pi]["params"][k]; yield c

# ------------------------------------------------------------------ P12
class P12(Base):
    id = "P12"; quick_cases = 4000; thorough_cases = 40000
    rule = "One evaluation = one conversation (client against e_server, e_client against e_server, client against the message queues, or client against e_deduction_server), the byte stream cut into seeded pieces, some connections ended inside a message; what each side received is compared with what the other sent."
    probes = ("conversation complete", "broken inside a message", "message longer than a read buffer", "empty message", "e_client", "queues", "session")
    def setup(self): self.chan = os.path.exists(os.path.join(core.BUILD, "fo", "bin", "chan"))
    def gen(self, rng, i):
        kind = rng.choice(["echo", "echo", "echo", "queue", "queue", "e_client", "session", "session"])
        if kind == "queue" and not self.chan: kind = "echo"
        k = net(rng)
        cut = None
        if kind == "e_client":
            prob = text(rng).replace("\0", "")
            p = plan([R("e_server", "-P", str(PORT), "ax.p"), R("e_client", "-P", str(PORT), "prob.p", start=3000000)], seed=rng.getrandbits(40), files={"ax.p": "fof(a,axiom,p).\n", "prob.p": prob}, vtime_limit=20000000, tty=1, gai=rng.choice([0, 0, 1, 2, 3]), **k)
            return dict(plans=[p], kind=kind, sent=[["hello"], ["add", prob, "prove"]])
        n = rng.choice([1, 2, 3, 5, 8])
        ms = [rng.choice(["", "GO\n", "x", text(rng), text(rng), text(rng), text(rng, rng.randint(1, 40))]) for _ in range(n)]
        if kind == "queue":      # the client reads only at the end: all answers must fit into the connection
            k["pipecap"] = 65536
            while sum(len(m) + 10 for m in ms) > 50000: ms[ms.index(max(ms, key=len))] = "y"
        if kind == "session":
            # a set is uploaded in pieces and downloaded again; a job is asked for
            body = axioms(rng, 3)[0]
            if rng.random() < .5: body += "".join("%% %s\n" % text(rng).replace("\n", " ") for _ in range(rng.randint(1, 3)))
            parts = split(rng, body)
            s = ["connect %d" % PORT, "send ADD s1\\n"] + ["send " + esc(x) for x in parts] + ["send GO\\n", "reply", "send DOWNLOAD s1\\n", "reply"]
            tail = ["send RUN j1\\n", "send " + esc("fof(c,conjecture,$true).\n")]
            go = "\0\0\0\x07GO\n"
            if rng.random() < .6: cut = rng.randint(0, 6); tail += ["raw " + esc(go[:cut]), "sleep 1000", "close"]
            elif rng.random() < .6: cut = 7; tail += ["raw " + esc(rng.choice(["\0\0\0\x08GO\n", "\0\0\0\x40GO\n", "\0\0\x10\x07GO\n"])), "sleep 1000", "close"]
            else: tail = ["send QUIT\\n", "drain"]
            s += tail
            p = plan([R("e_deduction_server", "-p", str(PORT), "prover"), R("client", "c.s", start=10000)], seed=rng.getrandbits(40), files={"c.s": "\n".join(s) + "\n"}, stop_when_roots=2, settle_us=2000000, vtime_limit=60000000, **k)
            return dict(plans=[p], kind=kind, body=body, cut=cut)
        s = ["connect %d" % PORT]; full = []
        last = None
        for j, m in enumerate(ms):
            m = m.replace("\0", "")
            if j == len(ms) - 1 and rng.random() < .35:
                raw = (len(m) + 4).to_bytes(4, "big").decode("latin-1") + m
                cut = rng.randint(0, len(raw) - 1) if rng.random() < .7 else min(len(raw) - 1, rng.randint(0, 6))
                s.append("raw " + esc(raw[:cut])); last = m
            else:
                full.append(m)
                if rng.random() < .2 and len(m):
                    raw = (len(m) + 4).to_bytes(4, "big").decode("latin-1") + m; a = rng.randint(1, len(raw) - 1)
                    s += ["raw " + esc(raw[:a]), "sleep %d" % rng.choice([100, 30000]), "raw " + esc(raw[a:])]
                else: s.append("send " + esc(m))
                if kind == "echo" and rng.random() < .5 : s.append("recv 2"); 
        nrep = 0
        if kind == "echo":
            got = sum(2 for x in s if x == "recv 2"); s.append("recv %d" % (2 * len(full) - got)) if 2 * len(full) > got else None
            root = R("e_server", "-P", str(PORT), "ax.p")
        else:
            full.append("flush") if cut is None else None
            if cut is None: s += ["send flush", "recv %d" % len(full)]
            root = R("chan", str(PORT), str(rng.choice([1, 2, 3, 100])))
        s += ["sleep 1000", "close"]
        p = plan([root, R("client", "c.s", start=20000)], seed=rng.getrandbits(40), files={"c.s": "\n".join(s) + "\n", "ax.p": "fof(a,axiom,p).\n"}, stop_when_roots=2, settle_us=20000000, tty=1, vtime_limit=60000000, **k)
        return dict(plans=[p], kind=kind, sent=full, cut=cut, last=last)
    def judge(self, case, results):
        r = results[0]; k = case["kind"]; out = r.out(0)
        if r.outcome == "tickbudget": return [("spin", "%s: the conversation never ends (%s)" % (k, [(q["name"], q["ticks"]) for q in r.procs]))]
        if r.root(0)["crash"]: return [("crash", "%s died of signal %d" % (r.root(0)["name"], r.root(0)["crash"]))]
        for q in r.procs:
            if q["crash"]: return [("crash", "%s died of signal %d" % (q["name"], q["crash"]))]
        if k == "e_client":
            want = case["sent"][0] + case["sent"][1]
            v = received(out, want, None)
            if v: return [("altered", "e_server: " + v)]
            if "Server: wait\n" not in r.out(1) or "Server: ready\n" not in r.out(1): return [("altered", "e_client did not receive what e_server sent: %r" % r.out(1)[:300])]
            return []
        if k == "echo":
            v = received(out, case["sent"], case.get("last"))
            if v: return [("altered", "e_server: " + v)]
            ms = msgs(r.out(1))
            if ms != ["wait", "ready"] * len(case["sent"]): return [("altered", "the client received %r" % ms)]
        if k == "queue":
            got = [unesc(l[4:]) for l in out.split("\n") if l.startswith("GOT ")]
            if got != case["sent"]: return [("altered", "sent %s, the queue delivered %s" % (short(case["sent"]), short(got)))]
            if case["cut"] is None:
                ms = msgs(r.out(1))
                if ms != ["re:" + m for m in case["sent"]]: return [("altered", "answers %s, received %s" % (short(["re:" + m for m in case["sent"]]), short(ms)))]
        if k == "session":
            ms = msgs(r.out(1))
            want = ["205 ok : added\n", case["body"], "204 ok : downloaded\n"]
            if ms != want: return [("altered", "uploaded %s, the session answered %s" % (short([case["body"]]), short(ms)))]
            if case["cut"] is not None and any(q["name"] in ("prover", "eprover") for q in r.procs): return [("acted-on-partial", "a job was started although its last message never arrived whole")]
        return []
    def probe(self, case, results):
        if case["kind"] == "e_client": yield "e_client"
        if case["kind"] == "queue": yield "queues"
        if case["kind"] == "session": yield "session"
        if case.get("cut") is not None: yield "broken inside a message"
        else: yield "conversation complete"
        if any(len(m) > 1024 for m in case.get("sent", []) if isinstance(m, str)): yield "message longer than a read buffer"
        if "" in case.get("sent", []): yield "empty message"

def short(l): return [x if len(x) < 120 else x[:50] + "...%d...%s" % (len(x), x[-50:]) for x in l]
def received(out, want, last):
    """e_server prints 'Received: ' and the message, followed by an end of line"""
    pos = 0
    for m in want:
        i = out.find("Received: " + m + "\n", pos)
        if i < 0: return "message %s was not received as sent" % short([m])
        if "Received: " not in m and out.find("Received: ", pos) != i: return "something else arrived before message %s: %r" % (short([m]), out[out.find("Received: ", pos):][:200])
        pos = i + len(m) + 11
    if "Received: " in out[pos:]: return "a message that was never completely sent was received: %r" % out[pos:][:200]
    return None

# ------------------------------------------------------------------ sessions
def split(rng, t):
    if rng.random() < .3: return [t] if t else []
    o = []
    while t:
        n = rng.choice([len(t), rng.randint(1, 30), rng.randint(1, len(t))]); x = t[:n]; t = t[n:]
        if x == "GO\n": x, t = x + t[:1], t[1:]
        o.append(x)
    return [x for x in o if x != "GO\n"] if "GO\n" not in o else ["".join(o)]

def axioms(rng, n, tag="a", preds=6, facts=True):
    """Horn axioms over p0..p<preds> with unique names. Returns text, [(name, body, head)]"""
    o = []; h = []
    for j in range(n):
        nm = "%s_%d" % (tag, j); a = rng.randrange(preds); b = rng.randrange(preds)
        if facts and rng.random() < .4: o.append("%s(%s,%s,p%d(c))." % (("fof", nm, "axiom", b) if rng.random() < .7 else ("cnf", nm, "axiom", b))); h.append((nm, None, b))
        elif rng.random() < .7: o.append("fof(%s,axiom,![X]:(p%d(X)=>p%d(X)))." % (nm, a, b)); h.append((nm, a, b))
        else: o.append("cnf(%s,axiom,(~p%d(X)|p%d(X)))." % (nm, a, b)); h.append((nm, a, b))
        if rng.random() < .1: o.append("%% a comment %d" % j)
        if rng.random() < .1: o.append("")
    t = rng.choice(["\n", "\n", " "]).join(o) if not any(x.startswith("%") for x in o) else "\n".join(o)
    return t + rng.choice(["\n", "\n", ""]) if t else "", h
def closure(rules):
    s = set(); ch = True
    while ch:
        ch = False
        for _, a, b in rules:
            if (a is None or a in s) and b not in s: s.add(b); ch = True
    return s

NAMES = ["s1", "s12", "s", "s2", "s3", "s3-b", "ax4", "set-5", "n.6", "a+b", "x7.ax", "12", "verylongname" * 8]
class Model:
    """documented behaviour of one session"""
    def __init__(self, lib): self.sets = {}; self.lib = lib
    def do(self, c):
        """-> (code, payload matcher) ; payload: list of exact messages | ('list', staged, unstaged) | ('run', rules, goal) | None"""
        k = c["cmd"]; n = c.get("name")
        if k == "ADD":
            if n in self.sets: return 401, []
            self.sets[n] = dict(text=c["text"], rules=c["rules"], staged=False); return 205, []
        if k == "LOAD":
            if self.lib is None: return 408, []
            if n not in self.lib: return 404, []
            if n in self.sets: return 401, []
            self.sets[n] = dict(text=self.lib[n][0], rules=self.lib[n][1], staged=False); return 206, []
        if k in ("STAGE", "UNSTAGE", "REMOVE", "DOWNLOAD") and n not in self.sets: return 404, []
        s = self.sets.get(n)
        if k == "STAGE":
            if s["staged"]: return 405, []
            s["staged"] = True; return 201, []
        if k == "UNSTAGE":
            if not s["staged"]: return 406, []
            s["staged"] = False; return 202, []
        if k == "REMOVE":
            if s["staged"]: return 403, []
            del self.sets[n]; return 203, []
        if k == "DOWNLOAD": return 204, [s["text"]]
        if k == "LIST": return 200, ("list", sorted(x for x in self.sets if self.sets[x]["staged"]), sorted(x for x in self.sets if not self.sets[x]["staged"]))
        if k == "RUN": return 200, ("run", [r for x in self.sets.values() if x["staged"] for r in x["rules"]] + c["rules"], c["goal"])
        if k == "HELP": return 200, ("any",)
        return 407, []

def script(cmds, rng, end="quit"):
    s = ["connect %d" % PORT]
    for c in cmds:
        k = c["cmd"]
        if k in ("ADD", "RUN"):
            s.append("send " + esc("%s %s\n" % (k, c["name"])))
            s += ["send " + esc(x) for x in split(rng, c["text"])] + ["send GO\\n", "reply"]
        elif k == "BOGUS": s += ["send " + esc(c["text"]), "reply"]
        elif k in ("LIST", "HELP"): s += ["send %s\\n" % k, "reply"]
        else: s += ["send " + esc("%s %s\n" % (k, c["name"])), "reply"]
        if rng.random() < .1: s.append("sleep %d" % rng.choice([100, 20000, 300000]))
    if end == "quit": s += ["send QUIT\\n", "drain"]
    elif end == "close": s += ["close"]
    return "\n".join(s) + "\n"

def commands(rng, n, tag, lib, run=0.0, names=None):
    """seeded commands, biased towards ones that succeed"""
    names = names or rng.sample(NAMES, rng.choice([2, 3, 4])); names = list(names)
    out = []; m = Model(lib); ran = 0
    for j in range(n):
        for attempt in range(6):
            k = rng.choice(["ADD"] * 4 + ["STAGE"] * 5 + ["UNSTAGE"] * 4 + ["REMOVE"] * 4 + ["DOWNLOAD"] * 3 + ["LIST"] * 4 + (["LOAD"] * 3 if lib else ["LOAD"]) + ["BOGUS", "HELP"])
            if ran < 4 and rng.random() < run: k = "RUN"
            c = dict(cmd=k, name=rng.choice(names + (list(lib) if lib else [])))
            if k == "LOAD" and lib and rng.random() < .8: c["name"] = rng.choice(list(lib))
            if k == "ADD": c["text"], c["rules"] = axioms(rng, rng.choice([0, 1, 2, 3, 6, 30]), "%s_%d" % (tag, j))
            if k == "RUN":
                t, c["rules"] = axioms(rng, rng.choice([0, 0, 1, 2]), "%s_%d" % (tag, j)); c["name"] = "job%d" % j; ran += 1
                c["goal"] = rng.randrange(6)
                if rng.random() < .9: t += "\nfof(%s_%d_g,axiom,p%d(c))." % (tag, j, c["goal"]); c["rules"] = c["rules"] + [("%s_%d_g" % (tag, j), None, c["goal"])]      # found at once
                c["text"] = t + "\nfof(goal_%s_%d,conjecture,p%d(c)).\n" % (tag, j, c["goal"])
            if k == "BOGUS": c["text"] = rng.choice(["FOO\n", "add s1\n", "\n", "", "STAGEX s1\n", "12 34\n", ": s1\n", "QUITE\n"])
            t = copy.deepcopy(m)
            if t.do(c)[0] < 400 or rng.random() < .35: m = t; break
        else: m.do(c)
        out.append(c)
    out.append(dict(cmd="LIST"))
    for x in names[:2]: out.append(dict(cmd="DOWNLOAD", name=x))
    return out

def walk(out, cmds, lib, ended_ok, killed_run=False, enough_cpu=True):
    """compare a transcript with the model; None or (class, text). ended_ok: the session may end early"""
    ev = events(out); i = 0; m = Model(lib); proved = 0
    if not ev or ev[0][0] != "CONNECTED": return None if ended_ok else ("refused", "could not connect: %s" % ev[:1])
    i = 1
    for n, c in enumerate(cmds):
        g = []
        while i < len(ev) and ev[i][0] == "msg":
            g.append(ev[i][1]); i += 1
            if CODE.match(g[-1]): break
        if not g or not CODE.match(g[-1]):
            if ended_ok: return None
            return ("ended", "the session ended (%s) at command %d: %s %s" % (ev[i] if i < len(ev) else "no answer", n, c["cmd"], c.get("name", "")))
        code = int(g[-1][:3]); want, pay = m.do(c); what = "command %d: %s %s" % (n, c["cmd"], c.get("name", ""))
        if code == 499 and c["cmd"] == "RUN" and killed_run and g == g[-1:]: continue      # no process for the job: refused
        if code != want: return ("answer", "%s was answered %d, expected %d" % (what, code, want))
        g = g[:-1]
        if pay and pay[0] == "list":
            st, un, cur = [], [], None
            for x in g:
                if x == "Staged :\n": cur = st
                elif x == "Unstaged :\n": cur = un
                elif x == "On Disk :\n": cur = None
                elif x.startswith("  ") and cur is not None: cur.append(x.strip())
            if sorted(st) != pay[1] or sorted(un) != pay[2]: return ("listing", "%s: staged %s, unstaged %s; expected staged %s, unstaged %s" % (what, sorted(st), sorted(un), pay[1], pay[2]))
        elif pay and pay[0] == "run":
            t = "".join(g); truth = pay[2] in closure(pay[1]); st = [s for s in statuses(t) if s in PROOF or s in MODEL]
            if any(s in PROOF for s in st):
                if not truth: return ("wrong-verdict", "%s: answered %s, but p%d(c) does not follow" % (what, st, pay[2]))
                ok = {r[0] for r in pay[1]} | {"goal_%s" % x for x in ()}
                for nm in re.findall(r"file\('[^']*', ?([A-Za-z0-9_']+)\)", t):
                    nm = nm.strip("'")
                    if nm not in ok and not nm.startswith("goal_"): return ("foreign-axiom", "%s: the proof uses axiom %s, which is not part of the job" % (what, nm))
            elif st and truth: return ("wrong-verdict", "%s: answered %s" % (what, st))
            elif truth and not killed_run and enough_cpu: return ("not-proved", "%s: p%d(c) follows, but the answer was %s" % (what, pay[2], t[-300:]))
            if not killed_run and (not g or g[-1] != "\n%% Processing finished for %s\n\n" % c["name"] or g[0] != "\n%% Processing started for %s\n" % c["name"]): return ("unfinished", "%s: the answer is not marked as finished: %s" % (what, short(g)))
        elif pay and pay[0] == "any": pass
        elif g != list(pay): return ("content", "%s: received %s, expected %s" % (what, short(g), short(list(pay))))
    rest = [e for e in ev[i:] if e[0] == "msg"]
    if rest: return ("extra", "messages after the last answer: %s" % short([x[1] for x in rest]))
    return None

LIBNAMES = ["lib1", "lib2.ax", "lib-3"]
def library(rng, tag="lib"):
    if rng.random() < .35: return None
    return {n: axioms(rng, rng.choice([0, 1, 3, 8]), "l_%s" % re.sub(r"\W", "_", n)) for n in rng.sample(LIBNAMES, rng.choice([1, 2, 3]))}
def server_root(lib, prover="eprover"):
    a = ["e_deduction_server", "-p", str(PORT)]
    if lib is not None: a += ["-L", "lib"]
    return R(*a, prover)
def libfiles(lib): return {"lib/" + n: t for n, (t, _) in lib.items()} if lib is not None else {}

class Sessions(Base):
    def mk(self, rng, lib, sess, faults=None, prover="eprover", **kw):
        files = libfiles(lib); roots = [server_root(lib, prover)]
        for j, (cmds, end) in enumerate(sess):
            files["c%d.s" % j] = script(cmds, rng, end); roots.append(R("client", "c%d.s" % j, start=rng.choice([1000, 10000, 20000, 200000])))
        k = net(rng); k.update(kw)
        return plan(roots, seed=rng.getrandbits(40), files=files, faults=faults or [], stop_when_roots=sum(2 << j for j in range(len(sess))), settle_us=2000000, **k)
    def shrink(self, case):
        for j, (cmds, end) in enumerate(case.get("sess", [])):
            for n in range(len(cmds)):
                c = copy.deepcopy(case); del c["sess"][j][0][n]; self.rescript(c); yield c
        yield from super().shrink(case)
    def rescript(self, c):
        for p in c["plans"]:
            for j, (cmds, end) in enumerate(c["sess"]): p["files"]["c%d.s" % j] = script(cmds, random.Random(1), end)

class P13(Sessions):
    id = "P13"; quick_cases = 2000; thorough_cases = 25000
    rule = "One evaluation = one to three concurrent sessions of up to 25 seeded commands each, with the byte stream cut into seeded pieces; in a third of the runs file, memory or process faults strike as well. Every answer, listing and download is compared with a small model of the axiom sets."
    probes = ("session complete", "session cut short by a fault", "refused command", "several sessions", "remove refused", "download")
    def gen(self, rng, i):
        lib = library(rng); sess = []
        for j in range(rng.choice([1, 1, 2, 3])):
            sess.append([commands(rng, rng.choice([3, 6, 10, 16, 25]), "t%d" % j, lib, rng.choice([0, 0, .05, .15])), rng.choice(["quit", "quit", "close"])])
        faults = []; hurt = False
        if rng.random() < .35:
            hurt = True
            for _ in range(rng.choice([1, 1, 2])):
                k = rng.choice(["wfile", "openw", "mkstemp", "malloc", "read", "unlink"])
                if k == "malloc": faults.append([1001 + len(sess) + rng.randrange(len(sess) + 1), "malloc", rng.randint(1, 3000), rng.choice([0, 1]), "err", errno.ENOMEM])
                elif k == "mkstemp": faults.append([0, k, rng.randint(1, 8), rng.choice([0, 1]), "err", rng.choice([errno.ENOSPC, errno.EACCES, errno.EMFILE])])
                elif k == "unlink": faults.append([0, k, rng.randint(1, 4), 1, "err", errno.EIO])
                else: faults.append([0, k, rng.randint(1, 8), rng.choice([0, 1]), "err", rng.choice([errno.EIO, errno.ENOSPC]), rng.choice(["epr_", "lib/" if k == "read" else "epr_"])])
        p = self.mk(rng, lib, sess, faults, ticks_per_us=20.0)
        return dict(plans=[p], lib=lib, sess=sess, hurt=hurt)
    def judge(self, case, results):
        r = results[0]
        if r.outcome in ("deadlock", "vtimelimit", "tickbudget"): return [("hang", "the sessions do not end: %s" % [(q["vpid"], q["name"], q["state"]) for q in r.procs])]
        fired = any(r.d["faultfired"])
        for q in r.procs:
            if q["crash"]: return [("crash", "%s (process %d) died of signal %d" % (q["name"], q["vpid"], q["crash"]))]
        for j, (cmds, end) in enumerate(case["sess"]):
            v = walk(r.out(j + 1), cmds, case["lib"], fired, fired, False)
            if v: return [(v[0], "session %d: %s" % (j, v[1]))]
        return []
    def probe(self, case, results):
        o = [msgs(results[0].out(j + 1)) for j in range(len(case["sess"]))]
        if len(o) > 1: yield "several sessions"
        if any(results[0].d["faultfired"]) : yield "session cut short by a fault"
        else: yield "session complete"
        if any(re.match("40[13456]", x) for l in o for x in l): yield "refused command"
        if any(x.startswith("403") for l in o for x in l): yield "remove refused"
        if any(x.startswith("204") for l in o for x in l): yield "download"

class P14(Sessions):
    id = "P14"; quick_cases = 520; thorough_cases = 12000; quick_wall = 100
    rule = "One evaluation = one to three concurrent sessions that add, stage, unstage and remove sets of Horn axioms with known consequences and run jobs with the real prover; one run without and two with prover processes killed or stalled, or with failing file operations while sets are uploaded. In four fifths of the cases scripted provers hand back the problem they were given, which is compared with the session's axioms."
    probes = ("problem compared", "proved", "not proved", "job with dead provers", "proved in spite of dead provers", "answer lost")
    def gen(self, rng, i):
        lib = library(rng); sess = []
        for j in range(rng.choice([1, 1, 1, 2, 2, 3])):
            sess.append([self.jobs(rng, "t%d" % j, lib), "quit"])
        st = rng.random() < .8
        if st:
            p = self.mk(rng, lib, sess, tick_budget=200000000, stub="prover"); p["capture"] = 1
            fail = rng.choice([0, 0, 1, 3, 8, 20, 100])
            p["files"]["stub.s"] = "pid;cat;put % SZS status GaveUp\\n;exit 9\n" * fail + "pid;cat;put % SZS status Theorem\\n;exit 0\n"
        else: p = self.mk(rng, lib, sess, ticks_per_us=20.0, tick_budget=600000000)
        b = run(p); plans = [p]; kinds = ["none"]
        for _ in range(1 if st else 2):
            q = copy.deepcopy(p)
            pr = [x for x in b.procs if x["name"] in ("eprover", "prover") and x["ticks"] > 10]
            if pr and rng.random() < .8:
                for _ in range(rng.choice([1, 2, 4, 8])):
                    x = rng.choice(pr); at = rng.randint(1, x["ticks"])
                    q["faults"].append([x["vpid"], "tick", at, 1, "sig", rng.choice([9, 15, 11, 24])] if rng.random() < .7 else [x["vpid"], "tick", at, 1, "stall", rng.choice([100000, 3000000, 40000000])])
                kinds.append("prover")
            else:
                q["faults"].append([0, rng.choice(["wfile", "openw", "mkstemp"]), rng.randint(1, 6), 1, "err", errno.ENOSPC, "epr_"] if rng.random() < .8 else [0, rng.choice(["popen", "fork"]), rng.randint(2, 8), 1, "err", errno.EAGAIN])
                kinds.append("file")
            plans.append(q)
        return dict(plans=plans, kinds=kinds, lib=lib, sess=sess, stub=st)
    def problems(self, case, r):
        """every problem handed to a scripted prover against the session it belongs to"""
        want = {}
        for j, (cmds, end) in enumerate(case["sess"]):
            m = Model(case["lib"])
            for c in cmds:
                x = m.do(c)
                if c["cmd"] == "RUN": want[re.search(r"goal_\w+", c["text"])[0]] = (c["name"], x[1][1], x[1][2])
        for q in r.procs:
            t = r.pout.get(q["vpid"], "")
            if "\n| " not in t: continue
            names = re.findall(r"^\| (?:fof|cnf)\((\w+)", t, re.M)
            g = [x for x in names if x.startswith("goal_")]
            if "SZS status" not in t: continue                 # cut off
            if len(g) != 1 or g[0] not in want: return ("foreign-axiom", "a prover was given the conjectures %s" % g)
            allowed = {x[0] for x in want[g[0]][1]} | {g[0]}
            for x in names:
                if x not in allowed: return ("foreign-axiom", "a prover working for job %s was given axiom %s, which is not part of the job" % (want[g[0]][0], x))
            if len(set(names)) != len(names): return ("foreign-axiom", "a prover working for job %s was given an axiom twice: %s" % (want[g[0]][0], names))
        return None
    def jobs(self, rng, tag, lib):
        names = rng.sample(NAMES, 3); out = []
        for j, n in enumerate(names):
            t, r = axioms(rng, rng.choice([1, 2, 4, 8]), "%s_s%d" % (tag, j)); out.append(dict(cmd="ADD", name=n, text=t, rules=r))
        if lib: n = rng.choice(list(lib)); out.append(dict(cmd="LOAD", name=n)); names.append(n)
        for j in range(rng.choice([1, 2, 3])):
            for n in names:
                if rng.random() < .5: out.append(dict(cmd=rng.choice(["STAGE", "STAGE", "STAGE", "UNSTAGE", "REMOVE"]), name=n))
            t, r = axioms(rng, rng.choice([0, 0, 1, 3]), "%s_j%d" % (tag, j)); g = rng.randrange(6)
            out.append(dict(cmd="RUN", name="job%d" % j, rules=r, goal=g, text=t + "\nfof(goal_%s_%d,conjecture,p%d(c)).\n" % (tag, j, g)))
        out.append(dict(cmd="LIST"))
        return out
    def judge(self, case, results):
        for r, k in zip(results, case["kinds"]):
            # after the first fault the schedule may differ from the one the targets were taken from: a signal that struck the server itself is not judged
            nm = {q["vpid"]: q["name"] for q in r.procs}
            if any(n and f[4] == "sig" and nm.get(f[0]) not in ("eprover", "prover") for f, n in zip(case["plans"][results.index(r)]["faults"], r.d["faultfired"])): continue
            if r.outcome in ("deadlock", "vtimelimit"): return [("hang", "the sessions do not end (%s)" % r.outcome)]
            if r.outcome == "tickbudget": continue
            fired = any(r.d["faultfired"])
            for q in r.procs:
                if q["crash"] and not q["sigs"] & (1 << 11) and not (q["name"] == "eprover" and fired): return [("crash", "%s (process %d) died of signal %d" % (q["name"], q["vpid"], q["crash"]))]
            if case.get("stub"):
                v = self.problems(case, r)
                if v: return [(v[0], "%s (%s faults)" % (v[1], k))]
                continue
            for j, (cmds, end) in enumerate(case["sess"]):
                # a trivial job is proved unless the simulated machine had no time for it
                v = walk(r.out(j + 1), cmds, case["lib"], fired and k == "file", fired, r.d["now"] < 8000000)
                if v: return [(v[0], "session %d (%s faults): %s" % (j, k, v[1]))]
        return []
    def probe(self, case, results):
        for r, k in zip(results, case["kinds"]):
            if case.get("stub"):
                if any("\n| " in x for x in r.pout.values()): yield "problem compared"
                continue
            o = "".join(r.out(j + 1) for j in range(len(case["sess"])))
            pv = "SZS status Theorem" in o
            yield "proved" if pv else "not proved"
            if k == "prover" and any(r.d["faultfired"]):
                yield "job with dead provers"
                if pv: yield "proved in spite of dead provers"

class P15(Sessions):
    id = "P15"; quick_cases = 2500; thorough_cases = 25000
    rule = "One evaluation = two to eight clients on one server: orderly ones whose every answer is compared with the model, and bad ones that disconnect at seeded bytes, send malformed lengths, binary or oversized input, stall, or whose session process is killed; a last orderly client connects after the others."
    probes = ("bad length field", "disconnect", "malformed set", "session killed", "fork failure", "job abandoned", "late client served")
    def bad(self, rng, files, n):
        """script of an ill-behaved client"""
        s = ["connect %d" % PORT]; k = rng.choice(["nothing", "len", "len", "binary", "cut", "cut", "malformed", "stall", "flood", "job", "longname", "noread", "huge"])
        if k == "len": L = rng.choice([0, 1, 2, 3, 0xffffffff, 0x80000000, 0x7fffffff, 0x80000004]); s += ["hdr %d" % L, "raw " + esc("A" * rng.choice([0, 3, 40, 2000, 6000])), rng.choice(["drain", "sleep 50000", "close"] if L != 0x7fffffff else ["sleep 50000", "close"])]
        elif k == "binary": s += ["send " + esc("".join(chr(rng.randrange(1, 256)) for _ in range(rng.choice([1, 10, 300])))), "reply" if rng.random() < .5 else "sleep 100", "close"]
        elif k == "cut":
            c = commands(rng, 4, "b%d" % n, None); t = script(c, rng, "close").split("\n")[1:]
            s += t[:rng.randint(0, len(t))] + ["raw " + esc("\0\0\0\x30STAG"[:rng.randint(0, 8)]), "close"]
        elif k == "malformed": s += ["send ADD z\\n", "send " + esc(rng.choice(["fof(a,axiom", "fof(a,axiom,p))).\n", "garbage", "include('nofile').\n", "cnf(a,axiom,(p(X)|)).\n", "fof(a,axiom,p(X) = ).", "'"])), "send GO\\n", "reply", "send LIST\\n", "reply", "close"]
        elif k == "stall": s += ["send LIS", "sleep %d" % rng.choice([10000, 2000000]), "close"]
        elif k == "flood": s += ["send LIST\\n"] * rng.choice([5, 50]) + ["close"]
        elif k == "noread": s += ["send HELP\\n"] * rng.choice([3, 30]) + ["sleep 3000000", "close"]
        elif k == "job": s += ["send RUN j\\n", "send " + esc("fof(c,conjecture,%s).\n" % rng.choice(["$true", "p(c)"])), "send GO\\n", rng.choice(["close", "sleep 30000", "sleep 300000", "recv 1"]), "close"]
        elif k == "longname":
            L = rng.choice([200, 252, 256, 300, 600, 3000]); s += ["send ADD %s\\n" % ("n" * L), "send fof(a,axiom,p).\\n", "send GO\\n", "reply", "send LIST\\n", "reply", "send RUN %s\\n" % ("j" * L), "send fof(c,conjecture,$true).\\n", "send GO\\n", "reply", "close"]
        elif k == "huge": s += ["hdr 2000000000", "raw " + esc("B" * 5000), "sleep 20000", "close"]
        return k, "\n".join(s) + "\n"
    def gen(self, rng, i):
        lib = library(rng); files = libfiles(lib); roots = [server_root(lib, "eprover")]; good = []; kinds = []
        n = rng.choice([2, 3, 4, 6, 8]); late = rng.choice([300000, 1000000, 5000000])
        for j in range(n):
            last = j == n - 1
            st = late if last else rng.choice([1000, 1000, 5000, 20000, 50000, 200000])
            if last or rng.random() < .3:
                c = commands(rng, rng.choice([2, 5, 10]), "t%d" % j, lib, .03); e = rng.choice(["quit", "close"])
                files["c%d.s" % j] = script(c, rng, e); good.append([j, c]); kinds.append("good")
            else:
                k, t = self.bad(rng, files, j); files["c%d.s" % j] = t; kinds.append(k)
            roots.append(R("client", "c%d.s" % j, start=st))
        faults = []
        for j, k in enumerate(kinds[:-1]):
            if k != "good" and rng.random() < .3: faults.append([1001 + j, "wsock", rng.randint(1, 8), 1, "sig", 9])    # the client itself dies
        if rng.random() < .3: faults.append([1000, "accept", rng.randint(1, 3), 1, "err", rng.choice([errno.ECONNABORTED, errno.EINTR])])
        fk = None
        if rng.random() < .25: faults.append([1000, "fork", rng.randint(1, n - 1), 1, "err", rng.choice([errno.EAGAIN, errno.ENOMEM])]); fk = "fork"
        elif rng.random() < .35: faults.append([1000 + n + rng.randint(1, n - 1), "tick", rng.randint(1, 60000), 1, "sig", rng.choice([9, 11, 15])]); fk = "kill"
        k = net(rng); k["tick_budget"] = 400000000
        p = plan(roots, seed=rng.getrandbits(40), files=files, faults=faults, stop_when_roots=sum(2 << j for j in range(n)), settle_us=45000000, **k)
        return dict(plans=[p], lib=lib, good=good, kinds=kinds, fk=fk, n=n)
    def shrink(self, case):
        yield from Base.shrink(self, case)
    def judge(self, case, results):
        r = results[0]; n = case["n"]; srv = r.root(0)
        if srv["state"] in ("zombie", "gone"): return [("server-died", "the server ended with %s (clients: %s); stderr %s" % (r.status(0), case["kinds"], r.err(0)[-300:]))]
        if r.outcome in ("deadlock", "vtimelimit"): return [("hang", "clients do not come to an end (%s): %s" % (r.outcome, [(q["vpid"], q["name"], q["wait"]) for q in r.procs if q["state"] == "blocked"]))]
        if r.outcome == "tickbudget":
            spin = [q["vpid"] for q in r.procs if q["name"] == "e_deduction_server" and q["ticks"] > 60000000]
            return [("hang", "processes %s run without end (clients: %s)" % (spin, case["kinds"]))] if spin else []
        # which processes did a fault strike?
        for q in r.procs:
            if q["crash"] and not q["sigs"] & (1 << 11): return [("crash", "%s (process %d) died of signal %d (clients: %s)" % (q["name"], q["vpid"], q["crash"], case["kinds"]))]
        struck = sum(x for f, x in zip(case["plans"][0]["faults"], r.d["faultfired"]) if f[1] in ("fork", "tick"))
        for j, c in case["good"]:
            v = walk(r.out(j + 1), c, case["lib"], False, True)
            if v and v[0] == "ended" and struck: struck -= 1; continue        # the one session the fault struck
            if v: return [(v[0], "client %d of %s: %s" % (j, case["kinds"], v[1]))]
        alive = [q for q in r.procs if q["root"] == 0 and q["state"] in ("ready", "blocked")]
        if alive: return [("left-running", "processes %s were still there long after the last client had left (clients: %s)" % ([(q["vpid"], q["name"], q["wait"]) for q in alive], case["kinds"]))]
        lastborn = max([q["born"] for q in r.procs if q["ppid"] == 1000] or [0])
        unreaped = [q["vpid"] for q in r.procs if q["ppid"] == 1000 and q["state"] == "zombie" and not q["reaped"] and q["died"] < lastborn - 1000000]
        if unreaped: return [("uncollected", "sessions %s ended, but were not collected when the server served its next client" % unreaped)]
        return []
    def probe(self, case, results):
        r = results[0]; k = case["kinds"]
        if "len" in k: yield "bad length field"
        if "cut" in k: yield "disconnect"
        if "malformed" in k: yield "malformed set"
        if "job" in k: yield "job abandoned"
        for f, x in zip(case["plans"][0]["faults"], r.d["faultfired"]):
            if x and f[1] == "fork": yield "fork failure"
            if x and f[1] == "tick": yield "session killed"
        yield "late client served"
