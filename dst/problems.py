"""Problems with independently known truth.  Each is a dict(text, truth, conj, includes):
truth 'U' = refutable (Theorem / Unsatisfiable / ContradictoryAxioms), 'S' = not refutable."""
import itertools

# ---------------------------------------------------------------- tiny SAT solver (DPLL)
def dpll(clauses):
    clauses = [frozenset(c) for c in clauses]
    def solve(cl):
        while True:
            unit = next((c for c in cl if len(c) <= 1), None)
            if unit is None: break
            if not unit: return False
            (l,) = unit
            new = []
            for c in cl:
                if l in c: continue
                if -l in c:
                    c = c - {-l}
                    if not c: return False
                new.append(c)
            cl = new
        if not cl: return True
        l = next(iter(cl[0]))
        for x in (l, -l):
            if solve(cl + [frozenset([x])]): return True
        return False
    return solve(clauses)

# ---------------------------------------------------------------- random families
def rnd_prop(rng, fof=None):
    """random propositional clauses, optionally last part as negated conjecture / FOF conjecture"""
    n = rng.randint(3, 7)
    m = rng.randint(int(n * 2.0), int(n * 4.6))
    cl = []
    for _ in range(m):
        k = rng.choice([2, 3, 3, 3])
        vs = rng.sample(range(1, n + 1), min(k, n))
        cl.append([v if rng.random() < .5 else -v for v in vs])
    sat = dpll(cl)
    lit = lambda l: ("~" if l < 0 else "") + "p%d" % abs(l)
    style = fof if fof is not None else rng.choice(["cnf", "cnfneg", "fof", "fofconj"])
    L = []
    if style == "fofconj":
        k = rng.randint(1, max(1, len(cl) // 2))
        for i, c in enumerate(cl[k:]): L.append("fof(a%d,axiom,(%s))." % (i, " | ".join(map(lit, c))))
        L.append("fof(goal,conjecture,~(%s))." % " & ".join("(" + " | ".join(map(lit, c)) + ")" for c in cl[:k]))
        return dict(text="\n".join(L) + "\n", truth="S" if sat else "U", conj=True, name="prop-" + style)
    for i, c in enumerate(cl):
        role = "negated_conjecture" if style == "cnfneg" and i == 0 else "axiom"
        L.append("%s(c%d,%s,(%s))." % ("fof" if style == "fof" else "cnf", i, role, " | ".join(map(lit, c))))
    return dict(text="\n".join(L) + "\n", truth="S" if sat else "U", conj=False, name="prop-" + style)

def rnd_epr(rng):
    """random function-free clauses over 2-3 constants, <=2 variables per clause; truth by grounding"""
    consts = ["a", "b", "c"][:rng.randint(2, 3)]
    preds = [("p", 1), ("q", 1), ("r", 2), ("s", 2)][:rng.randint(2, 4)]
    cl = []
    for _ in range(rng.randint(5, 13)):
        k = rng.choice([1, 2, 2, 3])
        c = []
        for _ in range(k):
            p, ar = rng.choice(preds)
            args = [rng.choice(["X", "Y"]) if rng.random() < .6 else rng.choice(consts) for _ in range(ar)]
            c.append((rng.random() < .5, p, tuple(args)))
        cl.append(c)
    atoms = {}
    def at(p, a): return atoms.setdefault((p, a), len(atoms) + 1)
    g = []
    for c in cl:
        for x, y in itertools.product(consts, repeat=2):
            s = {"X": x, "Y": y}
            g.append([(1 if sg else -1) * at(p, tuple(s.get(t, t) for t in a)) for sg, p, a in c])
    g = [c for c in map(set, g) if not any(-l in c for l in c)]
    sat = dpll(g)
    L = ["cnf(dom,axiom,(%s))." % " | ".join("dom(%s)" % c for c in consts)]
    conj = rng.random() < .5
    for i, c in enumerate(cl):
        role = "negated_conjecture" if conj and i >= len(cl) - 2 else "axiom"
        L.append("cnf(c%d,%s,(%s))." % (i, role, " | ".join(("" if sg else "~") + "%s(%s)" % (p, ",".join(a)) for sg, p, a in c)))
    return dict(text="\n".join(L) + "\n", truth="S" if sat else "U", conj=False, name="epr")

def rnd_ground_eq(rng):
    """ground equations, one ground goal (equation): congruence closure decides"""
    consts = ["a", "b", "c", "d"][:rng.randint(2, 4)]
    funs = [("f", 1), ("g", 1), ("h", 2)][:rng.randint(1, 3)]
    def term(d):
        if d == 0 or rng.random() < .35: return rng.choice(consts)
        f, n = rng.choice(funs)
        return (f,) + tuple(term(d - 1) for _ in range(n))
    eqs = [(term(2), term(2)) for _ in range(rng.randint(2, 6))]
    goal = (term(2), term(2))
    if rng.random() < .5 and eqs:   # make a provable-looking goal by rewriting a side
        l, r = rng.choice(eqs)
        f, n = rng.choice(funs)
        ctx = [rng.choice(consts) for _ in range(n)]
        k = rng.randrange(n)
        mk = lambda t: (f,) + tuple(t if i == k else x for i, x in enumerate(ctx))
        goal = (mk(l), mk(r))
    # congruence closure over all subterms
    subs = set()
    def coll(t):
        subs.add(t)
        if not isinstance(t, str):
            for x in t[1:]: coll(x)
    for l, r in eqs + [goal]: coll(l); coll(r)
    par = {t: t for t in subs}
    def find(t):
        while par[t] != t: t = par[t]
        return t
    for l, r in eqs: par[find(l)] = find(r)
    ch = True
    while ch:
        ch = False
        ts = [t for t in subs if not isinstance(t, str)]
        for i, s in enumerate(ts):
            for t in ts[i + 1:]:
                if s[0] == t[0] and len(s) == len(t) and find(s) != find(t) and all(find(x) == find(y) for x, y in zip(s[1:], t[1:])):
                    par[find(s)] = find(t); ch = True
    prov = find(goal[0]) == find(goal[1])
    def pr(t): return t if isinstance(t, str) else "%s(%s)" % (t[0], ",".join(map(pr, t[1:])))
    kind = rng.choice(["cnf", "fof"])
    L = ["%s(e%d,axiom,(%s = %s))." % (kind, i, pr(l), pr(r)) for i, (l, r) in enumerate(eqs)]
    if kind == "fof": L.append("fof(goal,conjecture,(%s = %s))." % (pr(goal[0]), pr(goal[1])))
    else: L.append("cnf(goal,negated_conjecture,(%s != %s))." % (pr(goal[0]), pr(goal[1])))
    return dict(text="\n".join(L) + "\n", truth="U" if prov else "S", conj=kind == "fof", name="geq-" + kind)

GROUP = """fof(assoc,axiom,![X,Y,Z]: mult(mult(X,Y),Z) = mult(X,mult(Y,Z))).
fof(lid,axiom,![X]: mult(e,X) = X).
fof(linv,axiom,![X]: mult(inv(X),X) = e).
"""
LAT = """fof(mc,axiom,![X,Y]: meet(X,Y) = meet(Y,X)).
fof(jc,axiom,![X,Y]: join(X,Y) = join(Y,X)).
fof(ab1,axiom,![X,Y]: meet(X,join(X,Y)) = X).
fof(ab2,axiom,![X,Y]: join(X,meet(X,Y)) = X).
"""
def _f(name, truth, conj, text, **k): return dict(name=name, truth=truth, conj=conj, text=text, **k)
FIXED = [
 _f("grp-rid", "U", True, GROUP + "fof(goal,conjecture,![X]: mult(X,e) = X).\n"),
 _f("grp-rinv", "U", True, GROUP + "fof(goal,conjecture,![X]: mult(X,inv(X)) = e).\n"),
 _f("grp-invinv", "U", True, GROUP + "fof(goal,conjecture,![X]: inv(inv(X)) = X).\n"),
 _f("grp-invprod", "U", True, GROUP + "fof(goal,conjecture,![X,Y]: inv(mult(X,Y)) = mult(inv(Y),inv(X))).\n"),
 _f("grp-comm", "S", True, GROUP + "fof(goal,conjecture,![X,Y]: mult(X,Y) = mult(Y,X)).\n"),
 _f("grp-idem", "S", True, GROUP + "fof(goal,conjecture,![X]: mult(X,X) = X).\n"),
 _f("grp-sq", "U", True, GROUP + "fof(sq,axiom,![X]: mult(X,X) = e).\nfof(goal,conjecture,mult(a,b) = mult(b,a)).\n"),
 _f("grp-sat", "S", False, GROUP),
 _f("grp-def", "U", True, GROUP + "fof(sq,axiom,![X]: mult(X,X) = e).\nfof(d,axiom,![X,Y]: comm(X,Y) = mult(mult(X,Y),mult(inv(X),inv(Y)))).\nfof(d2,axiom,![X,Y]: (central(X) <=> comm(X,b) = e)).\nfof(goal,conjecture,central(a)).\n"),
 _f("grp-split", "U", False, GROUP + "fof(n,axiom,(inv(inv(c)) != c | mult(d,inv(d)) != e | mult(c,e) != c)).\n"),
 _f("grp-split2", "U", False, GROUP + "fof(k,axiom,(p(c) | q(d) | r(c,d))).\nfof(kp,axiom,(~p(c) | mult(c,inv(c)) != e)).\nfof(kq,axiom,![X]: (~q(X) | inv(inv(X)) != X)).\nfof(kr,axiom,![X,Y]: (~r(X,Y) | mult(Y,e) != Y)).\n"),
 _f("grp-unsat", "U", False, GROUP + "fof(n,axiom,mult(a,inv(a)) != e).\n"),
 _f("lat-idem", "U", True, LAT + "fof(goal,conjecture,![X]: meet(X,X) = X).\n"),
 _f("socrates", "U", True, "fof(h,axiom,![X]: (human(X) => mortal(X))).\nfof(s,axiom,human(socrates)).\nfof(g,conjecture,mortal(socrates)).\n"),
 _f("socrates-cs", "S", True, "fof(h,axiom,![X]: (human(X) => mortal(X))).\nfof(s,axiom,human(plato)).\nfof(g,conjecture,mortal(socrates)).\n"),
 _f("contrax", "U", True, "fof(a,axiom,p).\nfof(b,axiom,(p=>q)).\nfof(c,axiom,~q).\nfof(g,conjecture,r(c)).\n"),
 _f("barber", "U", False, "fof(b,axiom,?[X]: ![Y]: (shaves(X,Y) <=> ~shaves(Y,Y))).\n"),
 _f("pel24", "U", True, """fof(a1,axiom,~(?[X]: (s(X) & q(X)))).
fof(a2,axiom,![X]: (p(X) => (q(X) | r(X)))).
fof(a3,axiom,(~(?[X]: p(X)) => ?[Y]: q(Y))).
fof(a4,axiom,![X]: ((q(X)|r(X)) => s(X))).
fof(g,conjecture,?[X]: (p(X) & r(X))).
"""),
 _f("pel18", "U", True, "fof(g,conjecture,?[Y]:![X]: (f(Y) => f(X))).\n"),
 _f("pel26", "U", True, """fof(a1,axiom,((?[X]: p(X)) <=> (?[Y]: q(Y)))).
fof(a2,axiom,![X,Y]: ((p(X) & q(Y)) => (r(X) <=> s(Y)))).
fof(g,conjecture,((![X]: (p(X) => r(X))) <=> (![Y]: (q(Y) => s(Y))))).
"""),
 _f("eq-trans-cnf", "U", False, """cnf(a,axiom,(f(X)=g(X)|p(X))).
cnf(b,axiom,(~p(X)|X=a)).
cnf(c,axiom,(f(a)=g(a))).
cnf(d,negated_conjecture,(f(b)!=g(b))).
"""),
 _f("nat-even-sat", "S", False, """cnf(a,axiom,(even(z))).
cnf(b,axiom,(~even(X)|odd(s(X)))).
cnf(c,axiom,(~odd(X)|even(s(X)))).
cnf(d,axiom,(~odd(X)|~even(X))).
cnf(e,axiom,(s(X)!=z)).
"""),
 _f("even-unsat", "U", False, """cnf(a,axiom,(even(z))).
cnf(b,axiom,(~even(X)|odd(s(X)))).
cnf(c,axiom,(~odd(X)|even(s(X)))).
cnf(d,negated_conjecture,(~even(s(s(s(s(s(s(z)))))))) ).
"""),
 _f("typed", "U", True, """tff(t1,type,animal: $tType).
tff(t2,type,cat: animal).
tff(t3,type,likes: (animal*animal) > $o).
tff(a1,axiom,![X:animal]: likes(X,cat)).
tff(g,conjecture,?[X:animal]: likes(cat,X)).
"""),
 _f("typed-cs", "S", True, """tff(t1,type,animal: $tType).
tff(t2,type,cat: animal).
tff(t4,type,dog: animal).
tff(t3,type,likes: (animal*animal) > $o).
tff(a1,axiom,![X:animal]: likes(X,cat)).
tff(g,conjecture,likes(cat,dog)).
"""),
 _f("pigeon3", "U", False, None), _f("pigeon-sat", "S", False, None),
 _f("split-choice", "U", True, """fof(a1,axiom,![X]: (p(X) | q(X) | r(X))).
fof(a2,axiom,![X]: (p(X) => t(f(X)))).
fof(a3,axiom,![X]: (q(X) => t(f(X)))).
fof(a4,axiom,![X]: (r(X) => t(f(X)))).
fof(a5,axiom,![X]: (t(X) => u(X,f(X)))).
fof(g,conjecture,![X]: ?[Y]: u(f(X),Y)).
"""),
 _f("rw-sat", "S", False, """cnf(a1,axiom,(plus(z,X)=X)).
cnf(a2,axiom,(plus(s(X),Y)=s(plus(X,Y)))).
cnf(g,negated_conjecture,(plus(s(s(z)),s(z))!=s(s(z)))).
"""),
 _f("rw-unsat", "U", False, """cnf(a1,axiom,(plus(z,X)=X)).
cnf(a2,axiom,(plus(s(X),Y)=s(plus(X,Y)))).
cnf(a3,axiom,(times(z,X)=z)).
cnf(a4,axiom,(times(s(X),Y)=plus(Y,times(X,Y)))).
cnf(g,negated_conjecture,(times(s(s(z)),s(s(z)))!=s(s(s(s(z)))))).
"""),
 _f("trans-chain", "U", False, "".join("cnf(e%d,axiom,(le(c%d,c%d))).\n" % (i, i, i + 1) for i in range(9)) +
    "cnf(tr,axiom,(~le(X,Y)|~le(Y,Z)|le(X,Z))).\ncnf(g,negated_conjecture,(~le(c0,c9))).\n"),
 _f("trans-chain-cs", "S", False, "".join("cnf(e%d,axiom,(le(c%d,c%d))).\n" % (i, i, i + 1) for i in range(7) if i != 3) +
    "cnf(tr,axiom,(~le(X,Y)|~le(Y,Z)|le(X,Z))).\ncnf(g,negated_conjecture,(~le(c0,c7))).\n"),
 _f("set-incl", "U", True, """fof(sub,axiom,![A,B]: (subset(A,B) <=> ![X]: (member(X,A) => member(X,B)))).
fof(un,axiom,![X,A,B]: (member(X,union(A,B)) <=> (member(X,A) | member(X,B)))).
fof(int,axiom,![X,A,B]: (member(X,inter(A,B)) <=> (member(X,A) & member(X,B)))).
fof(g,conjecture,![A,B]: subset(inter(A,B),union(A,B))).
"""),
 _f("set-trans", "U", True, """fof(sub,axiom,![A,B]: (subset(A,B) <=> ![X]: (member(X,A) => member(X,B)))).
fof(g,conjecture,![A,B,C]: ((subset(A,B) & subset(B,C)) => subset(A,C))).
"""),
 _f("distinct", "U", True, """fof(a,axiom,![X]: (X = "red" | X = "green")).
fof(b,axiom,paint(c) != "red").
fof(g,conjecture,paint(c) = "green").
"""),
]
def _pigeon(n, m):
    L = ["cnf(p%d,axiom,(%s))." % (i, "|".join("in(p%d,h%d)" % (i, j) for j in range(m))) for i in range(n)]
    for j in range(m):
        for i in range(n):
            for k in range(i): L.append("cnf(x%d_%d_%d,axiom,(~in(p%d,h%d)|~in(p%d,h%d)))." % (i, k, j, i, j, k, j))
    return "\n".join(L) + "\n"
for _p in FIXED:
    if _p["name"] == "pigeon3": _p["text"] = _pigeon(4, 3)
    if _p["name"] == "pigeon-sat": _p["text"] = _pigeon(3, 3)
# not decided by any strategy in reasonable time
ENDLESS = [
 _f("endless-cl", "S", True, """fof(s,axiom,![X,Y,Z]: ap(ap(ap(s,X),Y),Z) = ap(ap(X,Z),ap(Y,Z))).
fof(b,axiom,![X,Y]: ap(ap(k,X),Y) = X).
fof(g,conjecture,?[X]: ![Y]: (ap(X,Y) = s & ap(Y,X) = k)).
"""),
 _f("endless-lo", "S", True, """fof(t,axiom,![X,Y,Z]: ((r(X,Y) & r(Y,Z)) => r(X,Z))).
fof(i,axiom,![X]: ?[Y]: r(X,Y)).
fof(d,axiom,![X,Y]: (r(X,Y) => ?[Z]: (r(X,Z) & r(Z,Y)))).
fof(n,conjecture,?[X]: r(X,X)).
""")]
BYNAME = {p["name"]: p for p in FIXED}

def pick(rng):
    r = rng.random()
    if r < .45: return dict(rng.choice(FIXED))
    if r < .65: return rnd_prop(rng)
    if r < .83: return rnd_epr(rng)
    return rnd_ground_eq(rng)

def statuses(text):
    """all SZS statuses of an output, in order"""
    import re
    return re.findall(r"^[%#]+ SZS status[ \t]+([A-Za-z]+)", text, re.M)
PROOF = {"Theorem", "Unsatisfiable", "ContradictoryAxioms"}
MODEL = {"Satisfiable", "CounterSatisfiable"}
NOANSWER = {"ResourceOut", "GaveUp", "Unknown", "Timeout", "MemoryOut", "Incomplete"}
def contradicts(prob, st):
    """is this printed status false for the problem?"""
    if st in PROOF:
        if prob["truth"] != "U": return True
        if st == "Unsatisfiable": return prob["conj"]
        return not prob["conj"]
    if st in MODEL:
        if prob["truth"] != "S": return True
        return prob["conj"] != (st == "CounterSatisfiable")
    return False
