import copy
import lang, art, circ, gen
from gen import n, v, b, call, asg, ceq, comp, iff, arr, loop, blk
P = list(circ.PRIMES)
LEVELS = [["--O0"], ["--O1"], ["--O2"], ["--O2round", "1"], ["--O2", "--use_old_simplification_heuristics"], []]

def calls(x, t):
    if isinstance(x, dict):
        if x.get("k") == "c" and x.get("f") == t: yield x
        for y in x.values(): yield from calls(y, t)
    elif isinstance(x, list):
        for y in x: yield from calls(y, t)
def customs(pr): return [t for t, T in pr["templates"].items() if T.get("custom")]
def array_param(r, pr, t):
    """an array among the parameters of t"""
    T = pr["templates"][t]
    k = r.randrange(len(T["params"]) + 1)
    d = r.choice([[2], [3], [1], [2, 2]])
    T["params"].insert(k, "ar")
    mk = lambda d: arr(*[mk(d[1:]) for _ in range(d[0])]) if d else n(r.randrange(9))
    for c in calls(pr, t): c["as"].insert(k, mk(d))
    if pr["main"]["t"] == t: pr["main"]["as"].insert(k, mk(d))
def rename(r, pr):
    """names of templates that begin, end or contain one another"""
    old = list(pr["templates"])
    cs = customs(pr)
    old = r.sample(cs, len(cs)) + [t for t in old if t not in cs]
    new = r.sample(["G", "NG", "GG", "GN"], 4) + r.sample(["G1", "_G", "G_", "gG", "NGN", "G11", "N"], 7)
    if len(old) > len(new): return
    m = dict(zip(old, new))
    def go(x):
        if isinstance(x, dict):
            if x.get("k") == "c" and x.get("f") in m: x["f"] = m[x["f"]]
            for y in x.values(): go(y)
        elif isinstance(x, list):
            for y in x: go(y)
    go(pr)
    pr["templates"] = {m[t]: T for t, T in pr["templates"].items()}
    pr["main"]["t"] = m[pr["main"]["t"]]
def twins(r, pr):
    """another custom template of the same shape that some instances use instead"""
    for t in customs(pr):
        us = [list(calls(T["body"], t)) for T in pr["templates"].values()]     # an array has instances of one template
        if any(us) and pr["main"]["t"] != t and r.random() < .7:
            T2 = copy.deepcopy(pr["templates"][t])
            pr["templates"] = dict(list(pr["templates"].items()) + [(t + "tw", T2)] if r.random() < .5 else [(t + "tw", T2)] + list(pr["templates"].items()))
            for u in us:
                if r.random() < .5:
                    for x in u: x["f"] = t + "tw"
def unused_twin(r, pr, t):
    pr["templates"] = dict([(t + "u", copy.deepcopy(pr["templates"][t]))] + list(pr["templates"].items()))
def breach(r, pr, t):
    """something a custom template must not contain, perhaps where it is never executed"""
    T = pr["templates"][t]
    sigs = [s for s in T["body"] if s["k"] == "sig" and not s["d"] and not s["bt"]]
    x = v(r.choice(sigs)["n"]) if sigs else None
    o = [s for s in sigs if s["q"] == "mid"]
    kinds = []
    if x: kinds += [ceq(x, x)] * 2
    if x: kinds += [[gen.sig("mid", "bad"), asg("<==", v("bad"), n(3))]] * 2
    free = [q for q in pr["templates"] if q != t and not pr["templates"][q]["params"]]
    kinds += [comp("badc")]
    if not kinds: return
    s = copy.deepcopy(r.choice(kinds))
    pre, s = (s[:-1], s[-1:]) if isinstance(s, list) else ([], [s])
    if s[0]["k"] != "comp":
        w = r.randrange(6)
        if w == 1: s = [iff(n(1), s)]
        elif w == 2: s = [iff(n(0), s)]
        elif w == 3: s = [loop("bi", 0, r.choice([0, 1]), s)]
        elif w == 4: s = [blk(s)]
        elif w == 5: s = [iff(n(1), [blk([])], s)]
    T["body"] += pre + s

NAMES = ["G", "NG", "GG", "GN", "G1", "_G", "G_", "gG", "NGN", "G11", "N"]
def farm(r, prime):
    """many gates: related names, equal and different parameters, arrays of them, at several depths of the tree"""
    p = circ.PRIMES[prime]
    names = r.sample(NAMES[:4], 2) + r.sample(NAMES[4:], 3)
    ngates = r.randrange(2, 5)
    T, shape = {}, {}
    np_ = r.choice([0, 1, 1, 2])
    for g in names[:ngates]:
        ps = ["n%d" % i for i in range(np_ if r.random() < .7 else r.choice([0, 1, 2]))]
        ins = [("i%d" % i, r.choice([0, 0, 2])) for i in range(r.choice([1, 1, 2, 3]))]
        mids = [("m%d" % i, 0) for i in range(r.choice([0, 0, 1]))]
        outs = [("o%d" % i, r.choice([0, 0, 2])) for i in range(r.choice([1, 1, 2]))]
        ds = [gen.sig("in", x, [n(d)] if d else []) for x, d in ins] + [gen.sig("out", x, [n(d)] if d else []) for x, d in outs] + [gen.sig("mid", x) for x, _ in mids]
        r.shuffle(ds)
        els = lambda q: [v(x, n(j)) for x, d in q for j in range(d)] + [v(x) for x, d in q if not d]
        e = lambda: b(r.choice("+*-"), r.choice(els(ins)), r.choice(els(ins) + [v(x) for x in ps] + [n(r.randrange(5))]))
        T[g] = dict(params=ps, body=ds + [asg("<--", x, e()) for x in els(mids) + els(outs)], custom=True)
        shape[g] = (len(ps), ins, outs)
    def user(name, kids):
        """a template with inputs x[2], output y that chains gates and kids"""
        body = [gen.sig("in", "x", [n(2)]), gen.sig("out", "y")]
        avail = [v("x", n(0)), v("x", n(1))]
        for q in range(r.randrange(1, 5)):
            cn = "c%d" % q
            if kids and r.random() < .4:
                body += [comp(cn, (), call(r.choice(kids)))]
                body += [asg("<==", v(cn, "x", n(j)), r.choice(avail)) for j in range(2)]
                avail.append(v(cn, "y")); continue
            g = r.choice(list(shape)); k, ins, outs = shape[g]
            mk = lambda: [n(r.choice([0, 1, 1, 2, 11])) for _ in range(k)]
            arr_ = r.random() < .3
            if arr_: body += [comp(cn, [n(2)])] + [asg("=", v(cn, n(j)), call(g, *mk())) for j in (r.sample([0, 1], 2))]
            else: body += [comp(cn, (), call(g, *mk()))]
            pre = [[n(0)], [n(1)]] if arr_ else [[]]
            new = []
            for a in pre:
                for x, d in ins:
                    for j in range(max(d, 1)): body.append(asg("<==", v(cn, *a, x, *([n(j)] if d else [])), r.choice(avail)))
                for x, d in outs:
                    for j in range(max(d, 1)): new.append(v(cn, *a, x, *([n(j)] if d else [])))
            avail += new
        body.append(asg("<==", v("y"), b("+", r.choice(avail), r.choice(avail[2:] or avail))))
        T[name] = dict(params=[], body=body)
    us = names[ngates:][:r.randrange(1, 3)]
    kids = []
    for x in us: user(x, kids); kids.append(x)
    user("Main", kids)
    T = dict(r.sample(list(T.items()), len(T)))
    pr = dict(templates=T, funcs={}, buses={}, main=dict(t="Main", public=[], **{"as": []}))
    return dict(prog=pr, prime=prime, inputs=[gen.inputs_for([("x", [2], None)], r, p)])

def run(c):
    for bt in c.batches(2):
        r = c.rng(bt)
        cases = []
        for i in range(150):
            k = lang.gen_case(r, "bn128" if i % 3 else P[(bt + i // 3) % 8], dict(stmts=3 + i % 5, templates=2 + i % 3, funcs=1, custom=True, buses=i % 2 == 0, parallel=i % 5 == 0), 2)
            pr = k["prog"]
            if i % 3 == 1:
                k = farm(r, k["prime"]); pr = k["prog"]
            cs = customs(pr)
            for t in cs:
                if r.random() < 0.3: array_param(r, pr, t)
            if cs and r.random() < 0.1:        # the main component is a custom gate itself
                t = r.choice(cs); 
                if not pr["templates"][t]["params"] or True:
                    pr["main"] = dict(t=t, public=[], **{"as": [n(1 + r.randrange(3)) if x != "ar" else None for x in pr["templates"][t]["params"]]})
                    if None in pr["main"]["as"]: pr["main"]["as"] = [x or arr(n(1), n(2)) for x in pr["main"]["as"]]
                k["inputs"] = []
            if cs and i % 4 == 1: breach(r, pr, r.choice(cs))
            if cs and r.random() < 0.1: unused_twin(r, pr, r.choice(cs))
            if i % 2:
                if r.random() < .7: twins(r, pr)
                rename(r, pr)
            if r.random() < 0.08: pr["custompragma"] = False
            elif r.random() < 0.05: pr["custompragma"] = True
            k["args"] = LEVELS[(i + bt) % len(LEVELS)]
            cases.append(k)
        obs = art.collect(cases, wasm=False)
        recs = []
        for i, o in enumerate(obs):
            pr = o.case["prog"]
            d = dict(id=i, p=str(circ.PRIMES[o.prime]), prog=pr, acc=o.acc, broken=o.broken, pragma=bool(pr.get("custompragma", customs(pr))), secs=[], gates=[], uses=[], names=[], gtrail=0, utrail=0)
            if o.acc and not o.broken:
                nm = {l: x for l, w, _, x in o.sym}
                R = o.r1cs
                d.update(secs=R["order"], names=["1" if w == 0 else nm.get(R["w2l"][w], "?") for w in range(len(R["w2l"]))],
                         gates=[dict(name=g["name"], params=[str(x) for x in g["params"]]) for g in R.get("gates", [])],
                         uses=[dict(gate=art.small(u["gate"]), signals=[art.small(x) for x in u["signals"]]) for u in R.get("uses", [])],
                         gtrail=R.get("gates_trailing", 0), utrail=R.get("uses_trailing", 0))
            recs.append(d)
        ev = art.judge(c, "Gates", recs)
        art.report(c, ev, obs)
        art.clean(obs)
        # the constraints are those of the other templates, and the witness has the values the gates compute
        good = [dict(k, args=["--O0"]) for k in cases[::2] if "custompragma" not in k["prog"]]
        good = [k for k in good if not any("bad" in str(T["body"]) for T in k["prog"]["templates"].values())]
        lang.validate(c, good)
