"""Anonymous components, tuples and `_`: Desugar.tla derives the program without them, TraceLang judges what circom
made of the sugared text (verdict, constraints, signal values, log lines) against the meaning of the derived program."""
import copy, json, os
import circ, conf, gen, mutcheck, render, sugar, tlc
from circ import PRIMES
P = list(PRIMES)

def make(r, i, prime, logs=False):
    S = sugar.Sugar(r, PRIMES[prime], logs)
    pr, ins = S.program()
    kind = "valid"
    if i % 3 == 2: pr, kind = sugar.misuse(r, S, pr)
    return dict(prog=pr, inputs=[gen.inputs_for([(a, d, None) for a, d in ins], r, PRIMES[prime]) for _ in range(2)], prime=prime, kind=kind)

def desugar(c, cases):
    """-> [(err, core program)] from the specification"""
    f = os.path.join(circ.SCRATCH, "sugar%d.json" % os.getpid())
    with open(f, "w") as h: json.dump([dict(id=i, prog=x["prog"]) for i, x in enumerate(cases)], h)
    r = tlc.run("Desugar", env={"CASES": f}, big=False)
    if c: c.tlc(r)
    out = [None] * len(cases)
    for k, d in filter(None, map(tlc.parse, r.lines)):
        if k != "CORE": continue
        core = None
        if not d["err"]:
            core = copy.deepcopy(cases[d["id"]]["prog"])
            for key, n in (("t", "templates"), ("f", "funcs")):
                for a, b in (d[key] or {}).items(): core[n][a]["body"] = b
            core["main"].pop("an")
        out[d["id"]] = (d["err"], core)
    if None in out: raise circ.ToolError("Desugar left %d cases out" % out.count(None))
    return out

def signals(ss):
    out = set()
    for s in ss:
        if s["k"] == "sig": out.add(s["n"])
        for f in ("t", "e", "b"):
            if isinstance(s.get(f), list): out |= signals(s[f])
    return out
def declared(ss):
    out = set()
    for s in ss:
        if s["k"] == "comp": out.add(s["n"])
        for f in ("t", "e", "b"):
            if isinstance(s.get(f), list): out |= declared(s[f])
    return out
def sites(x, acc):
    if isinstance(x, dict):
        if x.get("k") == "an": acc.append((x["site"], x["t"]))
        for y in x.values(): sites(y, acc)
    elif isinstance(x, list):
        for y in x: sites(y, acc)
    return acc

def rename(o, sug, core):
    """the names circom gave to anonymous components -> the names of the specification.  A component is recognised by
    the signals it has (every template has its own); a component that could be several sites stays unresolved.
    -> (map name -> name or None, all resolved)"""
    T = core["templates"]
    owner = {s: t for t in T for s in signals(T[t]["body"])}
    comps = {t: declared(T[t]["body"]) for t in T}
    site = {t: sites(sug["templates"][t]["body"], []) for t in T}
    base = lambda g: g.split("[")[0]
    kind = {}                    # path of a component -> its template
    paths = []
    for _, _, _, nm in o.sym:
        g = nm.split(".")
        k = next((i for i, x in enumerate(g) if base(x) in owner), None)
        if k is None: return {nm: None for *_, nm in o.sym}, False
        kind[".".join(g[:k])] = owner[base(g[k])]
        paths.append((nm, g, k))
    used = {}                    # (parent path, site) -> unknown names that would be this site
    for nm, g, k in paths:
        for i in range(1, k):
            par, me = ".".join(g[:i]), ".".join(g[:i + 1])
            pt, mt = kind.get(par), kind.get(me)
            if pt and mt and not (base(g[i]) in comps[pt] and base(g[i]) not in {s for s, _ in site[pt]}):
                used.setdefault((par, mt), set()).add(base(g[i]))
    m, ok = {}, True
    for nm, g, k in paths:
        h = [g[0]]
        for i in range(1, k):
            par, me = ".".join(g[:i]), ".".join(g[:i + 1])
            pt, mt = kind.get(par), kind.get(me)
            if not pt or not mt: h = None; break
            if base(g[i]) in comps[pt] and base(g[i]) not in {s for s, _ in site[pt]}: h.append(g[i]); continue
            c = [s for s, t in site[pt] if t == mt]
            if len(c) != 1 or len(used[(par, mt)]) != 1: h = None; break
            h.append(c[0] + g[i][len(base(g[i])):])
        m[nm] = None if h is None else ".".join(h + g[k:])
        ok = ok and h is not None
    return m, ok

def run(c):
    for b in c.batches(2):
        r = c.rng(b)
        cases = [make(r, i, "bn128" if i % 5 else P[(b + i // 5) % 8], i % 3 == 0) for i in range(200)]
        check(c, cases)

def check(c, cases):
    core = desugar(c, cases)
    for k, (e, _) in zip(cases, core): k["src"] = render.program(k["prog"])
    obs = circ.pmap(lambda k: conf.observe(k, k["prime"], ["--O0"]), cases)
    jobs, idx = [], []
    for i, o in enumerate(obs):
        if o.acc and not core[i][0] and o.r1cs is not None:
            jobs.append(dict(js=o.dir + "/a_js", name="a", inputs=[x for x, _ in o.case["inputs"]])); idx.append(i)
    wit = dict(zip(idx, circ.witnesses(jobs)))
    tr, events = [], []
    for i, o in enumerate(obs):
        err, k = core[i]
        c.count("use_" + cases[i]["kind"])
        if err:
            c.count("sugar_" + err); c.traces += 1
            if o.rc != 1: events.append((i, dict(what="verdict", expected="sugar: " + err, observed=o.rc)))
            continue
        x = dict(case=o.case)
        o2 = copy.copy(o); o2.case = dict(o.case, prog=k, static=True)
        names, ok = (rename(o, cases[i]["prog"], k) if o.sym is not None else ({}, True))
        c.count("names_resolved" if ok else "names_ambiguous")
        if o.sym is not None: o2.sym = [(l, w if names[nm] else -1, cc, names[nm] or "?") for l, w, cc, nm in o.sym]
        tr.append(conf.to_trace(o2, i, cases[i]["prime"], wit.get(i), logs=True, nocons=not ok) | dict(bag=True))
        if o.acc and o.r1cs is None: events.append((i, dict(what="files", observed=getattr(o, "broken", "none"))))
    ev, res = conf.judge(tr)
    c.tlc(res)
    ev = list({(k, d["id"], d.get("run")): (k, d) for k, d in ev}.values())
    for k, d in ev:
        if k == "ERR": c.count("specification_gaps")
        elif k == "MIS": events.append((d["id"], d))
        elif k == "CASE":
            c.traces += 1; c.count("spec_verdict_" + (d["err"] or "accept"))
            if obs[d["id"]].rc not in (0, 1) and d["err"] not in mutcheck.OPEN: events.append((d["id"], dict(what="crash", observed=obs[d["id"]].rc)))
            if "cons" in d: c.count("constraints_compared", d["cons"])
        elif k == "RUN":
            c.traces += 1; c.count("run_" + (d["err"] or "ok"))
            if "vals" in d: c.count("signal_values_compared", d["vals"])
    if len({d["id"] for _, d in ev}) != len(tr): raise circ.ToolError("TLC judged %d of %d cases" % (len({d["id"] for _, d in ev}), len(tr)))
    for i, d in events:
        o = obs[i]
        c.violation("%s: %s" % (d["what"], {a: x for a, x in d.items() if a not in ("id", "what")}),
                    dict(mismatch=d, source=cases[i]["src"], without_sugar=render.program(core[i][1]) if core[i][1] else None, prime=cases[i]["prime"],
                         inputs=[x for x, _ in cases[i]["inputs"]], exit=o.rc, output=o.out[-1500:]))
    c.sample(cases[0]["src"][:1500])
    for o in obs: circ.shutil.rmtree(o.dir, ignore_errors=True)
