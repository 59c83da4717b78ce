"""Conformance of compilations and witness computations with spec/Lang.tla (through TraceLang)."""
import json, os, re, collections
import circ, render, tlc

class Obs:
    """what circom did with one program"""

def observe(case, prime, args, runs=True, timeout=60):
    """compiles one case; returns Obs with acc, crash, cons (named), sym, dir"""
    o = Obs()
    o.case = case
    o.src = case.get("src") or render.program(case["prog"])
    res = circ.compile(o.src, list(args) + ["--r1cs", "--sym"] + (["--wasm"] if runs else []), prime=prime, name="a", timeout=timeout)
    o.rc, o.out, o.dir = res.rc, res.out, res.dir
    o.acc = res.rc == 0
    o.r1cs = o.sym = None
    if o.acc:
        try:
            o.r1cs = circ.read_r1cs(res.dir + "/a.r1cs"); o.sym = circ.read_sym(res.dir + "/a.sym")
        except (OSError, ValueError, KeyError, IndexError, circ.struct.error) as e:
            o.broken = repr(e)
    return o

def to_trace(o, ident, prime, wit, logs=False, nocons=False):
    """the record TraceLang reads"""
    p = str(circ.PRIMES[prime])
    c = dict(id=ident, p=p, prog=o.case["prog"], acc=o.acc, nocons=nocons or o.r1cs is None, cons=[], runs=[], logs=logs, static=bool(o.case.get('static')))
    if o.acc and o.r1cs is not None:
        nm = {w: n for l, w, _, n in o.sym if w != -1}; nm[0] = "1"
        if not nocons:
            c["cons"] = [[[dict(s=nm.get(w, "wire%d" % w), k=str(k)) for w, k in lc] for lc in abc] for abc in o.r1cs["cons"]]
        for (obj, flat), w in zip(o.case["inputs"], wit or []):
            d = dict(inp=flat, ok=w["ok"], vals={}, logs=w["log"])
            if w["ok"]: d["vals"] = {n: w["w"][wi] for l, wi, _, n in o.sym if wi != -1}
            c["runs"].append(d)
    return c

def judge(tr):
    """TraceLang over the records; a record the specification cannot evaluate is set aside (event ERR)"""
    f = os.path.join(circ.SCRATCH, "cases%d.json" % os.getpid())
    ev, todo, tot = [], tr, None
    for attempt in range(6):
        with open(f, "w") as h: json.dump(todo, h)
        try: r = tlc.run("TraceLang", env={"CASES": f})
        except circ.ToolError as e:
            out = e.args[1] if len(e.args) > 1 else ""
            m = re.findall(r"^(?:/\\ )?c = (\d+)", out, re.M)
            if not m or attempt == 5: raise
            bad = todo[int(m[0]) - 1]
            ev.append(("ERR", dict(id=bad["id"], err="specerror", text="\n".join(l for l in out.splitlines() if "rror" in l or "ttempt" in l)[:600])))
            todo = [t for t in todo if t["id"] != bad["id"]]
            continue
        ev += [e for e in map(tlc.parse, r.lines) if e]
        return ev, r

def check(cases, prime="bn128", args=("--O0",), logs=False, nocons=False, runs=True, timeout=60):
    """-> (events, observations, tlc result); events: (kind, dict)"""
    obs = circ.pmap(lambda c: observe(c, c.get("prime", prime), c.get("args", args), runs, timeout), cases)
    if runs:
        jobs, idx = [], []
        for i, o in enumerate(obs):
            if o.acc and o.case["inputs"]:
                jobs.append(dict(js=o.dir + "/a_js", name="a", inputs=[x for x, _ in o.case["inputs"]])); idx.append(i)
        wit = dict(zip(idx, circ.witnesses(jobs)))
    else: wit = {}
    for i, o in enumerate(obs): o.wit = wit.get(i)
    tr = [to_trace(o, i, o.case.get("prime", prime), o.wit, logs, nocons) for i, o in enumerate(obs)]
    ev, r = judge(tr)
    for o in obs: circ.shutil.rmtree(o.dir, ignore_errors=True)
    return ev, obs, r

def disagreements(cases, args=("--O0",), **kw):
    ev, obs, r = check(cases, args=args, **kw)
    return [(cases[d["id"]], d) for k, d in ev if k == "MIS"]
