"""Everything circom writes for a program, as data for the trace specifications."""
import json, os, base64, struct, re
import circ, conf, render, tlc

BIG = 2 ** 31 - 1
def small(x): return x if isinstance(x, int) and -BIG <= x <= BIG else -7
def lc(m): return [dict(w=small(w), k=str(k)) for w, k in m]
def jlc(m):
    out = []
    for w, k in m.items():
        if not (re.fullmatch(r"\d+", w) and isinstance(k, str) and re.fullmatch(r"\d+", k)): raise ValueError("bad json entry %r:%r" % (w, k))
        out.append(dict(w=small(int(w)), k=k))
    return out

def parse_wtns(b):
    if b[:4] != b"wtns": return dict(bad="magic")
    try:
        ver, nsec = struct.unpack("<II", b[4:12])
        pos = 12; secs = {}
        for _ in range(nsec):
            t, n = struct.unpack("<IQ", b[pos:pos+12]); secs[t] = b[pos+12:pos+12+n]; pos += 12 + n
            if pos > len(b): return dict(bad="truncated")
        fs, = struct.unpack("<I", secs[1][:4]); prime = int.from_bytes(secs[1][4:4+fs], "little")
        n, = struct.unpack("<I", secs[1][4+fs:8+fs])
        d = secs[2]
        return dict(bad="" if len(secs[1]) == 8 + fs and len(d) == n * fs and pos == len(b) else "sizes", version=ver, fs=fs, prime=str(prime), n=small(n),
                    w=[str(int.from_bytes(d[i:i+fs], "little")) for i in range(0, len(d), fs)])
    except (struct.error, KeyError, ZeroDivisionError, ValueError) as e:
        return dict(bad=repr(e))

FLAGS = ["--r1cs", "--sym", "--json"]
def observe(case, prime="bn128", args=("--O1",), wasm=True):
    """-> conf.Obs with r1cs, sym, jcons, subs (None when unreadable, with `broken` saying why)"""
    o = conf.Obs()
    o.case = case
    o.prime = case.get("prime", prime)
    o.args = list(case.get("args", args))
    o.src = case.get("src") or render.program(case["prog"])
    simp = [] if "--O0" in o.args else ["--simplification_substitution"]
    res = circ.compile(o.src, o.args + FLAGS + simp + (["--wasm"] if wasm else []), prime=o.prime, name="a")
    o.rc, o.out, o.dir = res.rc, res.out, res.dir
    o.acc = res.rc == 0
    o.r1cs = o.sym = o.jcons = o.subs = None
    o.broken = ""
    if o.acc:
        try:
            o.r1cs = circ.read_r1cs(res.dir + "/a.r1cs")
            o.sym = circ.read_sym(res.dir + "/a.sym")
            o.jcons = [[jlc(x) for x in c] for c in json.load(open(res.dir + "/a_constraints.json"))["constraints"]]
            o.subs = []
            if simp:
                pairs = json.load(open(res.dir + "/a_substitutions.json"), object_pairs_hook=list)
                o.subs = [(int(k), [(int(w), v) for w, v in e]) for k, e in pairs]
        except Exception as e:
            o.broken = repr(e)
    return o

def record(o, ident, prog=True):
    """the record the trace specifications read"""
    d = dict(id=ident, p=str(circ.PRIMES[o.prime]), acc=o.acc, broken=o.broken, level=" ".join(o.args))
    if prog: d["prog"] = o.case["prog"]
    if o.acc and not o.broken:
        r = o.r1cs
        d["hdr"] = dict(magic=r["magic"], version=small(r["version"]), fs=r["fs"], prime=str(r["prime"]), wires=small(r["wires"]), pubout=small(r["pubout"]),
                        pubin=small(r["pubin"]), prvin=small(r["prvin"]), labels=small(r["labels"]), ncons=small(r["ncons"]), dup=r["dup"],
                        trailing=small(r["trailing"]), headlen=r["headlen"], maplen=r["maplen"], secs=[small(x) for x in r["order"]])
        d["cons"] = [[lc(x) for x in c] for c in r["cons"]]
        d["w2l"] = [small(x) for x in r["w2l"]]
        d["sym"] = [dict(l=small(l), w=small(w), node=small(nd), n=n) for l, w, nd, n in o.sym]
        d["jcons"] = o.jcons
        d["subs"] = [dict(s=small(s), e=[dict(w=small(w), k=str(k)) for w, k in e]) for s, e in o.subs]
    d["wit"] = []
    for w in (getattr(o, "wit", None) or []):
        x = dict(ok=w["ok"])
        if w["ok"]:
            x["w"] = w["w"]
            x["bin"] = parse_wtns(base64.b64decode(w["bin"])) if "bin" in w else {"bad": "none"}
            x["bin"].setdefault("w", []); 
        d["wit"].append(x)
    return d

def collect(cases, args=("--O1",), wasm=True, bin=True):
    obs = circ.pmap(lambda c: observe(c, args=args, wasm=wasm), cases)
    if wasm:
        jobs, idx = [], []
        for i, o in enumerate(obs):
            if o.acc and o.case.get("inputs"):
                jobs.append(dict(js=o.dir + "/a_js", name="a", inputs=[x for x, _ in o.case["inputs"]], bin=bin)); idx.append(i)
        for i, w in zip(idx, circ.witnesses(jobs)): obs[i].wit = w
    return obs

def judge(ctx, module, recs, heap="10g", env=None, timeout=600):
    f = os.path.join(circ.SCRATCH, "%s%d.json" % (module, os.getpid()))
    with open(f, "w") as h: json.dump(recs, h)
    e = {"CASES": f}; e.update(env or {})
    r = tlc.run(module, env=e, heap=heap, timeout=timeout)
    ctx.tlc(r)
    ev = [x for x in map(tlc.parse, r.lines) if x]
    seen, out = set(), []
    for k, d in ev:
        key = (k, json.dumps(d, sort_keys=True))
        if key not in seen: seen.add(key); out.append((k, d))
    return out

def report(ctx, ev, obs, accept=None, kinds=("DONE",)):
    """MIS events become violations; every case must have a DONE event"""
    done = set()
    for k, d in ev:
        if k == "MIS" and (accept is None or accept(d)):
            o = obs[d["id"]]
            ctx.violation("%s: %s" % (d["what"], {a: b for a, b in d.items() if a not in ("id", "what")}),
                          dict(mismatch=d, source=o.src, args=o.args, prime=o.prime, inputs=[x for x, _ in o.case.get("inputs", [])], exit=o.rc, output=o.out[-1500:]))
        elif k in kinds:
            done.add(d["id"]); ctx.traces += 1
            for a, b in d.items():
                if a not in ("id", "run") and isinstance(b, int) and not isinstance(b, bool): ctx.count(a, b)
    missing = [i for i in range(len(obs)) if i not in done]
    if missing: raise circ.ToolError("TLC judged %d of %d cases" % (len(obs) - len(missing), len(obs)))
    if obs: ctx.sample(obs[0].src[:1500])

def clean(obs):
    for o in obs: circ.shutil.rmtree(o.dir, ignore_errors=True)
