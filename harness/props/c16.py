"""The pool model over all schedules; repeated compilations under different circumstances."""
import os, hashlib
import lang, gen, art, circ, render, tlc
from circ import PRIMES
P = list(PRIMES)
LEVELS = [["--O2"], ["--O1"], ["--O0"], ["--O2", "--use_old_simplification_heuristics"], ["--O2round", "2"]]
CFG = "SPECIFICATION Spec\nCONSTANT JOBS = %d\nCONSTANT WORKERS = %d\nCONSTANT ORDERED = %s\nINVARIANT Deterministic\nINVARIANT NothingLost\n%s"
HOWS = ["fresh", "fresh", "same directory again", "after another program", "one processor", "two processors"]
def digest(d):
    out = {}
    for dp, _, fs in os.walk(d):
        for f in fs:
            out[os.path.relpath(os.path.join(dp, f), d)] = hashlib.sha256(open(os.path.join(dp, f), "rb").read()).hexdigest()[:16]
    return out
def one(job):
    how, src, other, args, prime = job
    pre = []
    if how == "one processor": pre = ["taskset", "-c", "0"]
    if how == "two processors": pre = ["taskset", "-c", "0,1"]
    d = None
    if how in ("same directory again", "after another program"):
        x = circ.compile(src if how[0] == "s" else other, args, prime=prime); d = x.dir
    res = circ.compile(src, args, prime=prime, d=d, prefix=pre)
    # what an earlier, accepted program left behind is not ours: only files a fresh run writes are compared
    r = dict(how=how, rc=str(res.rc), files=digest(res.dir), out=res.out)
    # what is reported is the same too (in whatever order)
    r["files"]["<messages>"] = hashlib.sha256("\n".join(sorted(res.out.split("\n"))).encode()).hexdigest()[:16]
    circ.shutil.rmtree(res.dir, ignore_errors=True)
    return r
def tagged(r):
    """a program whose instances differ by the tags of their inputs"""
    k, m = r.randint(2, 5), r.randint(1, 3)
    ns = r.sample("abcdefgh", k)
    s = "pragma circom 2.1.9;\ntemplate Src(n) { signal input i; signal output {t, u} o; o.t = n; o.u = n * 7; o <== i; }\n"
    s += "template T() { %s signal output q; signal l; l <-- %s; q <== %s; }\n" % (" ".join("signal input {%s} %s;" % (r.choice(["t", "u", "t, u"]), n) for n in ns), " + ".join(ns), " + ".join(ns))
    s += "template M() { signal input x; signal output z[%d];\n" % m
    for j in range(m):
        s += "  component c%d = T();\n" % j
        for n in ns:
            s += "  component s%d%s = Src(%d); s%d%s.i <== x; c%d.%s <== s%d%s.o;\n" % (j, n, r.randint(1, 9), j, n, j, n, j, n)
        s += "  z[%d] <== c%d.q;\n" % (j, j)
    return s + "}\ncomponent main = M();\n"
def run(c):
    c.tlc(tlc.run("Pool", cfg=CFG % (5, 3, "TRUE", "PROPERTY Terminates\n"), big=False))
    neg = tlc.run("Pool", cfg=CFG % (3, 2, "FALSE", ""), big=False, ok=None)
    if neg.rc != 12: raise circ.ToolError("the model without ordering should not be deterministic")
    for b in c.batches(1):
        r = c.rng(b)
        jobs, meta = [], []
        for i in range(40):
            prime = "bn128" if i % 3 else P[(b + i) % 8]
            p = PRIMES[prime]
            if i % 8 == 0: pr = gen.bigsoup(r, p)
            elif i % 2: pr = gen.soup(r, p, nsig=r.choice([10, 20, 40]))
            else: pr = lang.gen_case(r, prime, dict(stmts=8, templates=3, funcs=2, checks=0.3, spoil=0, buses=i % 4 == 0, parallel=i % 3 == 0), 0)["prog"]
            # a program whose outputs are larger, to be overwritten
            other = render.program(gen.soup(r, p, nsig=30))
            a = LEVELS[(i // 2) % len(LEVELS)]
            args = a + ["--r1cs", "--sym", "--json"] + ([] if "--O0" in a else ["--simplification_substitution"]) + (["--wasm", "--wat", "--c"] if i % 8 else [])
            src = render.program(pr) if i % 10 != 9 else tagged(r)
            if i % 5 == 4 and "--r1cs" in args: args = args + ["--inspect"]
            for h in HOWS + (["fresh"] * 10 if c.thorough else ["fresh"]): jobs.append((h, src, other, args, prime)); meta.append(i)
        res = circ.pmap(one, jobs)
        recs, obs = [], []
        for i in sorted(set(meta)):
            rs = [x for m, x in zip(meta, res) if m == i]
            names = set(rs[0]["files"])
            o = type("O", (), {})(); j = meta.index(i)
            o.src, o.args, o.prime, o.case, o.rc, o.out = jobs[j][1], jobs[j][3], jobs[j][4], {}, rs[0]["rc"], rs[0]["out"]
            for x in rs:
                if "after" in x["how"]: x["files"] = {k: v for k, v in x["files"].items() if k in names}
            recs.append(dict(id=len(recs), files=len(names), runs=[{k: x[k] for k in ("how", "rc", "files")} for x in rs])); obs.append(o)
        ev = art.judge(c, "TraceRuns", recs)
        art.report(c, ev, obs)
