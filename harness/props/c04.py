"""Simplification: the elimination machine model-checked, then recorded simplifications validated."""
import gen, lang, art, circ, tlc
from circ import PRIMES
P = list(PRIMES)
LEVELS = [["--O1"], ["--O2"], ["--O2round", "1"], ["--O2round", "2"], ["--O2", "--use_old_simplification_heuristics"], ["--O1", "--use_old_simplification_heuristics"], []]
MODEL = """SPECIFICATION Spec
CONSTANT PRIME = %d
CONSTANT NSIG = %d
CONSTANT NCONS = 2
CONSTANT FORBIDDEN = {1}
INVARIANT Faithful
INVARIANT Recognised
INVARIANT Discerning
INVARIANT KeepsForbidden
"""
def lab(l, w2l): return [dict(w=w2l[x["w"]] if 0 <= x["w"] < len(w2l) else 29999, k=x["k"]) for x in l]
def small(x): return x if 0 <= x < 30000 else 29999
def pair(i, o0, o):
    a, b = art.record(o0, i, prog=False), art.record(o, i, prog=False)
    fix = lambda cs, m: [[lab(l, m) for l in abc] for abc in cs]
    m0, m1 = [small(x) for x in a["w2l"]], [small(x) for x in b["w2l"]]
    pub = list(range(1, 1 + a["hdr"]["pubout"] + a["hdr"]["pubin"])) + [s for u in o0.r1cs.get("uses", []) for s in u["signals"]]
    return dict(id=i, p=a["p"], before=fix(a["cons"], m0), after=fix(b["cons"], m1), public=pub, kept=m1,
                subs=[dict(s=small(x["s"]), e=[dict(w=small(y["w"]), k=y["k"]) for y in x["e"]]) for x in b["subs"]])
def compare(c, cases):
    o0 = art.collect([dict(k, args=["--O0"]) for k in cases], wasm=False)
    o1 = art.collect(cases, wasm=False)
    recs, obs = [], []
    for k, a, b in zip(cases, o0, o1):
        if not a.acc: c.count("rejected"); continue
        if a.broken: raise circ.ToolError("unreadable O0 output: " + a.broken)
        if not b.acc or b.broken:
            c.violation("no readable output with %s (exit %s) for a program accepted with --O0 %s" % (b.args, b.rc, b.broken), dict(source=b.src, args=b.args, prime=b.prime, output=b.out[-1500:]))
            continue
        recs.append(pair(len(obs), a, b)); obs.append(b)
    ev = art.judge(c, "TraceSimplify", recs)
    art.report(c, ev, obs)
    art.clean(o0); art.clean(o1)
def run(c):
    # the machine itself, exhaustively
    c.tlc(tlc.run("Simplify", cfg=MODEL % (2, 3), big=False))
    for b in c.batches(3):
        r = c.rng(b)
        cases = []
        for i in range(100):
            k = lang.gen_case(r, "bn128" if i % 3 else P[(b + i // 3) % 8],
                dict(stmts=4 + i % 6, templates=2 + i % 3, funcs=0, checks=0.35, spoil=0.6, hints=i % 2 == 0), 0)
            if i % 2:
                pr = gen.soup(r, PRIMES[k["prime"]], inconsistent=i % 10 == 1)
                if i == 1 or (c.thorough and i % 20 == 1): pr = gen.bigsoup(r, PRIMES[k["prime"]], 352)
                k = dict(prog=pr, inputs=[], prime=k["prime"])
            k["args"] = LEVELS[(i + b) % len(LEVELS)]
            if i == 1: k["args"] = ["--O2"]
            cases.append(k)
        compare(c, cases)
