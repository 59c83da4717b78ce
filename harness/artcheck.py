import lang, art, copy
from circ import PRIMES
P = list(PRIMES)
LEVELS = [["--O0"], ["--O1"], ["--O2"], ["--O2round", "1"], ["--O2", "--use_old_simplification_heuristics"], []]
def spoil_public(r, pr):
    """a public list that may name something else than an input"""
    T = pr["templates"][pr["main"]["t"]]
    ds = [s["n"] for s in T["body"] if s["k"] in ("sig", "var", "comp")]
    x = r.choice(ds + ["nope"] + [s["n"] for s in T["body"] if s["k"] == "sig" and s["q"] != "in"])
    l = pr["main"]["public"]
    l.insert(r.randrange(len(l) + 1), x)
def run(c, which):
    for b in c.batches(2):
        r = c.rng(b)
        cases = []
        for i in range(96):
            k = lang.gen_case(r, "bn128" if i % 3 else P[(b + i // 3) % 8],
                dict(stmts=3 + i % 5, templates=2 + i % 3, funcs=1, checks=0.2, spoil=0, buses=i % 2 == 0, parallel=i % 5 == 0), 2)
            k["args"] = LEVELS[(i + b) % len(LEVELS)]
            if which == "C14" and i % 4 == 0: spoil_public(r, k["prog"])
            cases.append(k)
        obs = art.collect(cases, bin=False)
        recs = [art.record(o, i) for i, o in enumerate(obs)]
        for k, d in zip(cases, recs): d["inps"] = [f for _, f in k["inputs"]]
        ev = art.judge(c, "Artifacts", recs)
        art.report(c, ev, obs, accept=lambda d: which in d["what"] or (d["what"] == "verdict" and (which == "C14" and d["expected"] in ("public", ""))))
        art.clean(obs)
