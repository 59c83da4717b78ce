"""Programs over random buses: verdict, constraints and values (TraceLang), layout of wires (Artifacts)."""
import lang, art
from circ import PRIMES
P = list(PRIMES)
def run(c):
    for b in c.batches(2):
        r = c.rng(b)
        cases = [lang.gen_case(r, "bn128" if i % 4 else P[(b + i // 4) % 8],
                    dict(buses=True, busrate=0.8, stmts=5 + i % 4, templates=2 + i % 3, funcs=1, parallel=i % 5 == 0, checks=0.2 if i % 3 == 0 else 0, spoil=0.3), 2) for i in range(80)]
        lang.validate(c, cases)
        for i, k in enumerate(cases): k["args"] = [["--O0"], ["--O1"], ["--O2"]][i % 3]
        obs = art.collect(cases[:30], bin=False)
        recs = [art.record(o, i) for i, o in enumerate(obs)]
        for k, d in zip(cases, recs): d["inps"] = [f for _, f in k["inputs"]]
        ev = art.judge(c, "Artifacts", recs)
        art.report(c, ev, obs, accept=lambda d: "C14" in d["what"] or d["what"] == "verdict")
        art.clean(obs)
