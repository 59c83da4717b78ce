"""Accepted witnesses satisfy the emitted r1cs (Witness.tla); inputs that break a stated constraint are
refused, the others accepted (TraceLang)."""
import lang, art, conf, circ
from circ import PRIMES
P = list(PRIMES)
LEVELS = [["--O0"], ["--O1"], ["--O2"], ["--O2round", "1"], ["--O2", "--use_old_simplification_heuristics"], []]
def run(c):
    for b in c.batches(2):
        r = c.rng(b)
        cases = []
        for i in range(96):
            k = lang.gen_case(r, "bn128" if i % 3 else P[(b + i // 3) % 8],
                dict(stmts=5 + i % 4, templates=2 + i % 2, funcs=1, checks=0.4, spoil=0.15 if i % 2 else 0, asserts=True), 4)
            k["args"] = LEVELS[(i + b) % len(LEVELS)]
            cases.append(k)
        # which inputs are accepted
        lang.validate(c, cases, {"run", "verdict"}, nocons=True)
        obs = art.collect(cases)
        ev = art.judge(c, "Witness", [art.record(o, i, prog=False) for i, o in enumerate(obs)])
        art.report(c, ev, obs)
        art.clean(obs)
