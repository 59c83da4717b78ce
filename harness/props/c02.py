import lang, optab, fieldlaws
from circ import PRIMES
P = list(PRIMES)

def run(c):
    fieldlaws.run(c)
    for bt in c.batches(1):
        r = c.rng(bt)
        cases = []
        for prime in P:
            p = PRIMES[prime]
            vs = optab.values(p, r)
            sh = [x for x in vs if x < 300 or p - x < 300]
            for chunk in range(5 if prime == "bn128" else 3):
                ops = [optab.OPS[i] for i in range(len(optab.OPS))]
                K = r.sample(vs, 2) + [r.choice(sh)]
                pr = optab.runtime(r, p, ops, K)
                pairs = [(r.choice(vs), r.choice(vs)) for _ in range(14)] + [(r.choice(vs), r.choice(sh)) for _ in range(5)] + [(x, x) for x in r.sample(vs, 2)]
                ins = []
                for x, y in pairs:
                    d = dict(a=str(x), b=str(y), one="1")
                    ins.append((d, {"main." + k: w for k, w in d.items()}))
                cases.append(dict(prog=pr, inputs=ins, prime=prime))
        lang.validate(c, cases, None, nocons=True)
