import lang
from circ import PRIMES
P = list(PRIMES)
def run(c):
    for b in c.batches(2):
        r = c.rng(b)
        cases = [lang.gen_case(r, "bn128" if i % 4 else P[(b + i // 4) % 8], dict(stmts=6 + i % 4, templates=3 + i % 2, funcs=1, parallel=i % 5 == 0), 2) for i in range(120)]
        lang.validate(c, cases, {"verdict", "values", "run"}, nocons=True)
