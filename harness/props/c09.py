import lang, mutcheck
from circ import PRIMES
P = list(PRIMES)
def run(c):
    for b in c.batches(2):
        r = c.rng(b)
        cases = []
        for i in range(180):
            o = dict(stmts=3, templates=1 + i % 2, funcs=3, vars=3, comparr=False, logs=i % 3 == 0)
            cases.append(lang.gen_case(r, "bn128" if i % 4 else P[(b + i // 4) % 8], o, 3))
        lang.validate(c, cases, None, logs=True)
        # logs anywhere, also in functions whose results are known
        cs = mutcheck.cases(r, 60, "mut", dict(stmts=2, templates=1, funcs=3, vars=2), ["s_log"], 4, 3)
        mutcheck.validate(c, cs, logs=True)
