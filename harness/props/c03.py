import lang
PRIMES = ["bn128", "bls12381", "goldilocks", "grumpkin", "pallas", "vesta", "secq256r1", "bls12377"]
def run(c):
    for b in c.batches(2):
        r = c.rng(b)
        cases = [lang.gen_case(r, "bn128" if i % 4 else PRIMES[(b + i // 4) % 8], dict(stmts=7, templates=3 + i % 2), 0) for i in range(200)]
        lang.validate(c, cases, {"verdict", "constraints"}, runs=False)
