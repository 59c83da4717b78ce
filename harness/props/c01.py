import lang, optab, gen, fieldlaws
from circ import PRIMES
P = list(PRIMES)

def run(c):
    fieldlaws.run(c)
    for bt in c.batches(1):
        r = c.rng(bt)
        cases = []
        for prime in P:
            p = PRIMES[prime]
            vs = optab.values(p, r)
            pairs = [(x, y) for x in vs for y in vs]
            sh = [x for x in vs if x < 300 or p - x < 300]
            few = [(r.choice(vs), r.choice(sh)) for _ in range(24)] + [(x, x) for x in r.sample(vs, 6)]
            few += r.sample(pairs, len(pairs) if c.thorough and bt == 0 else 210 if prime == "bn128" else 90)
            r.shuffle(few)
            k = 6
            for i in range(0, len(few), k):
                cases.append(dict(prog=optab.folded(r, p, few[i:i + k], (i // k) % 4), inputs=[({}, {})], prime=prime))
            for op in ("/", "\\", "%"):
                for mode in range(4):
                    if prime == "bn128" or r.random() < 0.3:
                        cases.append(dict(prog=optab.divzero(r, p, r.choice(vs), op, mode), inputs=[({"a": "1"}, {"main.a": "1"})], prime=prime))
            # nested expressions over known values
            for i in range(12):
                g = gen.Gen(r, p, unknown=False, arrays=True)
                g.gen_funcs()
                main = [gen.sig("out", "o", [gen.n(12)])]
                names = []
                for j in range(4):
                    x = "x%d" % j
                    main.append(gen.var(x, (), g.anyexp([g.const] + [lambda y=y: gen.v(y) for y in names], 2))); names.append(x)
                at = [g.const] + [lambda y=y: gen.v(y) for y in names]
                for j in range(12): main.append(gen.asg("<==", gen.v("o", gen.n(j)), g.anyexp(at, 4)))
                cases.append(dict(prog=gen.prog({"M": gen.tmpl([], main)}, "M", funcs=g.funcs), inputs=[({}, {})], prime=prime))
        lang.validate(c, cases, None)
