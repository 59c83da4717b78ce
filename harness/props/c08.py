"""Single assignment: double, missing, misplaced assignments of signals, buses, components. Valid programs with statements
deleted, duplicated, moved or put under conditions, and program soups; TLC (Static, Lang) decides acceptance."""
import mutcheck, soup
W = dict(s_del=5, s_dup=4, s_move=4, s_wrap=3, s_else=4, q_kind=3, o_op=2, e_unwrap=1)
def run(c):
    for b in c.batches(3):
        r = c.rng(b)
        cs = mutcheck.cases(r, 70, "mut", dict(stmts=3, templates=3, funcs=0), W, 2)
        cs += mutcheck.cases(r, 50, "mut", dict(stmts=3, templates=2, funcs=0, buses=True), W, 2)
        cs += mutcheck.cases(r, 120, "soup", dict(unk=.25))
        cs += mutcheck.cases(r, 100, "soup", dict(unk=.25, bus=True))
        mutcheck.validate(c, cs)
        # one wire at the leaves of conditionals: all small trees for an output, a part of them for the other wires
        F = soup.Forest(r)
        flat, nested = F.small()
        kinds = [k for k in F.KINDS if k != "out"]
        cs = []
        if b == 0: cs += [F.program(x, "out") for x in flat + r.sample(nested, 250)]
        cs += [F.program(r.choice(r.choice([flat, nested])), r.choice(kinds)) for _ in range(80)]
        cs += [F.program(F.rand(), r.choice(F.KINDS), False) for _ in range(100)]
        mutcheck.validate(c, [dict(prog=x, prime="bn128", inputs=[], static=True) for x in cs])
