"""Knowledge: non-quadratic constraints, unknown sizes, indexes and conditions. Valid programs changed towards them
and program soups; TLC (Static, Lang) decides acceptance and, for accepted ones, the constraints and values."""
import mutcheck
W = dict(s_wrap=6, e_wrap=5, e_index=4, d_dim=3, o_op=3, e_repl=4)
def run(c):
    for b in c.batches(3):
        r = c.rng(b)
        cs = mutcheck.cases(r, 110, "mut", dict(stmts=3, templates=2, funcs=1), W, 2)
        cs += mutcheck.cases(r, 50, "mut", dict(stmts=3, templates=1, funcs=1, buses=True), W, 2)
        cs += mutcheck.cases(r, 130, "soup", dict(unk=.6, quad=.8))
        cs += mutcheck.cases(r, 50, "soup", dict(unk=.6, quad=.8, bus=True))
        mutcheck.validate(c, cs)
