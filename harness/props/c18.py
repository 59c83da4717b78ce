"""Asserts and `===`: known false ones make compilation fail, the others witness computation fail exactly on the inputs
for which they are false; neither changes constraints or values. TLC (TraceLang) executes programs into which asserts and
checks were inserted anywhere (templates, functions, loops, branches), at each --sanity_check level."""
import mutcheck
ONLY = ["s_assert"]
def run(c):
    for b in c.batches(2):
        r = c.rng(b)
        cs = []
        for o, k in ((dict(stmts=3, templates=2, funcs=2, asserts=True, checks=.3), 70), (dict(stmts=2, templates=1, funcs=3, vars=2), 70),
                     (dict(stmts=3, templates=2, funcs=1, buses=True, checks=.3), 40), (dict(stmts=3, templates=2, funcs=1), 70)):
            cs += mutcheck.cases(r, k, "mut", o, ONLY, 3, 5)
        for i, k in enumerate(cs):
            level = i % 4
            k["args"] = ["--O0"] + (["--sanity_check", str(level)] if level != 2 or i % 8 else [])
            if level == 0: k["prog"]["nochecks"] = True
        mutcheck.validate(c, cs)
