"""Static and elaboration-time well-formedness: names, scopes, arities, types, dimensions, returns, indexes.
Valid programs with one or two small faults, and soups of names; TLC (Static, Lang) decides acceptance, and for accepted
programs the constraints and values (which variable a shadowed name refers to)."""
import copy, os, circ, mutcheck, soup
W = dict(s_ret=3, s_move=3, s_copy=3, e_index=4, e_field=4, e_name=6, e_args=5, e_unwrap=3, e_repl=3, d_dim=4, d_kind=3, d_new=4, p_param=3, m_main=3, b_bus=4)
def run(c):
    for b in c.batches(2):
        r = c.rng(b)
        cs = mutcheck.cases(r, 120, "mut", dict(stmts=3, templates=2, funcs=2), W, 2)
        cs += mutcheck.cases(r, 80, "mut", dict(stmts=3, templates=2, funcs=1, buses=True), W, 2)
        cs += mutcheck.cases(r, 160, "names")
        mutcheck.validate(c, cs)
        kinds(c, r, 600 if not c.thorough else 100000)
        if len(c.violations) >= 5: return
    fixed(c)

def kinds(c, r, most):
    """every kind of value in every place"""
    K = soup.Kinds(r); todo = K.all()
    if most < len(todo): todo = r.sample(todo, most)
    for i in range(0, len(todo), 400):
        mutcheck.validate(c, [dict(prog=K.program(pl, copy.deepcopy(K.operands()[j])), prime="bn128", inputs=[], static=True) for pl, j in todo[i:i + 400]])
        if len(c.violations) >= 5: return

HEAD = """pragma circom 2.1.9;
template A() { signal input i; signal output o; o <== i * 2; }
template B() { signal input j[2]; signal output o[2]; o <== j; }
template M() { signal input in; signal output out; %s }
component main = M();
"""
# names declared in different blocks are different names (static scoping); in = 3; (key, body, documented value of out)
BLOCKS = [
 ("var-in-sig", "signal x; x <== 7; if (1) { var x = 5; out <== x; }", 5),
 ("var-in-comp", "component x = A(); x.i <== 7; if (1) { var x = 5; out <== x; }", 5),
 ("sig-in-comp", "component x = A(); x.i <== 7; if (1) { signal x; x <== 5; out <== x; }", 5),
 ("sig-in-var", "var x = 7; if (1) { signal x; x <== 5; out <== x; }", 5),
 ("comp-in-var", "var x = 7; if (1) { component x = A(); x.i <== 5; out <== x.o; }", 10),
 ("comp-in-sig", "signal x; x <== 7; if (1) { component x = A(); x.i <== 5; out <== x.o; }", 10),
 ("sig-sig-siblings", "if (1) { signal x; x <== in; out <== x; } if (1) { signal x; x <== 2; }", 3),
 ("comp-comp-siblings", "if (1) { component x = A(); x.i <== in; out <== x.o; } if (1) { component x = A(); x.i <== in; }", 6),
 ("comp-sig-siblings", "if (1) { component x = A(); x.i <== in; out <== x.o; } if (1) { signal x; x <== in; }", 6),
 ("branches-templates", "if (1) { component x = A(); x.i <== in; out <== x.o; } else { component x = B(); x.j <== [in, in]; out <== x.o[0]; }", 6),
 ("branches-comp-sig", "if (1) { component x = A(); x.i <== in; out <== x.o; } else { signal x[2]; x <== [in, in]; out <== x[0]; }", 6),
 # these are as documented
 ("var-var", "var x = 7; if (1) { var x = 5; x = 6; } out <== x;", 7),
 ("var-after-sig", "if (1) { signal x; x <== in; out <== x; } if (1) { var x; x = 3; }", 3),
 ("sig-after-var", "if (1) { var x; x = 3; } if (1) { signal x; x <== in; out <== x; }", 3),
 ("branches-sig-sig", "if (0) { signal x; x <== in; out <== x; } else { signal x[2]; x <== [in, 4]; out <== x[0] + x[1]; }", 7),
 ("branches-comp-comp", "if (1) { component x = A(); x.i <== in; out <== x.o; } else { component x = A(); x.i <== in + 1; out <== x.o; }", 6),
]
def fixed(c):
    rs = circ.pmap(lambda k: circ.compile(HEAD % k[1], ["--O1", "--wasm", "--sym"], timeout=20), BLOCKS)
    ok = [i for i, r in enumerate(rs) if r.rc == 0]
    ws = circ.witnesses([dict(js=os.path.join(rs[i].dir, "a_js"), name="a", inputs=[{"in": "3"}]) for i in ok])
    got = {i: w[0]["w"][1] if w[0]["ok"] else "none: " + w[0]["err"][:200] for i, w in zip(ok, ws)}
    for i, (key, body, val) in enumerate(BLOCKS):
        c.traces += 1; c.count("fixed_scope_programs")
        obs = got.get(i)
        if obs is None or str(obs) != str(val):
            c.violation("names of blocks: out is %s instead of %d (exit %s)" % (obs, val, rs[i].rc), dict(source=HEAD % body, output=rs[i].out[-800:]), key=key)
