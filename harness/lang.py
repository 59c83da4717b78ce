"""Runs generated programs through circom and TraceLang on behalf of a property."""
import random, json
import circ, gen, conf, render

def gen_case(rnd, prime, opts, ninputs=2):
    p = circ.PRIMES[prime]
    g = gen.Gen(rnd, p, **opts)
    pr = g.program()
    return dict(prog=pr, inputs=[gen.inputs_for(g.main_ins, rnd, p) for _ in range(ninputs)], prime=prime)

def validate(ctx, cases, what=None, args=("--O0",), **kw):
    """what: set of mismatch kinds that concern the property (None = all)"""
    ev, obs, r = conf.check(cases, args=args, **kw)
    ctx.tlc(r)
    ev = list({(k, d["id"], d.get("run")): (k, d) for k, d in ev}.values())
    for k, d in ev:
        if k == "MIS":
            if what is None or d["what"] in what:
                o = obs[d["id"]]
                ctx.violation("%s: %s" % (d["what"], {a: b for a, b in d.items() if a not in ("id", "what")}),
                              dict(mismatch=d, source=o.src, args=list(o.case.get("args", args)), prime=o.case.get("prime", "bn128"),
                                   inputs=[x for x, _ in o.case["inputs"]], exit=o.rc, output=o.out[-1500:]))
            else: ctx.count("mismatches_of_other_properties")
        elif k == "CASE":
            ctx.traces += 1
            ctx.count("spec_verdict_" + (d["err"] or "accept"))
            if not d["err"] and "cons" in d: ctx.count("constraints_compared", d["cons"])
        elif k == "RUN":
            ctx.traces += 1
            ctx.count("run_" + (d["err"] or "ok"))
            if "vals" in d: ctx.count("signal_values_compared", d["vals"])
    # every case must have been judged by the specification
    judged = {d["id"] for _, d in ev}
    if len(judged) != len(cases):
        raise circ.ToolError("TLC judged %d of %d cases" % (len(judged), len(cases)))
    if obs: ctx.sample(obs[0].src[:1500])
    return ev, obs
