"""Verdicts on programs that may be ill-formed: circom accepts exactly what TraceLang (Static, then elaboration) accepts."""
import json, circ, conf, lang, mutate, soup, gen
CATS = {
 "C07": {"nonquad", "unkcons", "unksig", "unktmpl", "unkdim", "unkcomp"},
 "C08": {"dup", "inassign", "outassign", "notready", "unread", "incomplete", "private", "notinst", "reinst"},
 "C18": {"assert"},
}
def cat(err):
    for c, s in CATS.items():
        if err in s: return c
    return "C22" if err else ""

def cases(rnd, k, kind, opts=None, weights=None, most=2, ninputs=1):
    out = []
    for i in range(k):
        if kind == "mut":
            c = lang.gen_case(rnd, "bn128", opts or {}, ninputs if isinstance(weights, list) else 0)
            c["prog"], c["mut"] = mutate.mutant(rnd, c["prog"], rnd.randint(1, most), weights)
        elif kind == "soup": c = dict(prog=soup.Soup(rnd, **(opts or {})).program(), prime="bn128", inputs=[])
        else: c = dict(prog=soup.Names(rnd).program(), prime="bn128", inputs=[])
        c["static"] = True; c["inputs"] = c.get("inputs", [])
        if kind == "soup" and ninputs:
            p = circ.PRIMES["bn128"]
            for _ in range(ninputs):
                f = {"a": rnd.randrange(4), "b[0]": rnd.randrange(p), "b[1]": rnd.randrange(3)}
                o = {"a": str(f["a"]), "b": [str(f["b[0]"]), str(f["b[1]"])]}
                if (opts or {}).get("bus"):
                    f.update({"bi.f": 2, "bi.g[0]": 3, "bi.g[1]": 4}); o["bi"] = {"f": "2", "g": ["3", "4"]}
                c["inputs"].append((o, {"main." + a: str(b) for a, b in f.items()}))
        if kind == "names":
            for _ in range(ninputs):
                x = str(rnd.randrange(5)); c["inputs"].append(({"s": x}, {"main.s": x}))
        out.append(c)
    return out

def validate(ctx, cs, args=("--O0",), runs=True, logs=False):
    ev, obs, r = conf.check(cs, args=args, runs=runs, timeout=20, logs=logs)
    ctx.tlc(r)
    ev = list({(k, d["id"], d.get("run")): (k, d) for k, d in ev}.values())
    done = set()
    for k, d in ev:
        o = obs[d["id"]]
        done.add(d["id"])
        rep = dict(mismatch=d, source=o.src, args=list(args), exit=o.rc, output=o.out[-1500:], inputs=[x for x, _ in o.case["inputs"]])
        if k == "ERR": ctx.count("specification_gaps")
        elif k == "MIS":
            if o.rc not in (0, 1):
                # a crash or time-out is a wrong verdict only if the specification has one
                ctx.violation("the compiler %s on a program whose verdict is %r" % ("does not end" if o.rc == "timeout" else "crashes", d.get("expected", "")), rep)
            elif d["what"] == "verdict" and cat(d["expected"]) not in ("", ctx.pid): ctx.count("mismatches_of_other_properties")
            else: ctx.violation("%s: %s" % (d["what"], {a: b for a, b in d.items() if a not in ("id", "what")}), rep)
        elif k == "CASE":
            ctx.traces += 1
            if o.rc not in (0, 1) and d["err"] not in OPEN:
                ctx.violation("the compiler %s on a program whose verdict is %r" % ("does not end" if o.rc == "timeout" else "crashes", d.get("err", "")), rep)
            e = d["err"]
            ctx.count("verdict_" + ("accept" if not e else "static" if e.startswith("static") else e))
            if e and cat(e) == ctx.pid: ctx.count("rejected_for_this_property")
        elif k == "RUN": ctx.traces += 1; ctx.count("run_" + (d["err"] or "ok"))
    if len(done) != len(cs): raise circ.ToolError("TLC judged %d of %d cases" % (len(done), len(cs)))
    for o in obs[:1]: ctx.sample(o.src[:1500])
    return ev, obs
# verdicts the language leaves open: a program that does not end may exhaust the compiler
OPEN = {"dcfuel", "dcfuelu", "dcdepth", "dctdepth", "dcshadow"}
