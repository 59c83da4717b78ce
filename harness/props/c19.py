"""The two witness programs. Programs from the generator, operator circuits for every prime, input objects enumerated by
Inputs.tla and log statements are compiled to C++ and to WebAssembly; TraceLang (Lang.tla) judges what the C++ program did,
TraceRuns judges that both programs did the same: same acceptance, byte-identical witness file, same log."""
import hashlib, json, os, tempfile, base64
import circ, conf, cpp, gen, lang, optab, render, tlc, mutcheck
from circ import PRIMES
from . import c17
P = list(PRIMES)

def both(c, jobs):
    """jobs: dict(src, prime, args, inputs=[obj or raw]). Adds o (compilation), js, cc (runs)"""
    def comp(j):
        j["o"] = circ.compile(j["src"], list(j["args"]) + ["--r1cs", "--sym", "--wasm", "--c"], prime=j["prime"], timeout=120)
        return j["o"]
    circ.pmap(comp, jobs)
    ok = [j for j in jobs if j["o"].rc == 0]
    def bc(j):
        j["exe"], j["cerr"] = cpp.build(j["o"].dir)
        j["cc"] = cpp.run(j["exe"], j["inputs"]) if j["exe"] else []
    circ.pmap(bc, ok)
    wj = [dict(js=j["o"].dir + "/a_js", name="a", inputs=j["inputs"], bin=True) for j in ok]
    for j, r in zip(ok, circ.witnesses(wj, timeout=60, nproc=8)): j["js"] = r
    for j in jobs:
        c.count("compiled" if j["o"].rc == 0 else "rejected_by_compiler")
        if j["o"].crash: c.violation("circom crashes while it writes both witness programs (exit %s)" % j["o"].rc, dict(source=j["src"], args=j["args"], prime=j["prime"], output=j["o"].out[-800:]))
        elif j["o"].rc == 0 and not j["exe"]:
            c.violation("the generated C++ program does not build: " + j["cerr"][-300:], dict(source=j["src"], args=j["args"], prime=j["prime"], output=j["cerr"]))
    return [j for j in ok if j["exe"]]

def dig(r, js):
    if not r["ok"]: return dict(witness="", log="")
    b = base64.b64decode(r["bin"]) if js else r["bin"]
    return dict(witness=hashlib.sha1(b).hexdigest(), log="\n".join(r["log"]))

def agree(c, jobs, what):
    recs, at = [], []
    for j in jobs:
        for i, (a, b) in enumerate(zip(j["js"], j["cc"])):
            if a.get("timeout") or b.get("timeout"): c.count("timeouts"); continue
            recs.append(dict(id=len(recs), files=2, runs=[dict(how="wasm", rc=0 if a["ok"] else 1, files=dig(a, True)), dict(how="c++", rc=0 if b["ok"] else 1, files=dig(b, False))]))
            at.append((j, i))
            c.count(what + ("_accepted" if a["ok"] else "_rejected"))
    if not recs: return
    f = tempfile.NamedTemporaryFile("w", suffix=".json", dir=circ.SCRATCH, delete=False)
    json.dump(recs, f); f.close()
    t = tlc.run("TraceRuns", env=dict(CASES=f.name)); os.unlink(f.name); c.tlc(t)
    done = 0
    for k, d in map(tlc.parse, t.lines):
        if k == "DONE": done += 1; c.traces += 1
        if k != "MIS": continue
        j, i = at[d["id"]]
        a, b = j["js"][i], j["cc"][i]
        key = j.get("key")
        c.violation("the WebAssembly and C++ programs disagree: %s%s; wasm %s, C++ %s" % (d["what"], (" " + d.get("which", "")), "accepts" if a["ok"] else "rejects (%s)" % a["err"][:80], "accepts" if b["ok"] else "rejects (exit %s %s)" % (b.get("rc"), b["err"][:80])),
                    dict(source=j["src"], prime=j["prime"], args=j["args"], input=j["inputs"][i], wasm=dict(a, bin=None), cpp=dict(b, bin=None)), key)
    for j in jobs:
        for i, b in enumerate(j["cc"]):
            if b["err"].startswith("FILE") if not b["ok"] else False:
                c.violation("the C++ program fails but leaves a witness file", dict(source=j["src"], input=j["inputs"][i]))

def judge(c, jobs):
    """Lang.tla decides what the C++ program may do"""
    tr = []
    for n, j in enumerate(jobs):
        o = conf.Obs(); o.case, o.acc, o.dir, o.src = j["case"], True, j["o"].dir, j["src"]
        try: o.r1cs = circ.read_r1cs(o.dir + "/a.r1cs"); o.sym = circ.read_sym(o.dir + "/a.sym")
        except (OSError, ValueError, KeyError, IndexError, circ.struct.error): continue
        tr.append(conf.to_trace(o, n, j["prime"], j["cc"], logs=True, nocons=True))
    ev, r = conf.judge(tr)
    c.tlc(r)
    for k, d in ev:
        if k == "RUN": c.traces += 1; c.count("cpp_run_" + (d["err"] or "ok"))
        if k == "MIS":
            j = jobs[d["id"]]
            c.violation("the C++ program against the specification: %s %s" % (d["what"], {a: b for a, b in d.items() if a not in ("id", "what")}),
                        dict(source=j["src"], prime=j["prime"], args=j["args"], inputs=j["inputs"], mismatch=d))

def clean(jobs):
    for j in jobs: circ.shutil.rmtree(j["o"].dir, ignore_errors=True)

STR = ["100%d %s %%", "a\\nb", "a\\b", "a\\\\", "x\\41y", "\u00e9 \u221e \U0001f600", "y" * 238 + "\u00e9" * 5, "y" * 229 + "\u00e9z", "\u221e" * 90, "http://x/*y*/", "#", "a\tb", " a ", "it's", "??/x", "a;;b", "x" * 300, "\\u{41}", "\\x41", "\\0", "%n",
       "\\101", "\\'", "q\\", "\\t|\\r", "/* c */ // d", "\\e", "", "\\n"]
def logprog(r, ss):
    body = []
    for s in ss:
        args = ['"%s"' % s]
        for _ in range(r.randint(0, 2)): args.insert(r.randint(0, len(args)), r.choice(["a", "a*a+1", "0-1", '"t"', "2"]))
        body.append("log(%s);" % ", ".join(args))
    return "pragma circom 2.0.0;\ntemplate A() { signal input a; signal output b; b <== a; log(); %s }\ncomponent main = A();\n" % " ".join(body)

def run(c):
    for b in c.batches(1):
        r = c.rng(b)
        # programs
        jobs = []
        for i in range(64):
            prime = "bn128" if i % 4 else P[(b + i // 4) % 8]
            o = [dict(stmts=6, templates=3, funcs=2, logs=True), dict(stmts=5, templates=3, funcs=1, buses=True, logs=True), dict(stmts=5, templates=3, funcs=1, parallel=True),
                 dict(stmts=4, templates=2, funcs=2, asserts=True, checks=.3, logs=True), dict(stmts=5, templates=4, funcs=1, buses=True, parallel=True)][i % 5]
            case = lang.gen_case(r, prime, o, 3)
            args = [r.choice(["--O0", "--O1", "--O2"])]
            if r.random() < .2: args.append("--no_asm")
            jobs.append(dict(case=case, src=render.program(case["prog"]), prime=prime, args=args, inputs=[x for x, _ in case["inputs"]]))
        ok = both(c, jobs); agree(c, ok, "programs"); judge(c, ok); clean(jobs)
        # operators
        jobs = []
        for prime in P:
            p = PRIMES[prime]; vs = optab.values(p, r)
            for k in range(3 if prime == "bn128" else 2):
                ops = list(optab.OPS); r.shuffle(ops)
                pr = optab.runtime(r, p, ops[:12], [r.choice(vs), r.choice(vs)])
                ins = []
                for _ in range(14):
                    x, y = r.choice(vs), r.choice(vs)
                    ins.append(({"a": str(x), "b": str(y), "one": "1"}, {"main.a": str(x), "main.b": str(y), "main.one": "1"}))
                jobs.append(dict(case=dict(prog=pr, inputs=ins[:3]), src=render.program(pr), prime=prime, args=["--O0"] + (["--no_asm"] if k == 1 else []), inputs=[x for x, _ in ins]))
        ok = both(c, jobs); agree(c, ok, "operators"); judge(c, ok); clean(jobs)
        # input objects
        ifs = [(ds, 1) for ds, dev in c17.IFACES] if b == 0 else []
        while len(ifs) < 24:
            ds = c17.rand_iface(r)
            if 0 < c17.size(ds) <= 24: ifs.append((ds, 1))
        ifs.append(([c17.D("p", [2], [c17.D("f%d" % k, [2] if k % 3 == 0 else []) for k in range(14)])], 1))
        inputs(c, r, ifs, "bn128" if b == 0 else r.choice(P))
        inputs(c, r, ifs[1:6], "goldilocks")
        # logs
        jobs = []
        for s in STR:
            jobs.append(dict(src=logprog(r, [s]), prime="bn128", args=[], inputs=[{"a": "7"}], key="lone-newline" if s == "\\n" else None))
        for _ in range(8): jobs.append(dict(src=logprog(r, r.sample([s for s in STR if s != "\\n"], 6)), prime=r.choice(P), args=[], inputs=[{"a": str(r.randrange(9))}]))
        ok = both(c, jobs)
        for j in jobs:
            if j["o"].rc: c.violation("log string not compiled", dict(source=j["src"], output=j["o"].out[-500:]))
        agree(c, ok, "logs")
        # a witness file that cannot be written
        for j in ok[:2]:
            q = os.path.join(j["o"].dir, "in.json"); open(q, "w").write('{"a":"7"}')
            for out in ("/dev/full", os.path.join(j["o"].dir, "absent", "w.wtns")):
                for how, cmd in (("C++", [j["exe"], q, out]), ("WebAssembly", ["node", j["o"].dir + "/a_js/generate_witness.js", j["o"].dir + "/a_js/a.wasm", q, out])):
                    c.count("unwritable")
                    if cpp.sh(cmd, j["o"].dir)[0] == 0: c.violation("the %s program exits 0 though %s could not be written" % (how, out), dict(source=j["src"], output=out))
        clean(jobs)

def inputs(c, r, ifs, prime):
    p = PRIMES[prime]; tab = c17.table(p, r)
    f = tempfile.NamedTemporaryFile("w", suffix=".json", dir=circ.SCRATCH, delete=False)
    json.dump(dict(ifaces=[dict(id=i, decls=ds, dev=dev) for i, (ds, dev) in enumerate(ifs)], values=[dict(v=str(v)) for _, v in tab], p=str(p)), f); f.close()
    t = tlc.run("Inputs", env=dict(CASES=f.name)); os.unlink(f.name); c.tlc(t)
    objs = [[] for _ in ifs]
    for l in t.lines:
        k, o = tlc.parse(l); objs[o["f"]].append(o)
    jobs = []
    for i, (ds, _) in enumerate(ifs):
        os_ = sorted(objs[i], key=lambda x: json.dumps(x, sort_keys=True))
        if len(os_) > 40: os_ = [o for o in os_ if not o["err"]][:12] + r.sample(os_, 28)
        jobs.append(dict(src=c17.source(ds), prime=prime, args=["--O0"], objs=os_, inputs=[dict(raw=c17.obj_text(o["obj"], tab, c17.BAD[k % len(c17.BAD)])) for k, o in enumerate(os_)]))
    ok = both(c, jobs)
    for j in ok:
        sym = {q[3]: q[1] for q in circ.read_sym(os.path.join(j["o"].dir, "a.sym"))}
        for txt, o, g in zip(j["inputs"], j["objs"], j["cc"]):
            rep = dict(source=j["src"], prime=prime, input=txt["raw"], expected=dict(error=o["err"], values=o["vals"]), observed=dict(g, bin=None))
            c.traces += 1
            if g["ok"] != (o["err"] == ""):
                c.violation("C++: input object %s but %s" % ("accepted" if g["ok"] else "rejected (exit %s, %s)" % (g.get("rc"), g["err"][:120]), "the protocol rejects it (%s)" % o["err"] if o["err"] else "it gives every input"), rep)
            elif g["ok"]:
                bad = [(v["n"], v["v"], g["w"][sym["main." + v["n"]]]) for v in o["vals"] if g["w"][sym["main." + v["n"]]] != str(v["v"])]
                if bad: c.violation("C++: %s is %s instead of %s" % (bad[0][0], bad[0][2], bad[0][1]), rep)
    agree(c, ok, "objects"); clean(jobs)
