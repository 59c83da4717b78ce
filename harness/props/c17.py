"""Inputs.tla enumerates input objects (canonical, regrouped, and with deviations) for a set of main interfaces and runs the
input protocol on each; every object is replayed in the generated WebAssembly program through its witness_calculator.js, and
some through generate_witness.js: accepted exactly when the protocol accepts, and then every element of every input has the
value given to it."""
import json, os, subprocess, tempfile
import circ, tlc
def D(n, d=(), fs=()): return dict(n=n, d=list(d), fs=list(fs))
XY = [D("x"), D("y", [2])]
IFACES = [
  ([D("a")], 2), ([D("a"), D("b")], 2), ([D("a", [3])], 2), ([D("a", [2, 3]), D("b")], 2), ([D("a", [1]), D("b", [2, 1, 2])], 1),
  ([D("z", [0]), D("b")], 2), ([D("b", [2]), D("z", [2, 0])], 1), ([D("p", [], XY)], 2), ([D("p", [2], XY), D("q")], 1),
  ([D("p", [2, 2], [D("v")])], 2), ([D("n", [], [D("in", [2], XY), D("w")]), D("b", [2])], 1), ([D("n", [], [D("in", [], [D("x", [2, 2])])])], 2),
  ([D("z", [0])], 1), ([D("z", [2, 0]), D("y", [0])], 1),
  ([D("p", [3], [D("x", [1]), D("z", [0])])], 1), ([], 1), ([D("p", [51], [D(x) for x in "vwxyz"])], 1), ([D("p", [15, 17])], 1),
]
# (text as it stands in the JSON file, value)
def table(p, rnd):
    t = [("7", 7), ('"11"', 11), ('"0x1F"', 31), ("0", 0), ('"%d"' % (p - 1), p - 1), ('"%d"' % (p + 5), p + 5), ('"0xABCdef0123456789"', 0xABCdef0123456789),
         ('"%d"' % (2 ** 300 + 17), 2 ** 300 + 17), ("4294967295", 4294967295), ('"0X10"', 16), ('"00012"', 12), ("4503599627370497", 4503599627370497),
         ('"%s"' % hex(p), p), ('"%s"' % hex(p * 3 + 2), 3 * p + 2), ('"0x0"', 0), ('"-5"', -5), ("-3", -3), ('"0b101"', 5), ('"0O17"', 15), ("1e3", 1000), ("2.0", 2), ('"-0"', 0)]
    for _ in range(8):
        v = rnd.getrandbits(rnd.choice([8, 31, 32, 33, 63, 64, 65, 127, 200, 253, 254, 256]))
        t.append(('"%d"' % v if rnd.random() < .5 else '"%s"' % hex(v), v))
    rnd.shuffle(t)
    return t
BAD = ['"abc"', '"12a"', '"0xg"', '"1.5"', "1.5", "null", '"--1"', '"1e3"', '""', '" 7"', '"+5"', '"-"', '"0x"', '"-0x5"', '"0b2"', '"0o8"', "true", '"7n"', '"1_0"', "-0.5"]
def text(v, tab, bad):
    if v["t"] == "n": return tab[(v["x"] - 1) % len(tab)][0]
    if v["t"] == "bad": return bad
    if v["t"] == "a": return "[" + ",".join(text(e, tab, bad) for e in v["es"]) + "]"
    return obj_text(v["fs"], tab, bad)
def obj_text(fs, tab, bad): return "{" + ",".join("%s:%s" % (json.dumps(f["k"]), text(f["v"], tab, bad)) for f in fs) + "}"
def dims(d): return "".join("[%d]" % k for k in d)
def source(decls):
    buses = []
    def bus(fs):
        body = []
        for f in fs:
            body.append(("%s() %s%s;" % (bus(f["fs"]), f["n"], dims(f["d"]))) if f["fs"] else "signal %s%s;" % (f["n"], dims(f["d"])))
        buses.append("bus B%d() { %s }" % (len(buses), " ".join(body)))
        return "B%d" % (len(buses) - 1)
    ins = " ".join(("input %s() %s%s;" % (bus(d["fs"]), d["n"], dims(d["d"]))) if d["fs"] else "signal input %s%s;" % (d["n"], dims(d["d"])) for d in decls)
    return "pragma circom 2.1.9;\n%s\ntemplate M() { %s signal output out; out <== 1; }\ncomponent main = M();\n" % ("\n".join(buses), ins)
def rand_iface(r, names="abcde"):
    def decl(n, depth):
        d = [r.choice([1, 2, 2, 3, 0]) for _ in range(r.choice([0, 0, 1, 1, 2, 3]))]
        fs = [decl(f, depth + 1) for f in "xyz"[:r.randint(1, 3)]] if depth < 2 and r.random() < .35 else []
        if depth and d.count(0) and r.random() < .7: d = [2]
        return D(n, d, fs)
    return [decl(n, 0) for n in names[:r.randint(1, 3)]]
def size(ds):
    k = 0
    for d in ds:
        n = 1
        for x in d["d"]: n *= x
        k += n * (size(d["fs"]) if d["fs"] else 1)
    return k

def run(c):
    for b in c.batches(1):
        r = c.rng(b)
        ifs = list(IFACES) if b == 0 else []
        while len(ifs) < (26 if not c.thorough else 40):
            ds = rand_iface(r)
            if 0 < size(ds) <= 24: ifs.append((ds, 1))
        n = 40
        names = []
        while len(names) < n:
            x = "".join(r.choice("abcdefghijklmnopqrstuvwxyz_ABC0123456789") for _ in range(r.randint(1, 9)))
            if x[0].isalpha() and x not in names and x not in ("in", "var", "bus", "log", "if", "for", "do", "main", "out", "while", "else", "input", "return"): names.append(x)
        ifs.append(([D(x, [r.choice([1, 2])] if r.random() < .3 else []) for x in names], 1))
        prime = r.choice([q for q in circ.PRIMES if q not in ("goldilocks",)] + ["bn128"]) if b else "bn128"
        batch(c, r, ifs, prime)
        batch(c, r, [(rand_iface(r), 1), ([D("a", [2]), D("b")], 2)], "goldilocks")

def batch(c, r, ifs, prime):
    p = circ.PRIMES[prime]
    tab = table(p, r)
    f = tempfile.NamedTemporaryFile("w", suffix=".json", dir=circ.SCRATCH, delete=False)
    json.dump(dict(ifaces=[dict(id=i, decls=ds, dev=dev) for i, (ds, dev) in enumerate(ifs)], values=[dict(v=str(v)) for _, v in tab], p=str(p)), f); f.close()
    t = tlc.run("Inputs", env=dict(CASES=f.name))
    os.unlink(f.name)
    c.tlc(t)
    objs = [[] for _ in ifs]
    for l in t.lines:
        k, o = tlc.parse(l)
        objs[o["f"]].append(o)
    for o in objs: o.sort(key=lambda x: json.dumps(x, sort_keys=True))
    rs = circ.pmap(lambda i: circ.compile(source(ifs[i][0]), ["--O0", "--wasm", "--sym"], prime=prime), range(len(ifs)))
    jobs, meta = [], []
    for i, x in enumerate(rs):
        if x.rc != 0:
            c.violation("main with these inputs does not compile: " + x.out[-300:], dict(source=source(ifs[i][0]), output=x.out)); continue
        texts = []
        for k, o in enumerate(objs[i]):
            texts.append(obj_text(o["obj"], tab, BAD[k % len(BAD)]))
        sym = {q[3]: q[1] for q in circ.read_sym(os.path.join(x.dir, "a.sym"))}
        for a in range(0, len(texts), 60):
            jobs.append(dict(js=os.path.join(x.dir, "a_js"), name="a", inputs=[dict(raw=q) for q in texts[a:a + 60]])); meta.append((i, sym, texts[a:a + 60], objs[i][a:a + 60]))
    for (i, sym, texts, os_), runs in zip(meta, circ.witnesses(jobs, nproc=8)):
        for txt, o, g in zip(texts, os_, runs):
            c.traces += 1
            c.count("objects_" + (o["err"] or "accepted"))
            rep = dict(source=source(ifs[i][0]), prime=prime, input=txt, expected=dict(error=o["err"], values=o["vals"]), observed=g)
            if g["ok"] != (o["err"] == ""):
                c.violation("input object %s but %s" % ("accepted" if g["ok"] else "rejected (%s)" % g["err"][:120], "the protocol rejects it (%s)" % o["err"] if o["err"] else "it gives every input"), rep)
            elif g["ok"]:
                bad = [(v["n"], v["v"], g["w"][sym["main." + v["n"]]]) for v in o["vals"] if str(g["w"][sym["main." + v["n"]]]) != str(v["v"])]
                if bad: c.violation("%s is %s instead of %s" % (bad[0][0], bad[0][2], bad[0][1]), rep)
        if len(c.violations) >= 5: return
    cli = []
    for i, x in enumerate(rs):
        if x.rc != 0: continue
        for err in sorted({o["err"] for o in objs[i]}):
            cand = [o for o in objs[i] if o["err"] == err]
            if r.random() < .5: cli.append((x, i, err, r.choice(cand)))
    def go(a):
        k, (x, i, err, o) = a
        q = os.path.join(x.dir, "in%d.json" % k); w = os.path.join(x.dir, "out%d.wtns" % k)
        open(q, "w").write(obj_text(o["obj"], tab, BAD[k % len(BAD)]))
        pr = subprocess.run(["node", os.path.join(x.dir, "a_js", "generate_witness.js"), os.path.join(x.dir, "a_js", "a.wasm"), q, w], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
        return pr.returncode, os.path.exists(w), pr.stdout.decode("utf8", "replace"), (circ.read_wtns(w) if os.path.exists(w) else None)
    for (k, (x, i, err, o)), (rc, ex, out, w) in zip(enumerate(cli), circ.pmap(go, list(enumerate(cli)))):
        c.count("generate_witness_runs")
        rep = dict(source=source(ifs[i][0]), prime=prime, input=obj_text(o["obj"], tab, BAD[k % len(BAD)]), expected=err, output=out[-600:])
        if err and (rc == 0 or ex): c.violation("generate_witness.js: exit %d, witness file %s, for an input the protocol rejects (%s)" % (rc, "written" if ex else "not written", err), rep)
        elif not err and (rc != 0 or not ex): c.violation("generate_witness.js fails on a complete input", rep)
        elif not err:
            sym = {q[3]: q[1] for q in circ.read_sym(os.path.join(x.dir, "a.sym"))}
            bad = [v["n"] for v in o["vals"] if w["w"][sym["main." + v["n"]]] != int(v["v"]) ]
            if bad or w["prime"] != p or w["trailing"] or w["n"] != len(w["w"]): c.violation("generate_witness.js: wrong file (%s)" % bad[:3], rep)
