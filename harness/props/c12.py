"""Tags.tla builds bodies of a main template statement by statement (signals, arrays, buses with tags; assignments; values of
tags; components that require, pass on, read and set tags) and gives each its verdict and the constants its reads of tags
have; every behaviour is replayed as a program: accepted exactly when the machine accepts, every read the constant it says."""
import json, os, shutil, tempfile
import circ, tlc
from concurrent.futures import ThreadPoolExecutor
# name: targets, components, components present from the start
THEMES = {
  "sig": ("s w n", "s1 h1 v1", "s1"), "arr": ("s a an", "s1 s2 h1 t1", "s1 h1"), "comp": ("s w a", "s1 h1 p1 v1 t1 d1 e1", "s1"),
  "bus": ("b bn", "bs bp bv s1", "bs"), "buses": ("b bb", "bs s1", "bs s1"), "nest": ("c cn b", "bs cp s1", "bs s1"),
  "fill": ("s a an", "s1 h1 n1", "s1 h1 n1"), "fillb": ("b bb", "bs nb", "bs nb"), "fillf": ("b bn", "bs nb s1", "bs nb s1"),
  "all": (" ".join("s w n a an b bn bb c cn".split()), "s1 s2 h1 p1 v1 t1 d1 bs bp bv cp", "s1 bs") }
def theme(n, **kw):
    t, cs, st = THEMES[n]
    return dict(dict(theme="some", targets=t.split(), comps=cs.split(), start=st.split(), tpl=False, only=[]), **kw)

FILL = [("fill", "a,a 0,a 1"), ("fill", "an,an 0,an 1"), ("fillb", "bb,bb 0,bb 1"), ("fillb", "bb 0 f,bb 1 f,bb f,bb"), ("fillf", "b f,b g,b")]
def ref(r):
    return "".join("[%s]" % x if x in "01" else ("." if i else "") + x for i, x in enumerate(r))
def expr(e):
    k = e["k"]
    if k == "num": return str(e["n"])
    if k == "ref": return ref(e["r"])
    if k == "cref": return e["c"] + "." + ref(e["r"])
    if k == "plus": return expr(e["e"]) + " + 1"
    if k == "arr": return "[" + ", ".join(map(expr, e["es"])) + "]"
    if k == "var": return e["v"]
    if k == "tag": return "%s.%s + %d" % (ref(e["r"]), e["t"], e["n"])
def stmt(op, n):
    """n: number of reads before -> (text, reads after)"""
    k = op["k"]
    if k == "asg": return "%s %s %s;" % (ref(op["r"]), op["op"], expr(op["e"])), n
    if k == "in": return "%s.%s %s %s;" % (op["c"], ref(op["r"]), op["op"], expr(op["e"])), n
    if k == "comp": return "component %s = %s();" % (op["c"], op["tpl"]), n
    if k == "let": return "%s = %s;" % (op["v"], expr(op["e"])), n
    if k == "elem": return "%s[1] = %s;" % (op["v"], expr(op["e"])), n
    if k == "set":
        s = "%s.%s = %s;" % (ref(op["r"]), op["t"], expr(op["e"]))
        return ("if (x == 1) { %s }" % s if op["unk"] else s), n
    if k == "setc": return "%s.%s.%s = 3;" % (op["c"], ref(op["r"]), op["t"]), n
    if k == "read": return "signal output r%d; r%d <== %s%s.%s;" % (n, n, op["c"] + "." if op["c"] else "", ref(op["r"]), op["t"]), n + 1
def decl(x):
    tags = " {%s}" % ", ".join(x["tags"]) if x["tags"] else ""
    d = "[%d]" % x["d"] if x["d"] else ""
    io = {"in": "input ", "out": "output ", "mid": "", "field": ""}[x["k"]]
    if x["ty"] == "sig": return "signal %s%s%s%s;" % (io, tags + " " if tags else "", x["n"], d)
    return "%s%s()%s %s%s;" % (io, x["ty"], tags, x["n"], d)
def body(ops):
    n, out = 0, []
    for op in ops:
        s, n = stmt(op, n); out.append("    " + s)
    return "\n".join(out)
def prelude(t, names=None):
    s = "pragma circom 2.1.9;\n"
    for b, fs in t["b"].items(): s += "bus %s() { %s }\n" % (b, " ".join(decl(f) for f in sorted(fs, key=lambda f: f["n"])))
    for n, x in t["t"].items():
        s += "template %s() {\n    %s\n%s\n}\n" % (n, " ".join(decl(d) for d in sorted(x["ds"], key=lambda d: (d["k"], d["n"]))), body(x["body"]))
    return s
def main_template(t, name, ops):
    return "template %s() {\n    %s\n    var v; var va[2];\n%s\n}\n" % (name, " ".join(decl(d) for d in sorted(t["m"], key=lambda d: (d["k"], d["n"]))), body(ops))
def single(t, o): return prelude(t) + main_template(t, "M", o["ops"] + o["obs"]) + "component main = M();\n"
def group(t, os_):
    s = prelude(t) + "".join(main_template(t, "M%d" % i, o["ops"] + o["obs"]) for i, o in enumerate(os_))
    s += "template Main() {\n    signal input x; signal input xs[2];\n"
    for i in range(len(os_)): s += "    component m%d = M%d(); m%d.x <== x; m%d.xs <== xs;\n" % (i, i, i, i)
    return s + "}\ncomponent main = Main();\n"
def wanted(o, pre):
    w = {"%s.r%d" % (pre, i): v for i, v in enumerate(o["rd"])}
    for q in o["cs"]: w.update({"%s.%s.r%d" % (pre, q["c"], i): v for i, v in enumerate(q["rd"])})
    return w
def constants(d, p):
    """name -> constant it is constrained to"""
    lab = {}
    for q in circ.read_sym(os.path.join(d, "a.sym")): lab.setdefault(q[1], []).append(q[3])
    res = {}
    for a, b, cc in json.load(open(os.path.join(d, "a_constraints.json")))["constraints"]:
        ws = [k for k in cc if k != "0"]
        if not a and not b and len(ws) == 1:
            v = -int(cc.get("0", "0")) * pow(int(cc[ws[0]]), -1, p) % p
            for n in lab.get(int(ws[0]), []): res[n] = v
    return res
def judge(o, x, pre, p, consts=None):
    """None, or what is wrong"""
    if o["err"]:
        if x.rc == 0: return "accepted, but the tag rules reject it (%s)" % o["err"]
        if x.rc != 1: return "no verdict (exit %s): %s" % (x.rc, x.out[-200:])
        return None
    if x.rc: return "rejected (exit %s), but the tag rules accept it: %s" % (x.rc, x.out[-300:])
    cs = consts if consts is not None else constants(x.dir, p)
    for n, v in wanted(o, pre).items():
        if cs.get(n) != v: return "%s reads the tag value %s instead of %s" % (n, cs.get(n), v)
    return None

def gen(cfg, seed, num):
    f = tempfile.NamedTemporaryFile("w", suffix=".json", dir=circ.SCRATCH, delete=False)
    json.dump(cfg, f); f.close()
    args = ["-simulate", "num=%d" % num, "-seed", str(seed), "-depth", "60"] if num else []
    t = tlc.run("Tags", env=dict(CASES=f.name), workers=1, args=args, heap="3g")
    os.unlink(f.name)
    return t

def run(c):
    p = circ.PRIMES["bn128"]
    tpl = None
    for b in c.batches(1):
        r = c.rng(b)
        # every single statement of each theme, then random longer bodies (thorough: every two statements too)
        jobs = []
        for th in THEMES:
            if th != "all": jobs.append((theme(th, lens=[1], bads=[1, 99], finish=True, tpl=True), 0, 0))
        # arrays and buses filled piece by piece from sources with and without values
        for th, xs in FILL:
            ts = [x.split() for x in xs.split(",")]
            jobs.append((theme(th, lens=[2], bads=[99], finish=True, only=[t for t in ts if len(t) > 1]), 0, 0))
            jobs.append((theme(th, lens=[3], bads=[2, 3, 99, 99], finish=True, only=ts), r.getrandbits(31), 60))
        if c.thorough and b == 0:
            for th in THEMES: jobs.append((theme(th, lens=[2], bads=[1, 2, 99], finish=False), 0, 0))
        if b: jobs = []
        for th in THEMES:
            for lens in ([2], [2, 3], [3, 4, 5, 6, 7, 8]):
                jobs.append((theme(th, lens=lens, bads=[2, 3, 4, 6, 99, 99], finish=True), r.getrandbits(31), 40 if not c.thorough else 150))
        with ThreadPoolExecutor(8) as ex: outs = list(ex.map(lambda a: gen(*a), jobs))
        objs, seen = [], set()
        for (cfg, seed, num), t in zip(jobs, outs):
            c.tlc(t)
            mine = []
            for l in t.lines:
                k, o = tlc.parse(l)
                if k == "TPL": tpl = o; continue
                key = json.dumps(o["ops"], sort_keys=True)
                if key not in seen: seen.add(key); mine.append(o)
            if not num:
                mine.sort(key=lambda o: json.dumps(o, sort_keys=True))
                n = 700 if not c.thorough else 4000
                mine = mine if len(mine) <= n else r.sample(mine, n)
            objs += mine
        for o in list(objs):      # the observations that must be rejected, one program each
            for q in r.sample(o["no"], min(2, len(o["no"]))):
                objs.append(dict(ops=o["ops"] + q["ops"], obs=[], no=[], err=q["err"], rd=[], cs=[]))
        good = [o for o in objs if not o["err"]]; bad = [o for o in objs if o["err"]]
        lim = 900 if not c.thorough else 10 ** 6
        if len(bad) > lim:
            # keep every reason
            by = {}
            for o in bad: by.setdefault(o["err"], []).append(o)
            bad = [o for e in sorted(by) for o in r.sample(by[e], min(len(by[e]), max(12, lim * len(by[e]) // len(bad))))]
        check(c, tpl, good, bad, p)
        if len(c.violations) >= 5: return

def check(c, tpl, good, bad, p):
    opts = ["--O0", "--json", "--sym"]
    def one(o):
        x = circ.compile(single(tpl, o), opts if not o["err"] else ["--O0"])
        return x
    def report(o, x):
        m = judge(o, x, "main", p)
        shutil.rmtree(x.dir, ignore_errors=True)
        if m: c.violation(m, dict(source=single(tpl, o), statements=o["ops"], expected=dict(error=o["err"], reads=wanted(o, "main")), output=x.out[-800:]))
        return m
    for o in good + bad:
        c.traces += 1; c.count("verdict_" + (o["err"] or "accepted"))
    c.count("tag_reads", sum(len(wanted(o, "m")) for o in good))
    gs = [good[i:i + 40] for i in range(0, len(good), 40)]
    redo = []
    for g, x in zip(gs, circ.pmap(lambda g: circ.compile(group(tpl, g), opts), gs)):
        if x.rc: redo += g
        else:
            cs = constants(x.dir, p)
            redo += [o for i, o in enumerate(g) if judge(o, x, "main.m%d" % i, p, cs)]
        shutil.rmtree(x.dir, ignore_errors=True)
    for o, x in zip(redo[:400], circ.pmap(one, redo[:400])):
        report(o, x)
        if len(c.violations) >= 5: return
    for a in range(0, len(bad), 200):
        part = bad[a:a + 200]
        for o, x in zip(part, circ.pmap(one, part)):
            report(o, x)
            if len(c.violations) >= 5: return
