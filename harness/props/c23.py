import copy, hashlib, os, re
import lang, art, circ, gen, render, conf
from gen import n, v, b, arr
P = list(circ.PRIMES)
LEVELS = [["--O0"], ["--O1"], ["--O2"], []]
ANSI = re.compile(r"\x1b\[[0-9;]*m")

def number(x, k):
    """every hint gets a number, shown in the source as a comment"""
    if isinstance(x, dict):
        if x.get("k") == "as" and x.get("o") == "<--": x["id"] = k[0]; k[0] += 1
        for y in x.values(): number(y, k)
    elif isinstance(x, list):
        for y in x: number(y, k)
def reads(x, ok, out):
    """the readings of the names in ok with constant indexes"""
    if isinstance(x, dict):
        if x.get("k") == "v" and x["n"] in ok and all(a["k"] == "f" or a["e"]["k"] == "n" for a in x["a"]): out.append({"k": "v", "n": x["n"], "a": x["a"]})
        for y in x.values(): reads(y, ok, out)
    elif isinstance(x, list):
        for y in x: reads(y, ok, out)
def mark(r, T):
    """`_ <== e` at the end of the template"""
    ok = {s["n"] for s in T["body"] if s["k"] in ("sig", "comp", "var")}
    out = []; reads([s.get("r", 0) for s in T["body"]] + [s["b"] for s in T["body"] if s["k"] in ("for",)], ok, out)
    ls = [s["l"] for s in T["body"] if s["k"] == "as" and s["o"] != "=" and all(a["k"] == "f" or a["e"]["k"] == "n" for a in s["l"]["a"])]
    out += [{"k": "v", "n": l["n"], "a": l["a"]} for l in ls] * 2
    out += [v(s["n"]) for s in T["body"] if s["k"] == "sig"]
    if not out: return
    def one():
        e = copy.deepcopy(r.choice(out))
        if e["a"] and e["a"][-1]["k"] == "i" and r.random() < 0.4: e["a"].pop()
        return e
    for _ in range(r.randrange(1, 4)):
        x = r.random()
        e = one() if x < 0.75 else b(r.choice("+-*"), one(), one()) if x < 0.87 else arr(one(), one()) if x < 0.9 else b("*", n(r.choice([0, 2])), one())
        s = {"k": "und", "o": r.choice(["<==", "<==", "<==", "<--"]), "r": e}
        if r.random() < 0.15: s = gen.iff(n(r.randrange(2)), [s])
        T["body"].insert(len(T["body"]) if r.random() < 0.96 else r.randrange(len(T["body"]) + 1), s)

def digest(d):
    out = {}
    for root, _, fs in os.walk(d):
        for f in fs:
            if not f.endswith(".circom"): out[os.path.relpath(os.path.join(root, f), d)] = hashlib.sha256(open(os.path.join(root, f), "rb").read()).hexdigest()
    return out
def observe(k):
    o = conf.Obs()
    o.case, o.prime, o.args = k, k["prime"], k["args"]
    o.src = render.program(k["prog"])
    fl = k["args"] + ["--r1cs", "--sym", "--wasm"]
    a = circ.compile(o.src, fl, prime=o.prime); x = circ.compile(o.src, fl + ["--inspect"], prime=o.prime)
    o.rc, o.out, o.acc, o.acc0 = x.rc, x.out, x.rc == 0, a.rc == 0
    o.same = not (o.acc and o.acc0) or digest(a.dir) == digest(x.dir)
    for q in (a, x): circ.shutil.rmtree(q.dir, ignore_errors=True)
    o.dir = "/nonexistent"
    o.warn, o.all, o.some = parse(ANSI.sub("", o.out), o.src)
    return o
LOC = re.compile(r'In template "([^"]*)": Local signal (\S+) does not appear in any constraint')
LOCS = re.compile(r'In template "([^"]*)": Array of local signals (\S+) contains a total of (\d+) signals that do not appear in any constraint')
IO = re.compile(r'In template "([^"]*)": Subcomponent input/output signal (\S+) does not appear in any constraint of the father component')
IOS = re.compile(r'In template "([^"]*)": Array of subcomponent input/output signals (\S+) contains a total of (\d+) signals that do not appear in any constraint of the father component')
def parse(out, src):
    warn, al, some = [], set(), set()
    ids = {i + 1: int(m.group(1)) for i, l in enumerate(src.split("\n")) for m in [re.search(r"// @(\d+)$", l)] if m}
    lines = out.split("\n")
    for i, l in enumerate(lines):
        for rx, io in ((LOC, False), (IO, True)):
            m = rx.search(l)
            if m: warn.append(dict(t=m.group(1), io=io, g=m.group(2), n=1, ex=[m.group(2)]))
        for rx, io in ((LOCS, False), (IOS, True)):
            m = rx.search(l)
            if m:
                e = re.search(r"For example: (\S+), (\S+)\.$", "\n".join(lines[i + 1:i + 3]), re.M)
                warn.append(dict(t=m.group(1), io=io, g=m.group(2), n=int(m.group(3)), ex=list(e.groups()) if e else ["no example"]))
        if "Consider using <== instead of <--" in l:
            w = re.search(r"┌─ \"[^\"]*\":(\d+):", "\n".join(lines[i:i + 4]))
            (some if "for some of positions" in l else al).add(ids.get(int(w.group(1)), -1) if w else -2)
    return warn, sorted(al), sorted(some)

def run(c):
    for bt in c.batches(2):
        r = c.rng(bt)
        cases = []
        for i in range(130):
            k = lang.gen_case(r, "bn128" if i % 4 else P[(bt + i // 4) % 8], dict(stmts=2 + i % 5, templates=1 + i % 4, funcs=1, buses=i % 2 == 0, custom=i % 6 == 0), 0)
            pr = k["prog"]
            pr["inspect"] = True
            for T in pr["templates"].values():
                if not T.get("custom") and r.random() < 0.5: mark(r, T)
                elif r.random() < 0.3 and not T.get("custom"): T["body"] = gen.unconstrained(T["body"])
            number(pr["templates"], [1])
            k["args"] = LEVELS[(i + bt) % len(LEVELS)]
            cases.append(k)
        obs = circ.pmap(observe, cases)
        recs = [dict(id=i, p=str(circ.PRIMES[o.prime]), prog=o.case["prog"], acc=o.acc, acc0=o.acc0, same=o.same, warn=o.warn, all=o.all, some=o.some) for i, o in enumerate(obs)]
        art.report(c, art.judge(c, "Inspect", recs), obs)
