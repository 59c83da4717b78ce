"""Projects of several files: Include.tla resolves includes, reads every reachable file once in every possible order, and gives
the verdict and which definitions the main component uses; the same projects are laid out on disk and compiled."""
import itertools, json, os, subprocess, tempfile, shutil
import circ, tlc

def version():
    p = subprocess.run([circ.CIRCOM, "--version"], stdout=subprocess.PIPE, text=True)
    return [int(x) for x in p.stdout.split()[-1].split(".")]
def F(path, incs=(), defs=(), mains=0, ver=(2, 1, 0), cg=False, cgd=False, bad=False, uses=()):
    return dict(path=path.split("/"), incs=[i if isinstance(i, list) else i.split("/") for i in incs], defs=list(defs), mains=mains,
                ver=list(ver), cg=cg, cgd=cgd, bad=bad, uses=list(uses))
def T(n, v): return dict(n=n, v=v, t="t")
def Fn(n): return dict(n=n, v=0, t="f")

def project(files, dirs, root="main.circom", libs=(), cwd="", links=()):
    sp = lambda x: x if isinstance(x, list) else [q for q in x.split("/") if q]
    return dict(files=files, dirs=[sp(d) for d in dirs], root=sp(root), libs=[sp(l) for l in libs], cwd=sp(cwd),
                links=[dict(**{"from": sp(a), "to": sp(b)}) for a, b in links])

def ref(base, comps):
    if comps and comps[0] == "/": return os.path.join(base, *comps[1:])
    return "/".join(comps) or "."
def text(base, f):
    s = []
    if f["ver"]: s.append("pragma circom %d.%d.%d;" % tuple(f["ver"]))
    if f["cg"]: s.append("pragma custom_templates;")
    for i in f["incs"]: s.append('include "%s";' % ref(base, i))
    for d in f["defs"]:
        s.append("template %s() { signal output o; o <== %d; }" % (d["n"], d["v"]) if d["t"] == "t" else "function %s() { return 1; }" % d["n"] if d["t"] == "f" else "bus %s() { signal x; }" % d["n"])
    if f["cgd"]: s.append("template custom %s() { signal input i; signal output o; o <-- i; }" % f["cgn"])
    if f["mains"]:
        U = f["uses"]
        s.append("template %s() { signal output out[%d]; %s }" % (f["mn"], max(1, len(U)), " ".join("component c%d = %s(); out[%d] <== c%d.o;" % (k, u, k, k) for k, u in enumerate(U)) or "out[0] <== 0;"))
        s += ["component main = %s();" % f["mn"]] * f["mains"]
    if f["bad"]: s.append("template { signal input;")
    return "\n".join(s) + "\n"

def systematic():
    """which of the candidates an include names, by -l order, place of the including file and spelling"""
    out = []
    spots = ["a.circom", "sub/a.circom", "l1/a.circom", "l2/a.circom"]
    for pres in itertools.product([0, 1], repeat=4):
        for libs in ([], ["l1"], ["l2", "l1"], ["l1", "l2"], ["sub"]):
            for via in ("", "sub", "l1"):
                for inc in ("a.circom", "./a.circom", "sub/a.circom", "../a.circom"):
                    fs = [F(p, defs=[T("A", 10 + k)]) for k, p in enumerate(spots) if pres[k]]
                    if via: fs.append(F(via + "/x.circom", [inc], [T("X", 7)]))
                    fs.append(F("main.circom", [via + "/x.circom" if via else inc], mains=1, uses=["A"]))
                    out.append(project(fs, ["sub", "l1", "l2"], libs=libs))
    return out

DIRS = ["sub", "l1", "l2", "l1/sub", "sub/deep"]
def rand(r):
    names = ["a.circom", "b.circom", "c.circom", "d.circom"][:r.randint(2, 4)]
    links = []
    files, n = [], 0
    clean = r.random() < .6
    for d in [""] + DIRS:
        for nm in names:
            if r.random() < (.3 if d else .55):
                files.append(F((d + "/" if d else "") + nm, defs=[]))
    if not files: files.append(F(names[0]))
    ids = iter(range(11, 900, 7))
    for f in files:
        base = f["path"][-1][0].upper()
        f["defs"].append(T(base if r.random() < (.35 if clean else .5) else base + "".join(f["path"][:-1]), next(ids)))
        if r.random() < .2: f["defs"].append(r.choice([T, lambda n, v: Fn(n), lambda n, v: dict(n=n, v=0, t="b")])("%s%d" % (base, next(ids)) if clean or r.random() < .7 else "Z", next(ids)))
    main = F(r.choice(["main.circom", "main.circom", "sub/main.circom", "l1/main.circom"]), mains=1)
    files.append(main)
    if r.random() < .35:
        for _ in range(r.randint(1, 2)):
            to = r.choice(files)["path"] if r.random() < .7 else r.choice(DIRS).split("/")
            frm = (r.choice(["", "sub", "l1"]) + "/" + r.choice(names + ["ln.circom", "lnd"])).strip("/")
            if frm.split("/") not in [f["path"] for f in files] and frm not in [l[0] for l in links] and "/".join(to) != frm: links.append((frm, "/".join(to)))
    allp = [f["path"] for f in files] + [l[0].split("/") for l in links]
    def inc(f):
        t = r.choice(allp); d = f["path"][:-1]
        if r.random() < .12: return ["/"] + t
        if r.random() < .25: return t[-1:]
        k = 0
        while k < len(d) and k < len(t) - 1 and d[k] == t[k]: k += 1
        p = [".."] * (len(d) - k) + t[k:]
        if r.random() < .15: p = ["."] + p
        if r.random() < .1 and not d: p = ["sub", ".."] + p
        return p
    for f in files:
        f["incs"] = [inc(f) for _ in range(r.choice([0, 1, 1, 2, 2, 3]) if f is not main else r.randint(1, 3))]
        if not clean:
            if r.random() < .06: f["incs"].append(r.choice([["nothere.circom"], ["sub"], ["a"], ["a.circom", "b.circom"], ["..", "..", "..", "zz.circom"]]))
            if r.random() < .05: f["bad"] = True
            if r.random() < .08 and f is not main: f["mains"] = r.choice([1, 1, 2])
            if r.random() < .1: f["ver"] = r.choice([[], [3, 0, 0], [2, 9, 0], [1, 9, 9], [2, 0, 0], "same", "next", "nextminor"])
        elif r.random() < .2: f["ver"] = r.choice([[], [2, 0, 0], [2, 1, 9], "same"])
        if r.random() < (.1 if clean else .3): f["cg"] = True
        if not clean and r.random() < .12: f["cgd"] = True; f["cg"] = f["cg"] or r.random() < .7
    if r.random() < .3:
        for f in files: f["cg"] = True
    if not clean and r.random() < .05: main["mains"] = r.choice([0, 2])
    cwd = r.choice(["", "", "", "sub", "l1"])
    rp = main["path"]; d = cwd.split("/") if cwd else []
    k = 0
    while k < len(d) and k < len(rp) - 1 and d[k] == rp[k]: k += 1
    root = [".."] * (len(d) - k) + rp[k:]
    root = r.choice([root, root, ["."] + root, ["/"] + rp])
    libs = []
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        l = r.choice(DIRS + ["", "nodir"]).split("/") if r.random() < .9 else ["l1", "..", "l2"]
        l = [x for x in l if x]
        libs.append(["/"] + l if r.random() < .2 else [".."] * len(d) + l or ["."])
    return project(files, DIRS, root, libs, cwd, links), main

def defined(p):
    return sorted({d["n"] for f in p["files"] for d in f["defs"]})

def run(c):
    ver = version()
    for b in c.batches(1):
        r = c.rng(b)
        ps = systematic() if b == 0 else []
        for _ in range(900):
            p, main = rand(r)
            # use what the project is likely to define: names of files that main reaches directly or by chains
            cand = [d["n"] for f in p["files"] for d in f["defs"] if d["t"] == "t" or r.random() < .05]
            main["uses"] = []
            p["pick"] = (main, cand)
            ps.append(p)
        for k, p in enumerate(ps):
            p["id"] = k; p["ver"] = ver
            for j, f in enumerate(p["files"]):
                f["mn"] = "Main%d" % j; f["cgn"] = "Gate%d" % j
                for q in ("same", "next", "nextminor"):
                    if f["ver"] == q: f["ver"] = {"same": list(ver), "next": ver[:2] + [ver[2] + 1], "nextminor": [ver[0], ver[1] + 1, 0]}[q]
                f["defs"] = [d for i, d in enumerate(f["defs"]) if d["n"] not in [e["n"] for e in f["defs"][:i]]]
        # first pass without uses tells which projects are well formed; the uses are then drawn from what is in reach
        reach(ps, r)
        judge(c, ps)

def reach(ps, r):
    for p in ps:
        if "pick" not in p: continue
        main, cand = p.pop("pick")
        by = {tuple(f["path"]): f for f in p["files"]}
        seen, todo = [], [main]
        while todo:
            f = todo.pop()
            if f in seen: continue
            seen.append(f)
            for i in f["incs"]:      # approximate: only steers the choice
                for g in p["files"]:
                    if g["path"][-1] == i[-1]: todo.append(g)
        near = [d["n"] for f in seen for d in f["defs"] if d["t"] == "t"]
        pool = near if near and r.random() < .9 else cand
        main["uses"] = r.sample(sorted(set(pool)), min(len(set(pool)), r.randint(1, 3))) if pool else []

def layout(p):
    d = tempfile.mkdtemp(prefix="inc", dir=circ.SCRATCH)
    for x in p["dirs"]: os.makedirs(os.path.join(d, *x), exist_ok=True)
    for l in p["links"]:
        os.symlink(os.path.join(d, *l["to"]), os.path.join(d, *l["from"]))
    for f in p["files"]:
        with open(os.path.join(d, *f["path"]), "w") as h: h.write(text(d, f))
    return d
def value(r1, i):
    """the constant that linear constraints give to wire i"""
    P = r1["prime"]
    for a, b, cc in r1["cons"]:
        if a and b: continue
        lc = dict(cc)
        if i in lc and set(lc) <= {0, i}: return (-lc.get(0, 0) * pow(lc[i], -1, P)) % P
    return None
def compile(p):
    d = layout(p)
    out = os.path.join(d, "outdir"); os.mkdir(out)
    cmd = [circ.CIRCOM, ref(d, p["root"]), "--r1cs", "-o", out]
    for l in p["libs"]: cmd += ["-l", ref(d, l)]
    res = circ.Res(); res.cmd = cmd
    try:
        q = subprocess.run(cmd, cwd=os.path.join(d, *p["cwd"]), env=circ.ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
        res.rc, res.out = q.returncode, q.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired: res.rc, res.out = "timeout", ""
    res.vals = None; res.files = sorted(os.listdir(out))
    if res.rc == 0:
        try:
            r1 = circ.read_r1cs(os.path.join(out, p["root"][-1].replace(".circom", ".r1cs")))
            res.vals = [value(r1, i + 1) for i in range(r1["pubout"])]
        except Exception as e: res.vals = repr(e)
    shutil.rmtree(d, ignore_errors=True)
    return res

def judge(c, ps):
    f = tempfile.NamedTemporaryFile("w", suffix=".json", dir=circ.SCRATCH, delete=False)
    json.dump([{k: p[k] for k in ("id", "files", "dirs", "links", "cwd", "root", "libs", "ver")} for p in ps], f); f.close()
    t = tlc.run("Include", env=dict(CASES=f.name)); os.unlink(f.name); c.tlc(t)
    exp = {}
    for l in t.lines:
        k, o = tlc.parse(l)
        exp.setdefault(o["id"], []).append(o)
    for p, res in zip(ps, circ.pmap(compile, ps)):
        c.traces += 1
        es = exp[p["id"]]; e = es[0]
        c.count("projects_" + (e["err"] or "accepted"))
        uses = [f["uses"] for f in p["files"] if f["mains"] == 1]
        rep = dict(command=res.cmd, libs=p["libs"], cwd=p["cwd"], links=p["links"], files={"/".join(g["path"]): text("/ROOT", g) for g in p["files"]}, expected=es, exit=res.rc, output=res.out[-1200:], values=res.vals)
        if res.rc not in (0, 1): c.violation("project: exit %s" % res.rc, rep)
        elif (res.rc == 0) != (e["err"] == ""): c.violation("project %s but %s" % ("accepted" if res.rc == 0 else "rejected", "it should be rejected: " + e["err"] if e["err"] else "every rule is respected"), rep)
        elif res.rc == 1 and (res.files or "rror" not in res.out): c.violation("rejected project: files %s, no error reported" % res.files, rep)
        elif res.rc == 0 and res.vals != (e["vals"] or [0]): c.violation("the definitions used are %s instead of %s" % (res.vals, e["vals"]), rep)
        if len(c.violations) >= 5: return
