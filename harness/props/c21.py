"""The command line program: every case of CliDefs is run (Cli.tla gives its outcome), then chosen cases once more for every file system
operation they make, with that operation failing (harness/native/faultfs.c); TraceCli.tla judges what each run did and left behind."""
import json, os, re, shutil, subprocess, tempfile
import circ, tlc, lang, render, textfuzz

ONE = "template A() { signal input x; signal input y; signal output z; signal h; h <== x + 0; signal k; k <== h * y; z <== k + 3 * y; log(\"v\", z); }\n"
MAINA = "component main {public [x]} = A();\n"
V = "pragma circom 2.1.0;\n"
MANY = V + """include "lib1.circom";
function f(a, n) { var r = a; for (var i = 0; i < n; i++) { r = r * a + i; } return r; }
bus P(n) { signal u[n]; signal w; }
template parallel B(n) { signal input {bin} q; P(n) input p; signal output o[n]; for (var i = 0; i < n; i++) { o[i] <== p.u[i] * p.w + i; } signal t <-- f(p.w, n); assert(t == t); }
template Main() { signal input a[2]; signal input b; signal output o[3]; signal output c; component s[2];
  signal {bin} k <== 1; P(2) p; p.u <== a; p.w <== b;
  for (var i = 0; i < 2; i++) { s[i] = B(2); s[i].p <== p; s[i].q <== k; o[i] <== s[i].o[1]; }
  component l = L(); l.i <== a[0]; o[2] <== l.o; signal d; d <== a[0] + a[1]; c <== d * d; d - b === a[0] + a[1] - b; log("c", c, d); }
component main {public [b]} = Main();
"""
LIB1 = V + "template L() { signal input i; signal output o; o <== i * i + 7; }\n"
def sources(src, big=False):
    """text of the input file and of the other files"""
    if src == "one": return V + ONE + MAINA, {}
    if src == "two": return V + 'include "inc/l.circom";\n' + "component main = L();\n", {"inc/l.circom": V + 'include "../inc/m.circom";\n' + LIB1.replace(V, ""), "inc/m.circom": V}
    if src == "lib": return V + 'include "inlib.circom";\ncomponent main = L();\n', {"libd/inlib.circom": LIB1}
    if src == "gates": return V + "pragma custom_templates;\ntemplate custom G(n) { signal input i; signal output o; o <-- i * n; }\ntemplate M() { signal input i; signal output o; component g = G(3); g.i <== i; o <== g.o; }\ncomponent main = M();\n", {}
    if src == "many": return MANY, {"lib1.circom": LIB1}
    bad = {
        "lex": V + "template A() { signal input x; \x01 }\ncomponent main = A();\n",
        "parse": V + "template A() { signal input x signal output y; }\ncomponent main = A();\n",
        "noinclude": V + 'include "nothing.circom";\n' + ONE + MAINA,
        "type": V + "template A() { signal input x; signal output z; z <== x + undeclared; }\ncomponent main = A();\n",
        "exec": V + "template A() { signal input x; signal output z; z <== x * x * x; }\ncomponent main = A();\n",
        "nomain": V + ONE,
        "twomains": V + ONE + MAINA + MAINA,
        "assert": V + "template A() { signal input x; assert(1 == 2); }\ncomponent main = A();\n",
        "empty": "",
        "version": "pragma circom 9.0.0;\n" + ONE + MAINA,
        "utf8": (V + ONE + MAINA).encode() + b"// \xff\xfe\n",
        "unterminated": V + ONE + MAINA + "/* no end",
        "hexnothing": V + "template A() { signal output z; z <== 0x; }\ncomponent main = A();\n",
        "bigversion": "pragma circom 99999999999999999999999.0.0;\n" + ONE + MAINA,
        "incutf8": V + 'include "bad.circom";\n' + ONE + MAINA,
    }
    return bad[src], {"bad.circom": b"// \xff\xfe\n"} if src == "incutf8" else {}

FLAG = dict(r1cs="--r1cs", sym="--sym", json="--json", subs="--simplification_substitution", wasm="--wasm", wat="--wat", c="--c")
def put(p, t):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "wb") as f: f.write(t if isinstance(t, bytes) else t.encode())

def lay(c, d):
    """puts the case into directory d; returns the command line, its working directory and the directory of the outputs"""
    w = os.path.join(d, "w"); os.makedirs(w)
    text, others = c["text"] if "text" in c else sources(c["src"])
    fn = c["stem"] if c["stem"] == "noext" else c["stem"] + ".circom"
    base = w
    inp = [fn]
    k = c["input"]
    if k == "sub": base = os.path.join(w, "src"); inp = ["src/" + fn]
    elif k == "abs": inp = [os.path.join(w, fn)]
    elif k == "dots": os.makedirs(os.path.join(w, "src")); inp = ["src/../" + fn]
    elif k == "default": fn = "circuit.circom"; inp = []
    elif k == "nodefault": inp = []
    elif k == "missing": inp = ["other.circom"]
    if k == "link": put(os.path.join(base, "real.circom"), text); os.symlink("real.circom", os.path.join(base, fn))
    elif k == "directory": os.makedirs(os.path.join(base, fn))
    else: put(os.path.join(base, fn), text)
    for f, t in others.items(): put(os.path.join(w if f.startswith("libd/") else base, f), t)
    args = [FLAG[o] for o in ("r1cs", "sym", "json", "subs", "wasm", "wat", "c") if o in c["want"]]
    if c["src"] == "lib": args += ["-l", "libd"]
    if c["prime"]: args += ["--prime", c["prime"]]
    if c["level"]:
        l = c["level"].split("=")
        args += ["--" + l[0]] + l[1:] if c["level"] != "O2round=-1" else ["--O2round=-1"]
    if c["sanity"]: args += ["--sanity_check=" + c["sanity"]] if c["sanity"].startswith("-") else ["--sanity_check", c["sanity"]]
    if c["noasm"]: args.append("--no_asm")
    out = w; tail = []
    o = c["out"]
    if o in ("dir", "slash", "abs"): out = os.path.join(w, "out"); os.makedirs(out); args += ["-o", dict(dir="out", slash="out/", abs=out)[o]]
    elif o == "nested": out = os.path.join(w, "out", "x", "y"); os.makedirs(out); args += ["--output", "./out/x/y"]
    elif o == "link": os.makedirs(os.path.join(w, "realout")); os.symlink("realout", os.path.join(w, "out")); out = os.path.join(w, "realout"); args += ["-o", "out"]
    elif o == "missing": args += ["-o", "nodir"]
    elif o == "file": put(os.path.join(w, "afile"), "x"); args += ["-o", "afile"]
    elif o == "empty": args += ["-o", ""]
    m = c["more"]
    if "verbose" in m: args.append("--verbose")
    if "inspect" in m: args.append("--inspect")
    if "libdir" in m: os.makedirs(os.path.join(w, "ld1"), exist_ok=True); args += ["-l", "ld1"]
    if "nolib" in m: args += ["-l", "not/there"]
    if "twolibs" in m: args += ["-l", "ld1", "-l", "ld2"]
    if "unknown" in m: args.append("--r2cs")
    if "secondinput" in m: tail.append("second.circom")
    if "badutf8" in m: args += [b"-l", b"x\xff"]
    if "norounds" in m: tail.append("--O2round")
    if "nolibvalue" in m: tail.append("-l")
    n = c["stem"] if k != "default" else "circuit"
    if "c" in c["want"] and n in ("main", "fr", "calcwit"): n += "_c"
    place = dict(r1cs=n + ".r1cs", sym=n + ".sym", json=n + "_constraints.json", subs=n + "_substitutions.json", wasm=n + "_js", wat=n + "_js", c=n + "_cpp")
    b = c["block"]
    if b:
        p = os.path.join(out, place[b])
        if b in ("wasm", "wat", "c"): put(p, "in the way")
        else: os.makedirs(os.path.join(p, "x"))
    if c["stale"]:
        junk = b"stale " * 40000
        for q in ("r1cs", "sym", "json", "subs"): put(os.path.join(out, place[q]), junk)
        for q in ("_js/%s.wasm" % n, "_js/%s.wat" % n, "_js/generate_witness.js", "_js/old.txt", "_cpp/%s.cpp" % n, "_cpp/%s.dat" % n, "_cpp/main.cpp", "_cpp/old.txt"): put(os.path.join(out, n + q), junk)
        put(os.path.join(out, "unrelated.r1cs"), "unrelated"); put(os.path.join(out, n + ".txt"), "unrelated")
    return [circ.CIRCOM] + args[:len(args) // 2] + (inp if args[len(args) // 2 - 1:len(args) // 2] not in ([b"-l"], ["-l"], ["-o"], ["--output"], ["--prime"], ["--O2round"], ["--sanity_check"]) else []) + \
        args[len(args) // 2:] + (inp if args[len(args) // 2 - 1:len(args) // 2] in ([b"-l"], ["-l"], ["-o"], ["--output"], ["--prime"], ["--O2round"], ["--sanity_check"]) else []) + tail, w, out, n

def snap(w):
    o = {}
    for b, ds, fs in os.walk(w):
        for f in fs:
            p = os.path.join(b, f)
            if os.path.islink(p): o[p] = b"link"
            else:
                with open(p, "rb") as h: o[p] = h.read()
    return o

ANSI = re.compile(r"\x1b\[[0-9;]*m")
def claims(t):
    t = ANSI.sub("", t)
    out = []
    for m in re.finditer(r"(?:Written successfully|Constraints written in):\s*(.*?)\s*(?=Written successfully|Constraints written in|Everything|$)", t):
        ps = re.split(r", | and ", m.group(1))
        dirn = os.path.dirname(ps[0])
        out += [ps[0]] + [p if "/" in p else os.path.join(dirn, p) for p in ps[1:]]
    return out

def execute(c, at=0, mode="eio", ref=None, keep=None):
    """one run; returns what TraceCli wants to know of it"""
    d = tempfile.mkdtemp(prefix="cli", dir=circ.SCRATCH)
    cmd, w, out, n = lay(c, d)
    before = snap(w)
    log = os.path.join(d, "log")
    e = dict(circ.ENV, LD_PRELOAD=SHIM, FAULTFS_DIR=w, FAULTFS_LOG=log, FAULTFS_AT=str(at), FAULTFS_MODE=mode)
    try:
        p = subprocess.run(cmd, cwd=w, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=20 if "text" in c else 90)
        rc, so, se = str(p.returncode), p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        rc, so, se = "timeout", "", ""
    after = snap(w)
    outr = os.path.realpath(out)
    rel = lambda p: os.path.relpath(os.path.join(os.path.realpath(os.path.dirname(os.path.join(w, p))), os.path.basename(p)), outr)
    ev, ops, failed = [], 0, ""
    for l in open(log, errors="replace") if os.path.exists(log) else []:
        q = l.rstrip("\n").split("\t", 4)
        if len(q) < 5: continue
        op, res, err, k, path = q[0], int(q[1]), int(q[2]), int(q[3]), q[4]
        if op == "stdout":
            ev += [dict(op="say", file=rel(x), ok=True) for x in claims(path)]
            if "Everything went okay" in path: ev.append(dict(op="okay", file="", ok=True))
        elif op == "stderr":
            if path.strip(): ev.append(dict(op="message", file="", ok=True))
        else:
            ops += 1
            inj = err in (5, 28) and at
            if res < 0 and inj and not failed: failed = "%s %s" % (op, rel(path))
            if err == 4: continue                        # interrupted: to be tried again
            if op in ("open", "opendir", "read"): ev.append(dict(op="read", file=rel(path), ok=not (res < 0 and inj)))
            elif op in ("unlink", "rmdir", "unlinkat"): ev.append(dict(op="rm", file=rel(path), ok=not (res < 0 and inj)))
            elif op in ("create", "write", "mkdir", "rename"): ev.append(dict(op="create" if op == "rename" else op, file=rel(path), ok=res >= 0))
    outs = {}
    final, damaged = [], []
    owned = [os.path.join(out, n + "_js") + "/", os.path.join(out, n + "_cpp") + "/"]
    mine = {os.path.join(out, n + x) for x in (".r1cs", ".sym", "_constraints.json", "_substitutions.json")}
    for p in sorted(set(before) | set(after)):
        own = p in mine or any(p.startswith(x) for x in owned)
        f = os.path.relpath(p, out)
        if not own:
            if before.get(p) != after.get(p): damaged.append(os.path.relpath(p, w))
            continue
        kind = "c" if p.startswith(owned[1]) else "wasm wat" if p.startswith(owned[0]) else {".r1cs": "r1cs", ".sym": "sym", "_constraints.json": "json", "_substitutions.json": "subs"}[os.path.basename(p)[len(n):]]
        wanted = bool(set(kind.split()) & set(c["want"]))
        if p in after and (wanted or before.get(p) != after[p]):
            outs[f] = after[p]
            same = ref is not None and ref.get(f) == after[p]
            if before.get(p) != after[p] or same or f in (ref or {}): final.append(dict(file=f, state="same" if same else "differs"))
        if not wanted and p in before and before[p] != after.get(p): damaged.append(os.path.relpath(p, w))
    shutil.rmtree(d, ignore_errors=True)
    r = dict(c={k: c[k] for k in KEYS}, events=ev, rc=rc, final=final, damaged=damaged)
    r["info"] = dict(command=[str(x) for x in cmd], failed=failed, at=at, mode=mode, ops=ops, output=(so + se)[-1500:], outs=outs)
    return r
KEYS = ("want", "prime", "level", "sanity", "noasm", "out", "input", "src", "stem", "more", "block", "stale")
BASE = dict(want=["r1cs"], prime="", level="", sanity="", noasm=False, out="none", input="plain", src="one", stem="a", more=[], block="", stale=False)

SHIM = None
def shim():
    global SHIM
    SHIM = os.path.join(circ.SCRATCH, "faultfs.so")
    p = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", SHIM, os.path.join(circ.ROOT, "harness", "native", "faultfs.c"), "-ldl"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode: raise circ.ToolError(p.stdout)

REFS = {}
def refs(canons):
    """the contents of each output when it is the only one asked for and no other option is given"""
    todo = []
    for k in canons:
        q = json.dumps(k, sort_keys=True)
        if q not in REFS:
            REFS[q] = {}
            for o in FLAG: todo.append((q, dict(BASE, want=[o], prime="" if k["prime"] == "bn128" else k["prime"], level="" if k["level"] == "O1" else k["level"],
                                              sanity="" if k["sanity"] == "2" else k["sanity"], noasm=k["noasm"], src=k["src"], stem=k["name"], text=k.get("text")) if k.get("text") else
                                         dict(BASE, want=[o], prime="" if k["prime"] == "bn128" else k["prime"], level="" if k["level"] == "O1" else k["level"],
                                              sanity="" if k["sanity"] == "2" else k["sanity"], noasm=k["noasm"], src=k["src"], stem=k["name"])))
    for (q, c), r in zip(todo, circ.pmap(lambda x: execute(x[1]), todo)):
        if r["rc"] == "0":
            for f, b in r["info"]["outs"].items(): REFS[q].setdefault(f, b)
    return [REFS[json.dumps(k, sort_keys=True)] for k in canons]
def canon(c):
    stem = "circuit" if c["input"] == "default" else c["stem"]
    n = stem + "_c" if "c" in c["want"] and stem in ("main", "fr", "calcwit") else stem
    return dict(prime=c["prime"] or "bn128", level=c["level"] or "O1", sanity=c["sanity"] or "2", noasm=c["noasm"], src=c["src"], name=n)

def judge(c, runs, what):
    if not runs: return
    for i, r in enumerate(runs): r["id"] = i
    f = os.path.join(circ.SCRATCH, "runs.json")
    with open(f, "w") as h: json.dump([{k: r[k] for k in ("id", "c", "events", "rc", "final", "damaged")} for r in runs], h)
    t = tlc.run("TraceCli", env=dict(RUNS=f), big=False); os.unlink(f); c.tlc(t)
    got = {}
    for l in t.lines:
        k, o = tlc.parse(l); got[o["id"]] = o
    if len(got) != len(runs): raise circ.ToolError("TraceCli judged %d of %d runs" % (len(got), len(runs)))
    for r in runs:
        c.traces += 1; o = got[r["id"]]
        c.count(what + ("_status_" + r["rc"] if r["rc"] in "01" else "_other"))
        if o["bad"]:
            i = r["info"]
            c.violation("%s%s: %s" % (" ".join(i["command"][1:]), " with operation %d (%s) failing" % (i["at"], i["failed"] or i["mode"]) if i["at"] else "", o["bad"]),
                        dict(case=r["c"], command=i["command"], fault=dict(at=i["at"], mode=i["mode"], operation=i["failed"]), exit=r["rc"], output=i["output"], final=r["final"], damaged=r["damaged"], events=r["events"][-40:], text=r.get("text")))

DECL = re.compile(r"\b(signal|component|var)\b\s*(?:input|output)?\s*(?:\{[^}]*\}\s*)?(?:parallel\s+)?([A-Za-z_$][\w$]*)")
def redeclares(text):
    """some template declares one name twice, not only as variables: left to C22, which lists what is known about that"""
    for part in re.split(r"\b(?:template|function|bus)\b", text):
        seen = {}
        for k, n in DECL.findall(part): seen.setdefault(n, []).append(k)
        if any(len(v) > 1 and set(v) != {"var"} for v in seen.values()): return True
    return False
def texts(c, r, n):
    fixed = [MANY.replace('include "lib1.circom";', LIB1.replace(V, "")), sources("gates")[0], V + ONE + MAINA]
    out = []
    while len(out) < n:
        if r.random() < .4: t = r.choice(fixed)
        else: t = re.sub(r"\d{3,}", lambda m: m.group()[:2], render.program(lang.gen_case(r, "bn128", {}, 1)["prog"]))
        out.append(textfuzz.mutate(r, t, r.choice([1, 1, 1, 2, 2, 3, 4, 6])))
    return out
def fuzz(c, r, n):
    cs = [dict(BASE, want=r.choice([["r1cs"], ["r1cs", "wasm"], ["sym", "c"], list(FLAG)]), src="any", level=r.choice(["", "", "O0", "O2"]), text=(t, {})) for t in texts(c, r, n)]
    runs = circ.pmap(execute, cs)
    again = [k for k, x in enumerate(runs) if x["rc"] == "0"]
    for k, ref in zip(again, refs([dict(canon(cs[k]), text=cs[k]["text"]) for k in again])):
        runs[k] = execute(cs[k], ref=ref)
    for x, y in zip(cs, runs): y["text"] = x["text"][0]
    keep = [x for x in runs if not (x["rc"] not in ("0", "1") and (redeclares(x["text"]) or "overflowed its stack" in x["info"]["output"]))]
    c.count("texts_left_out", len(runs) - len(keep))
    judge(c, keep, "text")

def run(c):
    shim()
    t = tlc.run("Cli", big=False); c.tlc(t)
    cases = {}
    for l in t.lines:
        o = tlc.parse(l)[1]; cases[json.dumps(o["c"], sort_keys=True)] = o
    cases = [cases[k] for k in sorted(cases)]
    rf = refs([o["canon"] if o["rc"] == 0 or o["c"]["block"] else canon(dict(BASE)) for o in cases])
    judge(c, circ.pmap(lambda x: execute(x[0]["c"], ref=x[1]), list(zip(cases, rf))), "case")
    if len(c.violations) >= 5: return
    # every operation of these fails once
    every = list(FLAG)
    sweep = [(dict(BASE, want=every, src="two", level=l), ("enospc", "eio", "short", "eintr") if l == "" else ("enospc", "eio")) for l in ("", "O0")]
    sweep += [(dict(BASE, want=[o], src="gates" if o == "r1cs" else "one", level=l, stale=st), ("enospc", "eio")) for o in every for l in ("", "O0", "O2") for st in (False, True) if (l == "" or o in ("r1cs", "sym", "json", "subs")) and (not st or l == "")]
    sweep += [(dict(BASE, want=["c"], prime="goldilocks"), ("enospc", "eio")), (dict(BASE, want=["c"], noasm=True), ("eio",)), (dict(BASE, want=["wasm"], src="lib"), ("eio", "eintr")),
              (dict(BASE, want=every, src="many", prime="bls12381", out="dir"), ("eio", "enospc", "short"))]
    if c.thorough: sweep += [(dict(o["c"]), ("enospc", "eio", "short", "eintr")) for o in cases if o["rc"] == 0 and o["c"]["want"]]
    jobs = []
    dry = circ.pmap(lambda x: execute(x[0]), sweep)
    rf = refs([canon(s) for s, _ in sweep])
    for (s, modes), r, q in zip(sweep, dry, rf):
        for m in modes:
            for k in range(1, r["info"]["ops"] + 1): jobs.append((s, k, m, q))
    c.extra["operations_failed_in_turn"] = len(jobs)
    for i in range(0, len(jobs), 4000):
        judge(c, circ.pmap(lambda x: execute(x[0], x[1], x[2], x[3]), jobs[i:i + 4000]), "fault")
        if len(c.violations) >= 5: return
    for b in c.batches(1):
        fuzz(c, c.rng(b), 500)
        REFS.clear()
