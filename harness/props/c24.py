"""Scan.tla reads texts made of comments, strings, line ends and two kinds of statements, atom by atom: all short ones and longer random
ones; each is put into a template and compiled, and verdict, printed strings, computed sum and the places of reports are compared.
Then programs are laid out anew (blanks, line ends, comments between their tokens): TraceRuns.tla demands verdict, artifacts and
reports (by the token they point at) of every layout to be those of the first."""
import json, os, re, tempfile, hashlib
import circ, tlc, art, lang, gen, render, mutate, textfuzz
from circ import PRIMES
ANSI = re.compile(r"\x1b\[[0-9;]*m")
HEAD = "pragma circom 2.1.9;\ntemplate M() { signal output o; o <== 1; var s = 0;\n"
MARK = "log(\"#end\");\n"
def weight(k): return 2 ** (k - 1)
def atom(a, k): return {"P": "s+=", "V": "%04d;" % weight(k) if k < 14 else "0000;", "L": "log(", "R": ");", "Q": '"', "N": "\n", "E": "éñé", "B": " "}.get(a, a)
def text(src): return "".join(atom(a, i + 1) for i, a in enumerate(src))
def piece(r, depth=0):
    q = r.random()
    c = lambda: [r.choice("/*QNEPVLRB") for _ in range(r.randrange(3))]
    if q < .3: return ["P"] + gap(r) + ["V"]
    if q < .5: return ["L"] + gap(r) + (["Q"] + [x for x in c() if x not in "QN"] + ["Q"] if r.random() < .8 else []) + gap(r) + ["R"]
    if q < .7: return ["/", "*"] + c() + ["*", "/"]
    if q < .85: return ["/", "/"] + [x for x in c() if x != "N"] + ["N"]
    return [r.choice("NBNB/*QE")]
def gap(r):
    if r.random() < .7: return []
    return r.choice([["B"], ["N"], ["/", "*", r.choice("QE*/N"), "*", "/"], ["/", "/", r.choice("QE*/"), "N"]])
def rand(r):
    s = []
    while len(s) < r.randrange(4, 13): s += piece(r)
    if r.random() < .25: s[r.randrange(len(s))] = r.choice("/*QNEPVLRB")
    if r.random() < .15: del s[r.randrange(len(s))]
    return s[:13]
def place(out, code):
    """line and column of the first report with that code"""
    m = re.search(r"error\[%s\].*?┌─ \"[^\"]*\":(\d+):(\d+)" % code, out, re.S)
    return (int(m.group(1)), int(m.group(2))) if m else None

def scan(c, o, late):
    """one text of the model in the real compiler; late: an undeclared name follows, whose place is reported"""
    src = HEAD + text(o["src"])
    bad = late and o["v"] == "accept" and o["code"]
    src += ("s += zz;" if bad else "") + "\n" + MARK + "log(s);\n}\ncomponent main = M();\n"
    x = circ.compile(src, ["--verbose", "--O0"], timeout=20)
    circ.shutil.rmtree(x.dir, ignore_errors=True)
    out = ANSI.sub("", x.out)
    exp, got = dict(verdict=o["v"]), None
    if o["v"] == "accept" and bad:
        exp = dict(verdict="undeclared", place=(o["line"] + 2, o["col"] + 5))
        got = dict(verdict="undeclared" if x.rc == 1 and "[T2021]" in out else "accept" if x.rc == 0 else "exit %s" % x.rc, place=place(out, "T2021"))
    elif o["v"] == "accept":
        logs = ["".join(atom(e["a"], e["k"]) for e in l) for l in o["logs"]]
        exp["printed"] = logs + ["#end", str(sum(weight(k) if k < 14 else 0 for k in o["adds"]))]
        got = dict(verdict="accept" if x.rc == 0 else "exit %s" % x.rc, printed=out.split("template instances")[0].split("\n")[:-1] if x.rc == 0 else [])
    elif o["v"] == "unclosed":
        exp["place"] = (o["open"]["l"] + 2, "any of", o["open"]["c"], o["open"]["c"] + 2)
        p = place(out, "P1005")
        got = dict(verdict="unclosed" if x.rc == 1 and "[P1005]" in out else "exit %s" % x.rc, place=p)
        if p and p[0] == exp["place"][0] and o["open"]["c"] <= p[1] <= o["open"]["c"] + 2: exp["place"] = p
    else: got = dict(verdict="reject" if x.rc == 1 else "accept" if x.rc == 0 else "exit %s" % x.rc)
    return exp == got, dict(source=src, atoms=" ".join(o["src"]), expected=exp, observed=got, output=out[-800:])

def model(c, mode, arg):
    t = tlc.run("Scan", env={"MODE": mode, "MAX" if mode == "enum" else "CASES": str(arg)}, big=False)
    c.tlc(t)
    return [tlc.parse(l)[1] for l in t.lines]

# ------------------------------------------------------------- layouts
NOTE = ["/* c */", "/**/", "/***/", "/* \" */", "/* // */", "/* é */", "// c\n", "// \"\n", "// /*\n", "//\n", "/* ; } */", "/*\n*/", "/* a\n é ** / \n*/", "// é */\n", "//*\n", "/*/ */", "/* x **/", "//\r\n"]
BLANK = [" ", "  ", "\n", "\t", "\r\n", " \n ", "\n\n"]
CLOSED = set("()[]{};,")
def layout(r, toks, kind):
    """the same tokens with other things between them; kind 0: one blank each"""
    out, pos, n = "", [], 0
    for i, t in enumerate(toks):
        if i:
            tight = toks[i - 1] in CLOSED or t in CLOSED
            s = "" if tight and kind in (2, 3) and r.random() < .6 else " " if kind == 0 or r.random() < .5 else r.choice(BLANK)
            if kind == 1 and r.random() < .25 or kind == 3 and r.random() < .1:
                s = (s or " ") + "".join(r.choice(NOTE) + r.choice(["", " "]) for _ in range(r.randrange(1, 3))) + r.choice([" ", "\n"])
            out += s
        pos.append(len(out)); out += t
    return out + r.choice(["", "\n", " // end", "\n/* end */\n"]) if kind else out + "\n", pos
def reports(out, src, toks, pos):
    starts = [0]
    for i, ch in enumerate(src):
        if ch == "\n": starts.append(i + 1)
    rs = []
    for b in re.split(r"\n(?=(?:error|warning|note)(?:\[|:))", "\n" + out):
        m = re.match(r"\s*(error|warning|note)(\[[^\]]*\])?: (.*)", b)
        if not m: continue
        l = re.search(r"┌─ \"[^\"]*\":(\d+):(\d+)", b)
        at = "nowhere"
        if l:
            o = starts[int(l.group(1)) - 1] + int(l.group(2)) - 1 if int(l.group(1)) <= len(starts) else -1
            k = max([i for i, q in enumerate(pos) if q <= o], default=-1)
            if o >= pos[k] + len(toks[k]) and k >= 0: k, o = k + 1, (pos + [0])[k + 1]    # between two tokens: the second
            at = "%d %s+%d" % (k, (toks + ["end"])[k], o - (pos + [0])[k])
        msg = re.sub(r"\(\d+, |, \d+\)|location: \d+", "", m.group(3))
        rs.append("%s%s %s @ %s" % (m.group(1), m.group(2), msg, at))
    return sorted(rs)
def one(job):
    src, toks, pos, prime, how = job
    x = circ.compile(src, ["--O1", "--r1cs", "--sym", "--json"], prime=prime, timeout=20)
    rep = reports(ANSI.sub("", x.out), src, toks, pos)
    fs = {"<reports>": hashlib.sha256("\n".join(rep).encode()).hexdigest()[:16]}
    for f in ("a.r1cs", "a.sym", "a_constraints.json"):
        q = os.path.join(x.dir, f)
        if os.path.exists(q): fs[f] = hashlib.sha256(open(q, "rb").read()).hexdigest()[:16]
    circ.shutil.rmtree(x.dir, ignore_errors=True)
    return dict(how=how, rc=str(x.rc), files=fs), x.out, rep
def sources(r, b, k):
    out = []
    for i in range(k):
        prime = "bn128" if i % 4 else list(PRIMES)[(b + i // 4) % 8]
        cs = lang.gen_case(r, prime, dict(stmts=4 + i % 4, templates=3, funcs=2, buses=i % 2 == 0, logs=0.3), 0)
        pr = cs["prog"]
        if i % 3 == 1: pr, _ = mutate.mutant(r, pr, r.randint(1, 2), None)
        t = render.program(pr)
        if i % 3 == 2: t = textfuzz.mutate(r, t, 1)
        t = re.sub(r"//[^\n\"]*$", "", t, flags=re.M)
        T = [x for x in re.findall(r'2\.\d+\.\d+|' + textfuzz.TOK.pattern, t, re.S) if not x.isspace()]
        if any(q in x for x in T for q in ("/*", "//", "*/")) or '"' in T or any(a + b2 in ("//", "/*", "*/") for a, b2 in zip(T, T[1:])): continue
        out.append((T, prime))
    return out

def run(c):
    objs = model(c, "enum", 3 if not c.thorough else 4)
    res = circ.pmap(lambda a: scan(c, a[1], a[0] % 2), list(enumerate(objs)))
    def judge(res, os_):
        for (ok, rep), o in zip(res, os_):
            c.traces += 1; c.count("texts_" + o["v"])
            if not ok: c.violation("text %r: expected %s, observed %s" % (rep["atoms"], rep["expected"], rep["observed"]), rep)
            if len(c.violations) >= 5: return
    judge(res, objs)
    for b in c.batches(1):
        r = c.rng(b)
        cs = [rand(r) for _ in range(1500)]
        f = tempfile.NamedTemporaryFile("w", suffix=".json", dir=circ.SCRATCH, delete=False); json.dump(cs, f); f.close()
        objs = model(c, "trace", f.name); os.unlink(f.name)
        if len(objs) != len(cs): raise circ.ToolError("TLC read %d of %d texts" % (len(objs), len(cs)))
        judge(circ.pmap(lambda a: scan(c, a[1], a[0] % 2), list(enumerate(objs))), objs)
        if len(c.violations) >= 5: return
        jobs, meta = [], []
        for i, (T, prime) in enumerate(sources(r, b, 200)):
            for kind in (0, 1, 2, 3, 1):
                s, pos = layout(r, T, kind)
                jobs.append((s, T, pos, prime, "layout %d" % kind)); meta.append(i)
        out = circ.pmap(one, jobs)
        recs, obs = [], []
        for i in sorted(set(meta)):
            ks = [k for k, m in enumerate(meta) if m == i]
            recs.append(dict(id=len(recs), files=4, runs=[out[k][0] for k in ks]))
            o = type("O", (), {})()
            ref = out[ks[0]]; dif = next((k for k in ks if out[k][0]["rc"] != ref[0]["rc"] or out[k][0]["files"] != ref[0]["files"]), ks[0])
            o.src, o.args, o.prime, o.case, o.rc = jobs[dif][0], ["--O1", "--r1cs", "--sym", "--json"], jobs[dif][3], {}, out[dif][0]["rc"]
            o.out = "first layout: %s\nthis layout: %s\n%s" % (ref[2], out[dif][2], ANSI.sub("", out[dif][1])[-1200:])
            obs.append(o); c.count("layouts", len(ks)); c.count("laid_out_" + ("accepted" if ref[0]["rc"] == "0" else "rejected"))
        art.report(c, art.judge(c, "TraceRuns", recs), obs)
