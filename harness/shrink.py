"""Triage aid: reduces a program on which circom and the specification disagree.
usage: python3 harness/shrink.py <file with one case: {prog, p, inputs:[[obj,flat],...]}>"""
import sys, json, copy, os
sys.path.insert(0, os.path.dirname(__file__))
import circ, render, conf
def stmts(x, path=()):
    """paths of every statement list element"""
    out = []
    if isinstance(x, dict):
        for k, y in x.items():
            if k in ("body", "t", "e", "b") and isinstance(y, list):
                for i in range(len(y)): out.append(path + (k, i))
            out += stmts(y, path + (k,))
    elif isinstance(x, list):
        for i, y in enumerate(x): out += stmts(y, path + (i,))
    return out
def exprs(x, path=()):
    """(path, replacement) pairs"""
    out = []
    if isinstance(x, dict):
        if x.get("k") == "as" and x.get("style") in ("inc", "cmp"):
            return exprs(x["r"]["r"], path + ("r", "r")) if x["style"] == "cmp" else []
        if x.get("k") == "b" and "o" in x: out += [(path, x["l"]), (path, x["r"])]
        if x.get("k") == "t": out += [(path, x["x"]), (path, x["y"])]
        if x.get("k") == "u": out += [(path, x["e"])]
        if x.get("k") == "c" and "f" in x: out += [(path, {"k": "n", "v": "1"})]
        for k, y in x.items(): out += exprs(y, path + (k,))
    elif isinstance(x, list):
        for i, y in enumerate(x): out += exprs(y, path + (i,))
    return out
def at(x, path):
    for k in path: x = x[k]
    return x
def variants(prog):
    for f in list(prog["funcs"]):
        q = copy.deepcopy(prog); del q["funcs"][f]; yield q
    for f in list(prog["templates"]):
        if f != prog["main"]["t"]: q = copy.deepcopy(prog); del q["templates"][f]; yield q
    for p in stmts(prog):
        q = copy.deepcopy(prog); del at(q, p[:-1])[p[-1]]; yield q
    for p in stmts(prog):
        s = at(prog, p)
        if s.get("k") in ("bl", "for", "wh", "if"):
            for body in ([s["b"]] if "b" in s else [s["t"], s["e"]]):
                q = copy.deepcopy(prog); at(q, p[:-1])[p[-1]:p[-1]+1] = body; yield q
    for p, r in exprs(prog):
        q = copy.deepcopy(prog); at(q, p[:-1])[p[-1]] = copy.deepcopy(r); yield q
def shrink(case, args=("--O0",), what=None, limit=80):
    best = case
    for rnd in range(limit):
        vs = sorted(variants(best["prog"]), key=lambda q: len(json.dumps(q)))
        found = None
        for i in range(0, len(vs), 40):
            cs = [dict(best, prog=v) for v in vs[i:i+40]]
            mis = conf.disagreements(cs, args)
            ok = [c for c, m in mis if what is None or m["what"] == what]
            if ok:
                found = min(ok, key=lambda c: len(json.dumps(c["prog"]))); break
        if not found: break
        best = found
        print(rnd, len(json.dumps(best["prog"])), file=sys.stderr)
        if os.environ.get("OUT"): json.dump(best, open(os.environ["OUT"], "w"))
    return best
if __name__ == "__main__":
    circ.scratch()
    W = circ.witnesses; circ.witnesses = lambda j: W(j, timeout=3)
    c = json.load(open(sys.argv[1]))
    r = shrink(c, what=sys.argv[2] if len(sys.argv) > 2 else None)
    print(render.program(r["prog"])); print(json.dumps(r["inputs"]))
    print(conf.disagreements([r], ("--O0",))[:1])
    circ.cleanup()
