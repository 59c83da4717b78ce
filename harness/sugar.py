"""Random programs that use anonymous components, tuples and `_`.  What they mean is decided by spec/Desugar.tla."""
import copy
from gen import n, v, b, u, t, call, arr, var, sig, comp, asg, ceq, iff, wh, fr, blk, ret, ast, log, loop, prog, tmpl
def tu(*es): return {"k": "tu", "es": list(es)}
def par(e): return {"k": "par", "e": e}
def mt(l, o, r, style=None):
    s = {"k": "mt", "l": l, "o": o, "r": r}
    if style: s["style"] = style
    return s
def und(o, r): return {"k": "und", "o": o, "r": r}
US = v("_")

class Sugar:
    def __init__(self, r, p, logs=False):
        self.r, self.p, self.logs = r, p, logs
        self.T, self.iface, self.uid = {}, {}, 0
        self.F = {"fq": {"params": ["x"], "body": [ret(b("*", v("x"), v("x")))]}}
        if self.hit(.4): self.F["ft"] = self.tuple_function()
        if self.hit(.5): self.F["fc"] = {"params": ["x", "y"], "body": self.compound(["x", "y"], r.randrange(3, 9)) + [ret(b("+", v("x"), v("y")))]}
    def hit(self, x): return self.r.random() < x
    def new(self, pre):
        self.uid += 1; return "%s%d" % (pre, self.uid)
    def tuple_function(self):
        r = self.r
        body = [{"k": "mdecl", "kind": "var", "q": "mid", "ns": [{"n": "a", "d": []}, {"n": "w", "d": [n(2)]}], "o": "=",
                 "i": [tu(b("+", v("x"), n(1)), arr(v("x"), v("y")))]},
                mt(tu(v("a"), US, v("x")), "=", tu(b("*", v("y"), n(r.randrange(1, 5))), v("a"), b("+", v("a"), v("y"))))]
        if self.hit(.5):
            body.append(self.loop("z", r.randrange(1, 3), [mt(tu(v("a"), v("w", v("z"))), "=", tu(b("+", v("a"), v("x")), v("a")))]))
        return {"params": ["x", "y"], "body": body + [ret(b("+", b("*", v("a"), v("x")), v("w", n(1))))]}
    def compound(self, names, k, consts=False):
        """x op= e, x++, x--: each the documented abbreviation"""
        r, out = self.r, []
        for _ in range(k):
            x = r.choice(names)
            e = n(r.randrange(1, 70)) if consts or self.hit(.6) else v(r.choice(names))
            op = r.choice(["+", "-", "*", "/", "\\", "%", "**", "<<", ">>", "&", "|", "^"])
            if op in "/\\%": e = n(r.randrange(1, 9))
            if op in ("<<", ">>", "**"): e = n(r.randrange(4))
            if self.hit(.3): out.append(asg("=", v(x), b(r.choice("+-"), v(x), n(1)), "inc"))
            else:
                if self.hit(.3): e = b(r.choice("+-*"), e, n(r.randrange(1, 5))) if op not in "/\\%" else e
                out.append(asg("=", v(x), b(op, v(x), e), "cmp"))
        return out
    def loop(self, i, k, bd):
        s = loop(i, 0, k, bd); s["lid"] = self.new("q_")
        return s
    # ---- scalars and arrays readable in a template: ctx.pool = [(expr maker, dims)]
    def leaf(self, ctx, d=1):
        """a (quadratic) scalar expression without sugar"""
        r = self.r
        ps = [m for m, dd in ctx.pool if dd == []] + [(lambda m=m, k=k: self.at(m(), n(k))) for m, dd in ctx.pool if len(dd) == 1 for k in range(dd[0])]
        def atom(): return r.choice(ps)() if ps and self.hit(.85) else n(r.randrange(9))
        c = r.random()
        if c < .4 or d == 0: return atom()
        if c < .6: return b(r.choice("+-"), atom(), atom())
        if c < .75: return b("+", b("*", n(r.randrange(2, 9)), atom()), atom())
        if c < .8 and ctx.vals: return r.choice(ctx.vals)()
        return b("*", b(r.choice("+-"), atom(), atom()), atom()) if self.hit(.5) else b("+", b("*", atom(), atom()), atom())
    def at(self, e, i):
        e = copy.deepcopy(e); e["a"].append({"k": "i", "e": i}); return e
    def src(self, ctx, dims, depth):
        """an expression of the given dimensions"""
        r = self.r
        if depth > 0 and self.hit(.45 if dims == [] else .5):
            return self.anon(ctx, [dims], depth)
        if dims == []: return self.leaf(ctx)
        ps = [m for m, d in ctx.pool if d == dims]
        if ps and self.hit(.6): return r.choice(ps)()
        return arr(*[self.src(ctx, dims[1:], depth - 1) for _ in range(dims[0])])
    def anon(self, ctx, outs, depth, check=False):
        """an anonymous component with these outputs"""
        r = self.r
        cand = [k for k in ctx.known if self.iface[k][2] == outs and self.iface[k][3] == check]
        if cand and self.hit(.13): name = r.choice(cand)
        else: name = self.template(outs, max(0, depth - 1), check)
        ctx.known.append(name)
        prm, ins, _, _ = self.iface[name]
        if check:
            e = self.leaf(ctx); es = [e, copy.deepcopy(e)] if self.hit(.9) else [e, self.leaf(ctx)]
        else: es = [self.src(ctx, d, depth - 1) for _, d in ins]
        e = {"k": "an", "t": name, "ps": [self.konst(ctx) for _ in prm], "is": es, "ns": [], "os": [], "site": self.new("S"), "reps": "30"}
        if self.hit(.3):
            o = list(range(len(ins))); r.shuffle(o)
            e["is"] = [es[i] for i in o]; e["ns"] = [ins[i][0] for i in o]; e["os"] = ["<=="] * len(ins)
        return par(e) if self.hit(.12) else e
    def konst(self, ctx):
        r = self.r
        return n(r.randrange(5)) if self.hit(.6) or not ctx.ks else b("+", v(r.choice(ctx.ks)), n(r.randrange(3)))
    # ---- templates
    def template(self, outs, depth, check=False, ismain=False):
        r = self.r
        k = self.new("")
        name = "T" + k
        prm = ["k"] if self.hit(.4) and not ismain else []
        ins = [("i%d_%s" % (j, k), r.choice([[], [], [], [2], [3], [2, 2]] if j else [[], [], [2]])) for j in range(2 if check else r.randrange(1, 4))]
        if check: ins = [(a, []) for a, _ in ins]
        # with this an input order that differs from the alphabetical one is frequent
        r.shuffle(ins)
        os = [("o%d_%s" % (j, k), d) for j, d in enumerate(outs)]
        r.shuffle(os); os = [(nm, d) for (nm, _), d in zip(os, outs)]
        ctx = Ctx(); ctx.key = k; ctx.ks = list(prm); ctx.known = []
        decl = [("in", x) for x in ins] + [("out", x) for x in os]
        # any interleaving that keeps both orders
        a, c, decl = [("in", x) for x in ins], [("out", x) for x in os], []
        while a or c: decl.append((a if a and (not c or self.hit(.6)) else c).pop(0))
        body = []
        pend = {x[0] for _, x in decl if _ == "out"}
        late = []       # outputs declared with their value
        i = 0
        while i < len(decl):
            q, (nm, d) = decl[i]
            same = [decl[i]]
            while i + len(same) < len(decl) and decl[i + len(same)][0] == q and self.hit(.3): same.append(decl[i + len(same)])
            if len(same) > 1:
                body.append({"k": "mdecl", "kind": "signal", "q": q, "ns": [{"n": x, "d": [n(y) for y in dd]} for _, (x, dd) in same], "o": "", "i": []})
            else: body.append(sig(q, nm, [n(y) for y in d]))
            i += len(same)
        for nm, d in ins: ctx.pool.append((lambda nm=nm: v(nm), d))
        todo = [(nm, d) for nm, d in os]
        if check: body.append(ceq(b("+", v(ins[0][0]), v("k") if prm else n(0)), b("+", v(ins[1][0]), v("k") if prm else n(0))))
        else:
            for _ in range(r.randrange(0, 3) if depth > 0 else r.randrange(0, 2)):
                todo.insert(r.randrange(len(todo) + 1), (self.new("m") + "_" + k, r.choice([[], [], [2]]), "mid"))
        self.iface[name] = (prm, ins, outs, check)
        while todo:
            g = [todo.pop(0) for _ in range(min(len(todo), r.choice([1, 1, 2, 3])))]
            body += self.assign(ctx, g, depth)
            if depth > 0 and self.hit(.2): body += self.extra(ctx, depth)
        self.T[name] = tmpl(prm, body)
        return name
    def target(self, x): return v(x[0])
    def assign(self, ctx, g, depth):
        """statements that assign the signals of g = [(name, dims[, "mid"])]"""
        r = self.r
        out = []
        mids = [x for x in g if len(x) == 3]
        def publish():
            for x in g: ctx.pool.append((lambda nm=x[0]: v(nm), x[1]))
        if len(g) == 1 and mids and self.hit(.3):       # declaration with its value
            x = g[0]; s = sig("mid", x[0], [n(y) for y in x[1]])
            s["init"] = self.src(ctx, x[1], depth); s["io"] = "<=="
            publish(); return [s]
        if len(g) > 1 and len(mids) == len(g) and self.hit(.6):
            i = self.right(ctx, [x[1] for x in g], depth)
            out = [{"k": "mdecl", "kind": "signal", "q": "mid", "ns": [{"n": x[0], "d": [n(y) for y in x[1]]} for x in g], "o": "<==", "i": [i]}]
            publish(); return out
        for x in mids: out.append(sig("mid", x[0], [n(y) for y in x[1]]))
        c = r.random()
        if len(g) == 1:
            x = g[0]
            if x[1] and c < .5 and depth > 0: out += self.array_loop(ctx, x, depth)
            elif c < .62 and ctx.ks and depth > 0:
                out.append(iff(b(r.choice(["==", "<"]), v(ctx.ks[0]), n(r.randrange(3))), [asg("<==", v(x[0]), self.src(ctx, x[1], depth))],
                               [asg("<==", v(x[0]), self.src(ctx, x[1], depth))]))
            elif c < .7: out.append(blk([asg("<==", v(x[0]), self.src(ctx, x[1], depth))]))
            elif c < .76 and x[1] == [] and ctx.key: out.append(asg("<--", v(x[0]), self.leaf(ctx)))
            else: out.append(asg("<==", v(x[0]), self.src(ctx, x[1], depth), "rev" if self.hit(.25) else None))
        else:
            ts = [(v(x[0]), x[1]) for x in g]
            while self.hit(.25): ts.insert(r.randrange(len(ts) + 1), (US, r.choice([[], [2]])))
            op = "<==" if self.hit(.9) else "<--"
            l, dd = self.left(ts)
            R = self.right(ctx, [d for _, d in ts], depth if op == "<==" else 0)
            out.append(mt(l, op, R, "rev" if self.hit(.2) else None))
        publish()
        return out
    def left(self, ts):
        es = [x for x, _ in ts]
        return tu(*self.grouped(es)), None
    def grouped(self, es):
        """the same elements, some of them grouped in nested tuples"""
        if len(es) > 2 and self.hit(.35):
            i = self.r.randrange(len(es) - 1); j = self.r.randrange(i + 2, len(es) + 1)
            if j - i < len(es): return es[:i] + [tu(*es[i:j])] + es[j:]
        return es
    def right(self, ctx, dims, depth):
        """a tuple of these dimensions: by elements, by components, or both"""
        r = self.r
        if depth > 0 and len(dims) > 1 and self.hit(.5): return self.anon(ctx, dims, depth)
        es, i = [], 0
        while i < len(dims):
            k = r.randrange(2, len(dims) - i + 1) if len(dims) - i >= 2 and depth > 0 and self.hit(.3) and (i or len(dims) - i > 2) else 1
            if k > 1: es.append(self.anon(ctx, dims[i:i + k], depth))
            else: es.append(self.src(ctx, dims[i], depth))
            i += k
            if depth > 0 and self.hit(.05): es.append(self.anon(ctx, [], depth, True))
        if len(es) == 1: return tu(es[0], self.anon(ctx, [], 1, True)) if es[0]["k"] != "an" else es[0]
        return tu(*self.grouped(es)) if depth else tu(*es)
    def array_loop(self, ctx, x, depth):
        """one element after another, in a loop; components are created in each iteration"""
        r = self.r
        i = self.new("x")
        dims = x[1]
        sub = Ctx(); sub.key = ctx.key; sub.ks = ctx.ks + [i]; sub.known = ctx.known; sub.vals = ctx.vals
        sub.pool = [(m, d) for m, d in ctx.pool if d == []] + [((lambda m=m: self.at(m(), v(i))), d[1:]) for m, d in ctx.pool if len(d) >= 1 and d[0] >= dims[0]] \
                   or list(ctx.pool)
        el = self.at(v(x[0]), v(i))
        c = r.random()
        if len(dims) == 2:
            j = self.new("y")
            sub2 = Ctx(); sub2.key, sub2.ks, sub2.known, sub2.vals = sub.key, sub.ks + [j], sub.known, sub.vals; sub2.pool = sub.pool
            body = [self.loop(j, dims[1], [asg("<==", self.at(el, v(j)), self.src(sub2, [], depth))])]
            if self.hit(.5): body.append(mt(tu(US, US), "<==", self.anon(sub, [[], []], 1)))
        elif c < .3: body = [mt(tu(*[y for y in ([US, el] if self.hit(.5) else [el, US])]), "<==", self.right(sub, [[], []], depth))]
        else: body = [asg("<==", el, self.src(sub, [], depth))]
        if self.hit(.2): body.append(und("<==", self.anon(sub, [[]], 1)))
        if self.hit(.15):
            body = [iff(b("==", v(i), n(r.randrange(2))), body, copy.deepcopy(self.resite(copy.deepcopy(body))))]
        s = self.loop(i, dims[0], body)
        if self.hit(.3):        # the same loop with while
            w = wh(s["c"], body + [asg("=", v(i), b("+", v(i), n(1)), "inc")]); w["lid"] = s["lid"]
            return [var(i, (), n(0)), w]
        return [s]
    def resite(self, x):
        if isinstance(x, dict):
            if "site" in x: x["site"] = self.new("S")
            if "lid" in x: x["lid"] = self.new("q_")
            for y in x.values(): self.resite(y)
        elif isinstance(x, list):
            for y in x: self.resite(y)
        return x
    def extra(self, ctx, depth):
        """statements that assign no signal of the template"""
        r = self.r
        c = r.randrange(9)
        if c == 0:
            e = self.anon(ctx, [], depth, True)
            return [{"k": "anst", "e": e}] if e["k"] == "an" else [mt(tu(US), "<==", e)] if False else [{"k": "anst", "e": e["e"]}]
        if c == 1: return [und("<==", self.anon(ctx, [r.choice([[], [2]])], depth))]
        if c == 2: return [mt(tu(*[US] * 2), "<==", self.anon(ctx, [[], r.choice([[], [2]])], depth))]
        if c == 3:      # variables that hold what the component computes
            a, w = self.new("a"), self.new("w")
            e = self.right(ctx, [[], [2]], depth)
            ctx.vals += [lambda: b("+", v(a), n(1)), lambda: v(w, n(1))]
            if self.hit(.5):
                return [{"k": "mdecl", "kind": "var", "q": "mid", "ns": [{"n": a, "d": []}, {"n": w, "d": [n(2)]}], "o": "=", "i": [e]}]
            return [var(a), var(w, [n(2)]), mt(tu(v(a), v(w)), "=", e)]
        if c == 4:
            a = self.new("a"); e = self.src(ctx, [], depth)
            ctx.vals.append(lambda: v(a))
            return [var(a, (), e)]
        if c == 5:      # sequential assignment of variables
            a, z = self.new("a"), self.new("a"); ctx.vals.append(lambda: b("+", v(z), v(a)))
            return [var(a, (), n(r.randrange(9))), var(z, (), n(2)),
                    mt(tu(v(a), v(z)), "=", tu(b("+", v(z), n(1)), b("*", v(a), n(3)))),
                    mt(tu(v(z), tu(v(a), US)), "=", tu(v(a), v(z), v(a)))]
        if c == 6:      # components assigned and connected through tuples
            x, y = self.template([[]], 0), self.template([[], [2]], 0)
            cx, cy = self.new("c"), self.new("c")
            px, ix, ox, _ = self.iface[x]; py, iy, oy, _ = self.iface[y]
            i = tu(call(x, *[self.konst(ctx) for _ in px]), call(y, *[self.konst(ctx) for _ in py]))
            out = [{"k": "mdecl", "kind": "component", "q": "mid", "ns": [{"n": cx, "d": []}, {"n": cy, "d": []}], "o": "=", "i": [i]}]
            if self.hit(.4): out = [comp(cx), comp(cy), mt(tu(v(cx), v(cy)), "=", i)]
            ts = [(v(cx, nm), d) for nm, d in ix] + [(v(cy, nm), d) for nm, d in iy]
            r.shuffle(ts)
            if len(ts) > 1: out.append(mt(self.left(ts)[0], "<==", self.right(ctx, [d for _, d in ts], depth - 1)))
            else: out.append(asg("<==", ts[0][0], self.src(ctx, ts[0][1], depth - 1)))
            ox = [s["n"] for s in flat(self.T[x]["body"]) if s.get("q") == "out"]
            for o in ox: ctx.pool.append((lambda o=o: v(cx, o), []))
            return out
        if c == 7:
            f = r.choice([f for f in self.F if f != "fq"] + [""])
            a = self.new("a")
            ctx.vals.append(lambda: v(a))
            if not f: return [var(a, (), n(r.randrange(99)))] + self.compound([a], 3, True)
            return [var(a, (), call(f, n(r.randrange(99)), n(r.randrange(99))))] if self.hit(.6) else \
                   [var(a, (), n(5)), mt(tu(US, v(a)), "=", tu(n(1), call(f, n(r.randrange(99)), v(a))))]
        if self.logs:
            return [log("s", self.leaf(ctx), tu(self.leaf(ctx), tu(self.leaf(ctx), self.leaf(ctx)))) if self.hit(.6) else log(tu(n(1), n(2)), "x")]
        return [log(tu(self.leaf(ctx), self.leaf(ctx)))]
    def program(self):
        r = self.r
        name = self.template([r.choice([[], [2], [3], [2, 2]]) for _ in range(r.randrange(1, 4))], 2 if self.hit(.8) else 3, ismain=True)
        ts = dict(self.T)
        p = prog(ts, name, funcs=self.F)
        p["main"]["an"] = False
        return p, self.iface[name][1]

class Ctx:
    def __init__(self): self.pool, self.vals, self.ks, self.known, self.key = [], [], [], [], ""

def flat(ss):
    """all declarations [{n, q}] of a body"""
    out = []
    for s in ss:
        if s["k"] == "sig": out.append({"n": s["n"], "q": s["q"]})
        elif s["k"] == "mdecl" and s["kind"] == "signal": out += [{"n": x["n"], "q": s["q"]} for x in s["ns"]]
        for f in ("t", "e", "b"):
            if isinstance(s.get(f), list): out += flat(s[f])
    return out

# ---------------------------------------------------------------- misuse
def nodes(x, pred, path=()):
    out = []
    if isinstance(x, dict):
        if pred(x): out.append(path)
        for k, y in x.items(): out += nodes(y, pred, path + (k,))
    elif isinstance(x, list):
        for i, y in enumerate(x): out += nodes(y, pred, path + (i,))
    return out
def at(x, path):
    for k in path: x = x[k]
    return x
def put(x, path, y): at(x, path[:-1])[path[-1]] = y
EXPR = {"n", "v", "b", "u", "t", "c", "a", "an", "tu", "par"}
def isexpr(x): return x.get("k") in EXPR and "d" not in x

def misuse(r, S, p):
    """p with one change, usually an illegal use of the sugar (Desugar and Static decide)"""
    orig = p
    def fresh(a):
        a = copy.deepcopy(a); return S.resite(a)
    def one():       # a small component: one output
        a = [x for x in ans if S.iface[at(T, x)["t"]][2] == [[]]]
        return fresh(at(T, r.choice(a))) if a else None
    body = lambda: T[r.choice(list(T))]["body"]
    for _ in range(40):
        p = copy.deepcopy(orig)
        T = p["templates"]
        ans = nodes(T, lambda x: x.get("k") == "an")
        c = r.choice(list(range(22)) + [8] * 9)
        if c <= 5 and ans:
            a = r.choice(ans); e = at(T, a)
            w = [lambda: b("+", e, n(1)), lambda: b("*", n(2), e), lambda: u("-", e), lambda: t(b("==", n(1), n(1)), e, n(0)), lambda: call("fq", e),
                 lambda: t(b("==", e, n(1)), n(1), n(0)), lambda: tu(e, n(1)), lambda: arr(e), lambda: tu(e, e2()), lambda: par(b("+", e, n(1)))]
            e2 = lambda: fresh(e)
            if len(a) and a[-1] == "e" and at(T, a[:-1]).get("k") in ("anst",): continue
            x = r.choice(w)()
            if x["k"] == "tu" and a[-1] == "e": continue
            put(T, a, x); return p, "operand"
        if c == 6 and ans:
            e = at(T, r.choice(ans)); x = one()
            if e["ps"] and x: e["ps"][0] = r.choice([x, b("+", x, n(1)), tu(n(1), n(2))]); return p, "param"
        if c == 7:
            ix = nodes(T, lambda x: x.get("k") == "i" and "e" in x and "l" not in x and x.get("e", {}).get("k") in EXPR if isinstance(x.get("e"), dict) else False)
            x = one()
            if ix and x: at(T, r.choice(ix))["e"] = r.choice([x, tu(n(0), n(1)), b("+", n(0), tu(n(0), n(0)))]); return p, "index"
        if c == 8:
            x = one()
            s = r.choice([lambda: iff(b("==", x, n(1)), [log("a")]), lambda: iff(tu(n(1), n(1)), [log("a")]), lambda: log(x), lambda: log(tu(n(1), x)), lambda: log(b("+", tu(n(1), n(2)), n(1))),
                          lambda: ast(x), lambda: ast(tu(n(1), n(1))), lambda: ceq(x, n(1)), lambda: ceq(n(1), x), lambda: ceq(tu(n(1), n(2)), tu(n(1), n(2))),
                          lambda: var("zz", [x]), lambda: var("zz", [tu(n(1), n(2))]), lambda: dict(wh(b("<", x, n(1)), [log("a")]), lid="q_z"),
                          lambda: und("<--", x), lambda: mt(tu(US, US), "<--", tu(n(1), x)), lambda: mt(x, "<==", n(1)), lambda: mt(tu(US, x), "<==", tu(n(1), n(2))),
                          lambda: mt(tu(US, US), "<==", n(1)), lambda: mt(tu(US, n(2)), "<==", tu(n(1), n(2))), lambda: und("<==", tu(n(1), n(2))),
                          lambda: mt(tu(US, US), "<==", tu(n(1), n(2), n(3))), lambda: mt(tu(US, US, US), "<==", tu(n(1), tu(n(2), n(3)))),
                          lambda: und("=", US), lambda: log(US), lambda: und("<==", n(4)), lambda: und("=", n(4)), lambda: mt(tu(US, US), "=", tu(n(1), n(2))),
                          lambda: {"k": "anst", "e": x}, lambda: und("<==", par(x)), lambda: und("=", x), lambda: mt(tu(US, US), "=", tu(x, n(1))),
                          lambda: mt(b("+", n(1), n(2)), "<==", n(1)), lambda: mt(n(1), "=", tu(n(1), n(2))), lambda: und("<==", arr(tu(n(1), n(2)), n(1))),
                          lambda: und("<==", arr(x, n(1))), lambda: und("<==", call("fq", tu(n(1), n(2)))), lambda: und("=", t(b("==", n(1), n(1)), tu(n(1), n(2)), n(1))),
                          lambda: iff(b("==", n(1), n(1)), [und("<==", x)]), lambda: iff(b("==", n(1), n(2)), [und("<==", x)])])
            if not x: continue
            bd = body(); bd.insert(r.randrange(len(flat_decls(bd)), len(bd) + 1), s()); return p, "statement"
        if c == 9 and ans:
            e = at(T, r.choice(ans))
            if e["is"]:
                if r.random() < .5: i = r.randrange(len(e["is"])); e["is"].pop(i); e["ns"] and (e["ns"].pop(i), e["os"].pop(i))
                else:
                    e["is"].append(n(1)); e["ns"] and (e["ns"].append(r.choice(e["ns"])), e["os"].append("<=="))
                if not e["is"]: continue
                return p, "count"
        if c == 10 and ans:
            e = at(T, r.choice(ans))
            if e["ns"]:
                i = r.randrange(len(e["ns"]))
                k = r.randrange(4)
                if k == 0: e["ns"][i] = "nosuch"
                elif k == 1: e["os"][i] = r.choice(["<--", "="])
                elif k == 2: e["ns"][i] = e["ns"][0]
                else:
                    os = [s["n"] for s in flat(T[e["t"]]["body"]) if s["q"] == "out"]
                    if not os: continue
                    e["ns"][i] = os[0]
                return p, "names"
        if c == 11 and ans:
            at(T, r.choice(ans))["t"] = r.choice(["NoSuch", "fq"] + list(T)); return p, "template"
        if c in (12, 13):
            ms = nodes(T, lambda x: x.get("k") in ("mt",) or x.get("k") == "mdecl" and x["i"])
            if ms:
                m = at(T, r.choice(ms))
                ls = m["l"]["es"] if m["k"] == "mt" else m["ns"]
                k = r.randrange(3)
                if k == 0 and m["k"] == "mt": ls.insert(r.randrange(len(ls) + 1), copy.deepcopy(US))
                elif k == 1 and len(ls) > 2 and m["k"] == "mt": ls.pop(r.randrange(len(ls)))
                elif len(ls) > 1: i = r.randrange(len(ls) - 1); ls[i], ls[i + 1] = ls[i + 1], ls[i]
                else: continue
                if m["k"] == "mt" and len(ls) < 2: continue
                return p, "lengths"
        if c == 14:
            os = nodes(T, lambda x: x.get("k") in ("as", "mt") and x.get("o") in ("<==", "="))
            if os:
                s = at(T, r.choice(os)); s["o"] = r.choice(["<--", "=", "<=="]); s.pop("style", None); return p, "op"
        if c == 15 and ans:
            x = one()
            if x:
                p["funcs"]["fa"] = {"params": ["x"], "body": r.choice([[und("=", x), ret(v("x"))], [var("q", (), x), ret(n(1))], [ret(x)], [ret(tu(n(1), n(2)))],
                                                                       [und("=", tu(v("x"), v("x"))), ret(n(1))], [mt(tu(US, v("x")), "=", tu(v("x"), n(2))), ret(v("x"))]])}
                return p, "function"
        if c == 16:
            x = one()
            s = r.choice([und("<==", b("+", x, n(1))), mt(tu(US, US), "<==", n(1)), log(x)] if x else [mt(tu(US, US), "<==", n(1))])
            T["Unused"] = tmpl([], [s]); return p, "unused"
        if c == 17: p["main"]["an"] = True; return p, "main"
        if c in (18, 19):      # a value of other dimensions somewhere
            es = nodes(T, lambda x: x.get("k") == "an" and x["is"])
            if es:
                e = at(T, r.choice(es)); i = r.randrange(len(e["is"]))
                e["is"][i] = r.choice([n(1), arr(n(1), n(2)), arr(n(1), n(2), n(3)), arr(arr(n(1), n(2)), arr(n(3), n(4)))]); return p, "dims"
        if c == 20 and ans:
            e = at(T, r.choice(ans)); k = r.randrange(2)
            if k == 0: e["ps"].append(n(1))
            elif e["ps"]: e["ps"].pop()
            else: continue
            return p, "arity"
        if c == 21 and ans:
            a = r.choice(ans); i = at(T, a)
            if at(T, a[:-1]).get("k") == "anst" if isinstance(at(T, a[:-1]), dict) else False: continue
            put(T, a, par(i)) ; return p, "parallel"
    return p, "none"
def flat_decls(bd):
    return [s for s in bd if s["k"] in ("sig", "mdecl") and s.get("q") in ("in", "out")]
