"""Random circom programs as JSON ASTs (see spec/Lang.tla for their meaning).
The generator aims at valid programs; whether one is valid, which constraints it states and which
witness it has is decided by the specification, never here."""
import random

def n(v, src=None):
    e = {"k": "n", "v": str(v)}
    if src: e["src"] = src
    return e
def v(name, *a):
    return {"k": "v", "n": name, "a": [({"k": "f", "n": x} if isinstance(x, str) else {"k": "i", "e": x}) for x in a]}
def b(o, l, r): return {"k": "b", "o": o, "l": l, "r": r}
def u(o, e): return {"k": "u", "o": o, "e": e}
def t(c, x, y): return {"k": "t", "c": c, "x": x, "y": y}
def call(f, *a): return {"k": "c", "f": f, "as": list(a)}
def arr(*es): return {"k": "a", "es": list(es)}
def var(name, d=(), i=None): return {"k": "var", "n": name, "d": list(d), "i": [] if i is None else [i]}
def sig(q, name, d=(), bt=None, tags=None):
    s = {"k": "sig", "q": q, "n": name, "d": list(d), "bt": [] if bt is None else [bt]}
    if tags: s["tags"] = tags
    return s
def comp(name, d=(), i=None, par=False):
    s = {"k": "comp", "n": name, "d": list(d), "i": [] if i is None else [i]}
    if par: s["par"] = True
    return s
def asg(o, l, r, style=None):
    s = {"k": "as", "o": o, "l": {"n": l["n"], "a": l["a"]}, "r": r}
    if style: s["style"] = style
    return s
def ceq(l, r): return {"k": "ceq", "l": l, "r": r}
def iff(c, th, el=None): return {"k": "if", "c": c, "t": th, "e": el or [], "he": el is not None}
def wh(c, bd): return {"k": "wh", "c": c, "b": bd}
def fr(i, c, s, bd): return {"k": "for", "i": i, "c": c, "s": s, "b": bd}
def blk(bd): return {"k": "bl", "b": bd}
def ret(e): return {"k": "ret", "e": e}
def ast(e): return {"k": "ast", "e": e}
def log(*a): return {"k": "log", "as": [({"k": "str", "s": x} if isinstance(x, str) else x) for x in a]}
def loop(i, lo, hi, bd, step=None):
    return fr(var(i, (), n(lo) if isinstance(lo, int) else lo), b("<", v(i), n(hi) if isinstance(hi, int) else hi),
              asg("=", v(i), b("+", v(i), n(1)), "inc"), bd)
def prog(templates, main, args=(), public=(), funcs=None, buses=None):
    return {"templates": templates, "funcs": funcs or {}, "buses": buses or {},
            "main": {"t": main, "as": [n(x) if isinstance(x, int) else x for x in args], "public": list(public)}}
def tmpl(params, body, **kw):
    d = {"params": list(params), "body": body}; d.update(kw); return d

ALL = ["+", "-", "*", "/", "\\", "%", "**", "<<", ">>", "&", "|", "^", "==", "!=", "<", ">", "<=", ">=", "&&", "||"]
CMP = ["==", "!=", "<", ">", "<=", ">="]

class Arr:
    """something readable: name + accesses + dims (list of int or parameter name)"""
    def __init__(self, e, d): self.e, self.d = e, d

class Gen:
    def __init__(self, rnd, p, **o):
        self.r, self.p = rnd, p
        self.o = dict(funcs=2, templates=3, stmts=6, depth=3, arrays=True, comps=True, loops=True, hints=True, unknown=True,
                      logs=False, asserts=False, params=True, buses=False, comparr=True, vary=True, busrate=0.5, parallel=False, quad=True, vars=0, checks=0, spoil=0.5, custom=False)
        self.o.update(o)
        self.funcs, self.templates, self.buses = {}, {}, {}
        self.iface = {}       # template -> (params, ins, outs), ins/outs: list of (name, dims)
        self.uid = 0

    def chance(self, x): return self.r.random() < x
    def fresh(self, pre):
        self.uid += 1; return "%s%d" % (pre, self.uid)

    def const(self):
        r, p = self.r, self.p
        c = r.randrange(12)
        if c < 6: return n(r.randrange(0, 8))
        if c == 6: return n(p - r.randrange(1, 6))
        if c == 7: return n((p // 2) + r.randrange(-2, 3))
        if c == 8: return n(2 ** r.randrange(1, 70))
        if c == 9: return n(r.randrange(p))
        if c == 10:
            x = r.randrange(1, 2 ** 40); return n(x, "0x%x" % x)
        return n(r.randrange(2 ** 33))

    # ---- pure expressions over scalar atoms; every op; divisors are kept non-zero by construction
    def anyexp(self, atoms, d):
        r = self.r
        if d <= 0 or self.chance(0.15):
            return r.choice(atoms)() if self.chance(0.8) else self.const()
        c = r.random()
        if c < 0.07: return u(r.choice(["-", "!", "~"]), self.anyexp(atoms, d - 1))
        if c < 0.15:
            cond = b(r.choice(CMP), self.anyexp(atoms, d - 2), self.anyexp(atoms, d - 2))
            return t(cond, self.anyexp(atoms, d - 1), self.anyexp(atoms, d - 1))
        if c < 0.22 and self.funcs:
            e = self.fcall(lambda: self.anyexp(atoms, d - 2), scalar=True)
            if e: return e
        op = r.choice(ALL)
        l = self.anyexp(atoms, d - 1)
        if op in ("/", "\\", "%"):
            if self.chance(0.3):
                x = r.choice(atoms)()
                return t(b("!=", x, n(0)), b(op, l, x), self.const())
            return b(op, l, n(r.choice([1, 2, 3, 5, 7, 2 ** 32, self.p - 1, self.p // 2 + 1, r.randrange(1, self.p)])))
        if op in ("<<", ">>"):
            k = r.choice([0, 1, 2, 3, 7, 31, 32, 63, 64, 65, 200, 253, 254, 255, 256, 300]) if self.chance(0.8) else self.p - r.randrange(1, 300)
            return b(op, l, n(k)) if self.chance(0.8) else b(op, l, r.choice(atoms)())
        if op == "**":
            return b(op, l, n(r.choice([0, 1, 2, 3, 5, 10]))) if self.chance(0.7) else b(op, l, r.choice(atoms)())
        return b(op, l, self.anyexp(atoms, d - 1))

    # ---- linear / quadratic expressions over signals
    def lin(self, sigs, ks):
        r = self.r
        ts = []
        for _ in range(r.randrange(1, 4)):
            if sigs and self.chance(0.85):
                s = r.choice(sigs)()
                c = r.randrange(6)
                if c == 0: s = b("*", r.choice(ks)(), s)
                elif c == 1: s = b("*", s, r.choice(ks)())
                elif c == 2: s = u("-", s)
                elif c == 3 and self.chance(0.5): s = b("/", s, n(r.choice([1, 2, 3, self.p - 1])))
                ts.append(s)
            else:
                ts.append(r.choice(ks)())
        e = ts[0]
        for x in ts[1:]: e = b(r.choice(["+", "-"]), e, x)
        return e
    def quad(self, sigs, ks):
        if not self.o["quad"] or self.chance(0.35): return self.lin(sigs, ks)
        r = self.r
        c = r.random()
        if c < 0.08: q = b("**", r.choice(sigs)(), n(2)) if sigs else self.lin(sigs, ks)
        else: q = b("*", self.lin(sigs, ks), self.lin(sigs, ks))
        c = r.random()
        if c < 0.25: q = b(r.choice(["+", "-"]), q, self.lin(sigs, ks))
        elif c < 0.4: q = b(r.choice(["+", "-"]), self.lin(sigs, ks), q)
        elif c < 0.45: q = u("-", q)
        elif c < 0.5: q = b("*", r.choice(ks)(), q)
        return q

    # ---- functions
    def fcall(self, mk, scalar=True):
        fs = [f for f in self.funcs if self.finfo[f]["scalar"] == scalar]
        if not fs: return None
        f = self.r.choice(fs)
        args = []
        for d in self.finfo[f]["params"]:
            if d == "k": args.append(n(self.r.randrange(7)))     # decides the recursion: must be known
            else: args.append(mk() if d == 0 else arr(*[mk() for _ in range(d)]))
        return call(f, *args)

    def gen_funcs(self):
        self.finfo = {}
        for _ in range(self.o["funcs"]):
            self.gen_func()

    def gen_func(self):
        r = self.r
        f = self.fresh("f")
        kind = r.randrange(5)
        if kind == 0:         # recursion
            k = r.choice(["fact", "fib", "pow"])
            X, rec = v("x"), lambda y, *m: call(f, y, *m)
            if k == "fib":
                self.funcs[f] = {"params": ["x"], "body": [iff(b("<", X, n(2)), [ret(n(1))])] + [
                    ret(b("+", rec(b("-", X, n(1))), rec(b("-", X, n(2)))))]}
            elif k == "fact":
                self.funcs[f] = {"params": ["x"], "body": [iff(b("<=", X, n(0)), [ret(n(3))], [
                    ret(b(r.choice(["+", "*"]), X, rec(b("-", X, n(1)))))])]}
            else:
                self.funcs[f] = {"params": ["x", "y"], "body": [iff(b("==", X, n(0)), [ret(n(1))])] + [
                    ret(b(r.choice(["*", "+", "^"]), v("y"), rec(b("-", X, n(1)), b(r.choice(["+", "*"]), v("y"), n(1)))))]}
            self.finfo[f] = dict(params=["k"] + ([0] if k == "pow" else []), scalar=True)
            return
        params, info = [], []
        for i in range(r.randrange(1, 4)):
            d = r.choice([0, 0, 0, 2, 3]) if self.o["arrays"] else 0
            params.append("p%d" % i); info.append(d)
        scal = [(lambda q=q: v(q)) for q, d in zip(params, info) if d == 0]
        arrs = [(q, d) for q, d in zip(params, info) if d]
        for q, d in arrs:
            scal += [(lambda q=q, d=d: v(q, n(r.randrange(d)))) for _ in range(2)]
        body = []
        body.append(var("acc", (), self.anyexp(scal, 1)))
        loc = scal + [lambda: v("acc")]
        lar = list(arrs)
        if self.chance(0.5) and self.o["arrays"]:
            body.append(var("w", [n(3)], arr(*[self.anyexp(scal, 1) for _ in range(3)]) if self.chance(0.6) else None))
            lar.append(("w", 3)); loc.append(lambda: v("w", n(r.randrange(3))))
        isarr = self.chance(0.25) and any(d == 3 for q, d in lar)
        body += self.var_stmts(loc, ["acc"], lar, self.r.randrange(1, 4), 2, infunc=not isarr)
        if isarr:
            q = r.choice([q for q, d in lar if d == 3])
            body.append(ret(v(q)))
        else:
            body.append(ret(self.anyexp(loc, 2)))
        self.funcs[f] = {"params": params, "body": body}
        self.finfo[f] = dict(params=info, scalar=not isarr)

    def var_stmts(self, atoms, scalars, arrays, k, d, infunc=False):
        """statements over variables: assignments, ifs, loops (known bounds or run-time bounds)"""
        r = self.r
        out = []
        for _ in range(k):
            c = r.random()
            if c < 0.4 or d == 0:
                x = r.choice(scalars)
                if self.chance(0.25): out.append(asg("=", v(x), b(r.choice(["+", "-"]), v(x), n(1)), "inc"))
                elif self.chance(0.3):
                    op = r.choice(["+", "-", "*", "&", "|", "^", "**", "<<", ">>"])
                    rhs = n(r.randrange(4)) if op in ("**", "<<", ">>") else self.anyexp(atoms, 1)
                    out.append(asg("=", v(x), b(op, v(x), rhs), "cmp"))
                else: out.append(asg("=", v(x), self.anyexp(atoms, 2)))
            elif c < 0.5 and arrays:
                q, dd = r.choice(arrays)
                if infunc and q.startswith("p") and False: continue
                ix = n(r.randrange(dd)) if self.chance(0.6) else b("%", r.choice(atoms)(), n(dd))
                out.append(asg("=", v(q, ix), self.anyexp(atoms, 2)))
            elif c < 0.75:
                cond = b(r.choice(CMP), r.choice(atoms)(), self.anyexp(atoms, 1))
                th = self.var_stmts(atoms, scalars, arrays, r.randrange(1, 3), d - 1, infunc)
                el = self.var_stmts(atoms, scalars, arrays, r.randrange(1, 3), d - 1, infunc) if self.chance(0.6) else None
                if infunc and self.chance(0.2): th = th + [ret(self.anyexp(atoms, 1))]
                out.append(iff(cond, th, el))
            elif c < 0.92 and self.o["loops"]:
                i = self.fresh("i")
                at2 = atoms + [lambda i=i: v(i)]
                bd = self.var_stmts(at2, scalars, arrays, r.randrange(1, 3), d - 1, infunc)
                for q, dd in arrays[:1]:
                    if self.chance(0.5):
                        bd.append(asg("=", v(q, b("%", v(i), n(dd))), self.anyexp(at2, 1)))
                if self.chance(0.7):
                    out.append(loop(i, 0, r.randrange(0, 5), bd))
                else:      # data-dependent bound
                    lim = b("%", r.choice(atoms)(), n(r.randrange(2, 5)))
                    m = self.fresh("m")
                    out.append(blk([var(m, (), lim), var(i), wh(b("<", v(i), v(m)), bd + [asg("=", v(i), b("+", v(i), n(1)))])]))
            else:
                x = self.fresh("y")
                at2 = atoms + [lambda x=x: v(x)]
                out.append(blk([var(x, (), self.anyexp(atoms, 1))] + self.var_stmts(at2, scalars + [x], arrays, 2, d - 1, infunc)))
        return out

    # ---- templates
    def dimexp(self, d): return [n(x) if isinstance(x, int) else v(x) for x in d]
    def size(self, d, env): 
        s = 1
        for x in d: s *= x if isinstance(x, int) else env[x]
        return s

    def gen_template(self, name, others, ismain=False):
        r, o = self.r, self.o
        params = [] if not o["params"] else ["n%d" % i for i in range(r.choice([0, 0, 1, 1, 2]))]
        custom = o["custom"] and not ismain and self.chance(0.6)
        if custom:
            others = []
            params = ["n%d" % i for i in range(r.randrange(0, 4))]; r.shuffle(params)
        body, derived = [], []
        if params and o["vary"] and self.chance(0.25):
            # a dimension computed before it is used
            q, k = self.fresh("dm"), r.randrange(1, 3)
            if self.chance(0.5):
                body.append(var(q, (), b("+", v(params[0]), n(k)))); derived.append((q, lambda env, k=k, x=params[0]: env[x] + k))
            else:
                i = self.fresh("i")
                body += [var(q, (), n(k)), loop(i, 0, v(params[0]), [asg("=", v(q), b("+", v(q), n(1)), "inc")])]
                derived.append((q, lambda env, k=k, x=params[0]: env[x] + k))
        names = params + [q for q, _ in derived] * 3
        def rdims():
            if not o["arrays"] or self.chance(0.55): return []
            return [r.choice([1, 2, 3, 3] + names) for _ in range(r.choice([1, 1, 2]))]
        def item(pre):
            if self.buses and self.chance(o["busrate"]):
                B = r.choice(sorted(self.buses))
                return (self.fresh("b"), [r.choice([1, 2])] if o["arrays"] and self.chance(0.25) else [],
                        (B, [r.choice([1, 2] + params) for _ in self.buses[B]["params"]]))
            return (self.fresh(pre), rdims(), None)
        ins = [item("in") for _ in range(r.randrange(1, 4))]
        outs = [item("out") for _ in range(r.randrange(1, 3))]
        self.iface[name] = dict(params=params, ins=ins, outs=outs, derived=derived, cond=None)
        decl = lambda k, x: sig(k, x[0], self.dimexp(x[1]), self.btexp(x[2]))
        decls = [decl("in", x) for x in ins] + [decl("out", x) for x in outs]
        if self.chance(0.3): r.shuffle(decls)
        body += decls
        ctx = dict(params=params, sigs=[], vars=[], ks=[self.const] + [(lambda q=q: v(q)) for q in params], items=[])
        for x in ins: self.readable_item(ctx, x[0], [], x)
        todo = list(outs)
        if params and o["vary"] and self.chance(0.3): self.gen_cond(name, body, ctx, params)
        for _ in range(o["vars"]): self.gen_vars(body, ctx)
        for _ in range(o["stmts"]):
            if o["checks"] and ctx["sigs"] and self.chance(o["checks"]):
                self.gen_check(body, ctx); continue
            c = r.random()
            if c < 0.3:
                x = item("s")
                body.append(decl("mid", x))
                self.assign_item(body, ctx, x)
            elif c < 0.55 and others and o["comps"]:
                self.gen_comp(body, ctx, r.choice(others))
            elif c < 0.75:
                self.gen_vars(body, ctx)
            elif c < 0.85 and todo and self.chance(0.5):
                self.assign_item(body, ctx, todo.pop())
            elif c < 0.93 and ctx["sigs"]:
                # a constraint that holds: s === expression it was computed from (trivial) or boolean-like product
                if self.chance(0.3) and self.array_check(body, ctx): continue
                s = r.choice(ctx["sigs"])()
                body.append(ceq(b("*", s, n(1)), s) if self.chance(0.5) else ceq(b("-", s, s), n(0)))
            elif o["logs"] and ctx["sigs"]:
                body.append(log("v", r.choice(ctx["sigs"])()) if self.chance(0.7) else log(self.anyexp(ctx["sigs"] + ctx["ks"], 1)))
            elif o["asserts"] and ctx["sigs"]:
                body.append(ast(b(r.choice(["<", "!=", "<=", ">="]), r.choice(ctx["sigs"])(), self.anyexp(ctx["ks"], 1))))
        for x in todo: self.assign_item(body, ctx, x)
        self.templates[name] = tmpl(params, body, **({"parallel": True} if o["parallel"] and self.chance(0.3) else {}))
        if custom:
            self.templates[name]["custom"] = True
            self.templates[name]["body"] = unconstrained(body)

    # ---- buses
    def gen_buses(self):
        r = self.r
        for i in range(r.randrange(1, 4)):
            params = ["m%d" % j for j in range(r.choice([0, 0, 1, 2]))]
            fields = []
            for j in range(r.randrange(1, 4)):
                d = [r.choice([1, 2] + params)] if self.chance(0.35) else []
                if self.buses and self.chance(0.35):
                    B = r.choice(sorted(self.buses))
                    fields.append(("f%d" % j, d if self.chance(0.4) else [], (B, [r.choice([1, 2] + params) for _ in self.buses[B]["params"]])))
                else: fields.append(("f%d" % j, d, None))
            self.buses["B%d" % i] = {"params": params, "raw": fields,
                "fields": [sig("mid", q, self.dimexp(d), self.btexp(bt)) for q, d, bt in fields]}
    def btexp(self, bt): return None if bt is None else {"n": bt[0], "as": self.dimexp(bt[1])}
    def fields(self, bt):
        """the fields of a bus, in terms of what its arguments are written in"""
        B = self.buses[bt[0]]
        return [(q, self.sub(d, dict(zip(B["params"], bt[1]))), None if x is None else (x[0], self.sub(x[1], dict(zip(B["params"], bt[1])))))
                for q, d, x in B["raw"]]
    def readable_item(self, ctx, base, pre, x):
        """base/pre: access path of the item itself"""
        q, d, bt = x
        if bt is None: self.readable(ctx, lambda: base, pre, d); return
        ctx["items"].append((base, pre, d, bt))
        ix = [self.r.choice([n(self.r.randrange(y)) if isinstance(y, int) else n(0)]) for y in d]
        for f in self.fields(bt): self.readable_item(ctx, base, pre + ix + [f[0]], f)
    def assign_item(self, body, ctx, x, base=None, pre=None, readable=True, op=None):
        q, d, bt = x
        base = base or q; pre = pre or []
        if bt is None:
            self.assign_signal(body, ctx, q, d, pre=pre, base=base, readable=readable); return
        r = self.r
        same = [y for y in ctx["items"] if y[2] == d and y[3] == bt]
        if same and self.chance(0.6):
            y = r.choice(same)
            body.append(asg(r.choice(["<==", "<==", "<--"]), v(base, *pre), v(y[0], *y[1])))
        elif d:
            one = [y for y in ctx["items"] if y[2] == [] and y[3] == bt]
            if one and all(isinstance(k, int) for k in d) and len(d) == 1 and self.chance(0.4):
                body.append(asg(r.choice(["<==", "<--"]), v(base, *pre), arr(*[v(y[0], *y[1]) for y in [r.choice(one) for _ in range(d[0])]])))
            elif all(isinstance(k, int) for k in d) and self.chance(0.5):
                def all_ix(dd): return [[]] if not dd else [[n(i)] + z for i in range(dd[0]) for z in all_ix(dd[1:])]
                for ix in all_ix(d): self.assign_item(body, ctx, (q, [], bt), base, pre + ix, False)
            else:
                idx = [self.fresh("i") for _ in d]
                st = []
                ctx2 = dict(ctx)
                self.assign_item(st, ctx2, (q, [], bt), base, pre + [v(i) for i in idx], False)
                for i, k in reversed(list(zip(idx, d))): st = [loop(i, 0, n(k) if isinstance(k, int) else v(k), st)]
                body += st
        else:
            fs = self.fields(bt)
            if self.chance(0.3): r.shuffle(fs)
            for f in fs: self.assign_item(body, ctx, f, base, pre + [f[0]], False)
        if readable: self.readable_item(ctx, base, pre, x)

    def gen_cond(self, name, body, ctx, params):
        """inputs and outputs that only some instances of the template have"""
        r = self.r
        q, k = r.choice(params), r.randrange(1, 3)
        def part():
            ins = [(self.fresh("ci"), [r.choice([1, 2] + params)] if self.o["arrays"] and self.chance(0.4) else [], None) for _ in range(r.choice([0, 1, 1, 2]))]
            outs = [(self.fresh("co"), [], None) for _ in range(r.choice([0, 1, 1]))]
            st = [sig("in", x[0], self.dimexp(x[1])) for x in ins] + [sig("out", x[0], []) for x in outs]
            c2 = dict(ctx); c2["sigs"] = list(ctx["sigs"]); c2["arrs"] = list(ctx.get("arrs", []))
            for x in ins: self.readable(c2, lambda x=x: x[0], [], x[1])
            for x in outs: self.assign_signal(st, c2, x[0], x[1])
            return ins, outs, st
        th, el = part(), part() if self.chance(0.5) else None
        op = r.choice(["==", ">", "<", "!="])
        body.append(iff(b(op, v(q), n(k)), th[2], el[2] if el else None))
        test = {"==": lambda x: x == k, ">": lambda x: x > k, "<": lambda x: x < k, "!=": lambda x: x != k}[op]
        self.iface[name]["cond"] = (q, test, th[:2], el[:2] if el else ([], []))

    def interface(self, tn, env):
        """inputs and outputs of an instance; env: parameter -> int (or outer name, for plain templates)"""
        I = self.iface[tn]
        env = dict(env)
        for q, f in I["derived"]: env[q] = f(env)
        ins, outs = list(I["ins"]), list(I["outs"])
        if I["cond"]:
            q, test, th, el = I["cond"]
            x = th if test(env[q]) else el
            ins += x[0]; outs += x[1]
        res = lambda x: (x[0], self.sub(x[1], env), None if x[2] is None else (x[2][0], self.sub(x[2][1], env)))
        return [res(x) for x in ins], [res(x) for x in outs]

    def array_check(self, body, ctx):
        """constraints between whole arrays or buses that hold (or, sometimes, hold for some inputs only)"""
        r = self.r
        cand = [a for a in ctx.get("arrs", []) if a[2]]
        if ctx["items"] and self.chance(0.5):
            y = r.choice(ctx["items"])
            z = r.choice([x for x in ctx["items"] if x[2:] == y[2:]])
            if z is not y and self.o["checks"] == 0: z = y
            body.append(ceq(v(y[0], *y[1]), v(z[0], *z[1]))); return True
        if not cand: return False
        a = r.choice(cand)
        q = self.fresh("s")
        body += [sig("mid", q, self.dimexp(a[2])), asg(r.choice(["<--", "<=="]), v(q), v(a[0](), *a[1]))]
        if self.o["checks"] and self.chance(self.o["spoil"]):
            same = [x for x in cand if x[2] == a[2]]
            a = r.choice(same)
        l, rr = v(q), v(a[0](), *a[1])
        body.append(ceq(l, rr) if self.chance(0.5) else ceq(rr, l))
        return True

    def gen_check(self, body, ctx):
        """signals computed by hints and constrained afterwards (idioms of circomlib); some hold for
        every input, some (chance `spoil`) only for some inputs"""
        r = self.r
        if self.chance(0.12) and self.array_check(body, ctx): return
        x, y = r.choice(ctx["sigs"])(), r.choice(ctx["sigs"])()
        s, k = self.fresh("h"), r.randrange(2, 6)
        c = r.randrange(8)
        bad = self.chance(self.o["spoil"])
        V = v(s)
        if c == 0:      # IsZero
            iv = self.fresh("v")
            body += [sig("mid", iv), sig("mid", s), asg("<--", v(iv), t(b("!=", x, n(0)), b("/", n(1), x), n(0))),
                     asg("<==", V, b("+", b("*", u("-", x), v(iv)), n(1))), ceq(b("*", x, V), n(0))]
            if bad: body.append(ceq(b("*", b("-", V, n(r.randrange(2))), y), n(0)))
        elif c == 1:    # bits
            w = r.randrange(1, 7)
            i = self.fresh("i"); l = self.fresh("l"); e = self.fresh("e")
            m = self.fresh("m")
            body += [sig("mid", s, [n(w)]), sig("mid", m), asg("<--", v(m), b("%", x, n(2 ** w + (r.randrange(3) if bad else 0)))),
                     var(l, (), n(0)), var(e, (), n(1)),
                     loop(i, 0, w, [asg("<--", v(s, v(i)), b("&", b(">>", v(m), v(i)), n(1))),
                                    ceq(b("*", v(s, v(i)), b("-", v(s, v(i)), n(1))), n(0)),
                                    asg("=", v(l), b("+", v(l), b("*", v(s, v(i)), v(e))), "cmp"),
                                    asg("=", v(e), b("+", v(e), v(e)))]),
                     ceq(v(l), v(m))]
            self.readable(ctx, lambda: m, [], [])
            self.readable(ctx, lambda: s, [], [w]); return
        elif c == 2:    # division with remainder
            q = self.fresh("q")
            body += [sig("mid", q), sig("mid", s), asg("<--", v(q), b("\\", x, n(k))), asg("<--", V, b("%", x, n(k))),
                     ceq(b("+", b("*", v(q), n(k)), V), x)]
            if bad: body.append(ceq(b("*", V, b("-", V, n(1))), n(0)))
        elif c == 3:    # product through a hint
            body += [sig("mid", s), asg("<--", V, b("*", x, y)), ceq(V, b("*", x, y)) if self.chance(.5) else ceq(b("*", y, x), V)]
            if bad: body.append(ceq(b("*", b("-", b("%", n(k), n(2)), n(1)), b("-", V, x)), n(0)))
        elif c == 4:    # a bound kept by an assert as well
            body += [sig("mid", s), asg("<--", V, b("%", x, n(k)))]
            if bad and self.o["asserts"]: body.append(ast(b(r.choice(["<", "!=", ">"]), V, n(1))))
            elif bad: body.append(ceq(b("*", V, b("-", V, n(k - 1))), n(0)))
        elif c == 5:    # chosen by a condition
            q = self.fresh("q")
            body += [sig("mid", q), sig("mid", s), asg("<--", v(q), b(r.choice(CMP), x, y)),
                     ceq(b("*", v(q), b("-", n(1), v(q))), n(0)),
                     asg("<==", V, b("+", b("*", v(q), b("-", x, y)), y))]
            if bad: body.append(ceq(v(q), n(r.randrange(2))))
        elif c == 6:    # linear relations among hints
            q = self.fresh("q")
            body += [sig("mid", q), sig("mid", s), asg("<--", V, b("+", x, n(k))), asg("<--", v(q), b("-", V, y)),
                     ceq(b("-", V, n(k)), x), ceq(b("+", b("*", n(k), v(q)), b("*", n(k), y)), b("*", V, n(k)))]
            if bad: body.append(ceq(b("+", v(q), b("%", n(k), n(2))), b("+", b("-", x, y), n(k))))
        else:           # square
            body += [sig("mid", s), asg("<--", V, b("**", x, n(2))), ceq(b("-", b("*", x, x), V), n(0))]
            if bad: body.append(ceq(b("*", b("-", x, n(k)), b("-", x, n(0 if self.chance(.5) else 1))), n(0)))
        self.readable(ctx, lambda: s, [], [])

    def readable(self, ctx, namef, pre, d):
        """make the elements of a signal available as scalar atoms"""
        r = self.r
        def mk():
            ix = []
            for x in d:
                if isinstance(x, int): ix.append(n(r.randrange(x)))
                else: ix.append(n(0) if self.chance(0.5) else b("-", v(x), n(1)))
            return v(namef(), *(pre + ix))
        ctx["sigs"].append(mk)
        ctx.setdefault("arrs", []).append((namef, pre, d))

    def assign_signal(self, body, ctx, q, d, pre=None, base=None, ops=("<==", "<--"), readable=True):
        """assign every element of signal q (accessed below base/pre) once"""
        r, o = self.r, self.o
        base = base or q; pre = pre or []
        op = ops[0] if (not o["hints"] or self.chance(0.65)) else ops[1]
        def ex(extra=()):
            sg, ks = ctx["sigs"] + [], ctx["ks"] + list(extra) + ctx["vars"]
            if op == "<==":
                return self.quad(ctx["sigs"], ctx["ks"] + list(extra) + ctx.get("kvars", []))
            return self.anyexp(sg + ks, o["depth"])
        style = "rev" if self.chance(0.15) else None
        fa = [f for f in self.funcs if not self.finfo[f]["scalar"]] if d == [3] else []
        if fa and self.chance(0.6) and ctx["sigs"]:
            # the array a function returns
            e = self.fcall((lambda: self.anyexp(ctx["sigs"] + ctx["ks"], 1)) if op == "<--" else self.const, scalar=False)
            body.append(asg(op, v(base, *pre), e, style))
        elif d == []:
            if op == "<--" and o["unknown"] and self.chance(0.2) and ctx["sigs"]:
                c = b(r.choice(CMP), r.choice(ctx["sigs"])(), self.const())
                body.append(iff(c, [asg("<--", v(base, *pre), ex())], [asg("<--", v(base, *pre), ex())]))
            else:
                body.append(asg(op, v(base, *pre), ex(), style))
        elif self.chance(0.5):
            # loops
            idx = [self.fresh("i") for _ in d]
            inner = asg(op, v(base, *(pre + [v(i) for i in idx])), ex([(lambda i=i: v(i)) for i in idx]), style)
            # reading own index of a same-shaped signal
            st = [inner]
            same = [a for a in ctx.get("arrs", []) if a[2] == d]
            if same and self.chance(0.6):
                a = r.choice(same)
                st[0]["r"] = b(r.choice(["+", "-"]), v(a[0](), *(a[1] + [v(i) for i in idx])), st[0]["r"]) if op == "<==" and False else st[0]["r"]
                if op == "<==":
                    st[0]["r"] = b(r.choice(["+", "-", "*"]), v(a[0](), *(a[1] + [v(i) for i in idx])), self.lin(ctx["sigs"], ctx["ks"]))
                else:
                    st[0]["r"] = b(r.choice(["+", "^", "*"]), v(a[0](), *(a[1] + [v(i) for i in idx])), st[0]["r"])
            for i, x in reversed(list(zip(idx, d))):
                st = [loop(i, 0, n(x) if isinstance(x, int) else v(x), st)]
            body += st
        else:
            same = [a for a in ctx.get("arrs", []) if a[2] == d]
            if same and self.chance(0.6):
                a = r.choice(same)
                body.append(asg(op, v(base, *pre), v(a[0](), *a[1]), style))
            elif all(isinstance(x, int) for x in d):
                def lit(dd): return ex() if dd == [] else arr(*[lit(dd[1:]) for _ in range(dd[0])])
                body.append(asg(op, v(base, *pre), lit(d), style))
            else:
                idx = [self.fresh("i") for _ in d]
                st = [asg(op, v(base, *(pre + [v(i) for i in idx])), ex([(lambda i=i: v(i)) for i in idx]), style)]
                for i, x in reversed(list(zip(idx, d))):
                    st = [loop(i, 0, n(x) if isinstance(x, int) else v(x), st)]
                body += st
        if readable:
            self.readable(ctx, lambda: base, pre, d)

    def gen_vars(self, body, ctx):
        """a compile-time or run-time computation over variables"""
        r = self.r
        x = self.fresh("x")
        known = self.chance(0.4)
        atoms = (ctx["ks"] + ctx.get("kvars", [])) if known else (ctx["sigs"] + ctx["ks"] + ctx["vars"])
        body.append(var(x, (), self.anyexp(atoms, 2)))
        arrays = []
        scal = [x]
        loc = atoms + [lambda x=x: v(x)]
        if self.o["arrays"] and self.chance(0.4):
            q = self.fresh("w"); dd = r.randrange(2, 4)
            body.append(var(q, [n(dd)], arr(*[self.anyexp(atoms, 1) for _ in range(dd)]) if self.chance(0.6) else None))
            arrays.append((q, dd)); loc.append(lambda q=q, dd=dd: v(q, n(r.randrange(dd))))
        body += self.var_stmts(loc, scal, arrays, r.randrange(0, 3), 2)
        fa = [f for f in self.funcs if not self.finfo[f]["scalar"]]
        if fa and self.chance(0.3):
            q = self.fresh("z")
            body.append(var(q, [n(3)], self.fcall(lambda: self.anyexp(loc, 1), scalar=False)))
            arrays.append((q, 3))
        ctx["vars"].append(lambda: v(x))
        for q, dd in arrays: ctx["vars"].append(lambda q=q, dd=dd: v(q, n(r.randrange(dd))))
        if known: ctx.setdefault("kvars", []).append(lambda: v(x))

    def gen_comp(self, body, ctx, tn):
        r, o = self.r, self.o
        I = self.iface[tn]
        params = I["params"]
        cnt = r.randrange(2, 4) if o["comparr"] and self.chance(0.35) else 0
        c = self.fresh("c")
        par = o["parallel"] and self.chance(0.3)
        wrap = lambda mk: mk if not par else {"k": "par", "e": mk}
        if o["comparr"] and not cnt and self.chance(0.2): self.gen_grid(body, ctx, tn, c, wrap)
        elif cnt and params and o["vary"] and self.chance(0.5):
            self.gen_mixed(body, ctx, tn, c, cnt, wrap)
        elif cnt:
            body.append(comp(c, [n(cnt)]))
            pvals = [r.randrange(1, 4) for _ in params]
            ins, outs = self.interface(tn, dict(zip(params, pvals)))
            i = self.fresh("i")
            inst = asg("=", v(c, v(i)), wrap(call(tn, *[n(x) for x in pvals])))
            feed = []
            self.feed(feed, ctx, c, [v(i)], ins, extra=[lambda: v(i)])
            if self.chance(0.5): body.append(loop(i, 0, cnt, [inst] + feed))
            else:
                body.append(loop(i, 0, cnt, [inst])); body.append(loop(i, 0, cnt, feed))
            for j in range(cnt): self.outs_readable(ctx, c, [n(j)], outs)
        else:
            pvals = []
            for _ in params:
                if ctx["params"] and self.chance(0.3) and not I["derived"] and not I["cond"]:
                    q = r.choice(ctx["params"]); pvals.append(q)
                else: pvals.append(r.randrange(1, 4))
            mk = call(tn, *[n(x) if isinstance(x, int) else v(x) for x in pvals])
            if self.chance(0.7): body.append(comp(c, (), mk, par))
            else: body += [comp(c), asg("=", v(c), mk)]
            ins, outs = self.interface(tn, dict(zip(params, pvals)))
            self.feed(body, ctx, c, [], ins)
            self.outs_readable(ctx, c, [], outs)

    def gen_grid(self, body, ctx, tn, c, wrap):
        """an array of components of several dimensions, some of whose elements are never created"""
        r = self.r
        params = self.iface[tn]["params"]
        dims = r.choice([[3], [4], [4], [2, 2], [2, 3], [3, 2], [2, 1, 2]])
        cells = [[]]
        for d in dims: cells = [x + [i] for x in cells for i in range(d)]
        live = cells if self.chance(0.25) else sorted(r.sample(cells, r.randrange(1, min(len(cells), 5))))
        if len(live) > 4: live = sorted(r.sample(cells, 4))
        uniform = not params or self.chance(0.5)
        one = [r.randrange(1, 4) for _ in params]
        pv = {tuple(x): one if uniform else [r.randrange(1, 4) for _ in params] for x in live}
        face = {x: self.interface(tn, dict(zip(params, y))) for x, y in pv.items()}
        body.append(comp(c, [n(d) for d in dims]))
        order = [tuple(x) for x in live]; r.shuffle(order)
        at = lambda x: [n(i) for i in x]
        i = self.fresh("i")
        if len(dims) == 1 and uniform and self.chance(0.6):
            # loops over all positions that skip the others
            g = None
            for h in range(dims[0]):
                if (h,) not in pv: e = b("!=", v(i), n(h)); g = e if g is None else b("&&", g, e)
            guard = lambda st: [iff(g, st)] if g is not None else st
            inst, feed = [asg("=", v(c, v(i)), wrap(call(tn, *[n(x) for x in one])))], []
            self.feed(feed, ctx, c, [v(i)], face[order[0]][0], extra=[lambda: v(i)])
            if self.chance(0.5): body.append(loop(i, 0, dims[0], guard(inst + feed)))
            else: body += [loop(i, 0, dims[0], guard(inst)), loop(i, 0, dims[0], guard(feed))]
            sc = [q for q, d, bt in face[order[0]][1] if bt is None and d == []]
            if sc and self.chance(0.6):
                x = self.fresh("x"); q = r.choice(sc)
                body += [var(x, (), n(0)), loop(i, 0, dims[0], guard([asg("=", v(x), b(r.choice(["+", "-"]), v(x), v(c, v(i), q)))]))]
                ctx["vars"].append(lambda x=x: v(x)); ctx.setdefault("kvars", []).append(lambda x=x: v(x))
        else:
            late = self.chance(0.5)
            for x in order:
                body.append(asg("=", v(c, *at(x)), wrap(call(tn, *[n(y) for y in pv[x]]))))
                if not late: self.feed(body, ctx, c, at(x), face[x][0])
            if late:
                r.shuffle(order)
                for x in order: self.feed(body, ctx, c, at(x), face[x][0])
        for x in order: self.outs_readable(ctx, c, at(x), face[x][1])

    def gen_mixed(self, body, ctx, tn, c, cnt, wrap):
        """an array whose elements are different instances of the template"""
        r = self.r
        params = self.iface[tn]["params"]
        pv = [[r.randrange(1, 4) for _ in params] for _ in range(cnt)]
        i = self.fresh("i")
        args = None
        if self.chance(0.4):       # parameters computed from the index
            fs = [r.choice([lambda j: (n(2), 2), lambda j: (b("+", v(i), n(1)), j + 1), lambda j: (b("-", n(cnt), v(i)), cnt - j)]) for _ in params]
            pv = [[f(j)[1] for f in fs] for j in range(cnt)]
            args = [f(0)[0] for f in fs]
        two = r.choice([0, 0, 1])
        names = [c] + ([self.fresh("c")] if two else [])
        faces = [self.interface(tn, dict(zip(params, x))) for x in pv]
        for nm in names:
            body.append(comp(nm, [n(cnt)]))
            if args is not None: body.append(loop(i, 0, cnt, [asg("=", v(nm, v(i)), wrap(call(tn, *args)))]))
            else:
                for j in range(cnt): body.append(asg("=", v(nm, n(j)), wrap(call(tn, *[n(x) for x in pv[j]]))))
        common = [q for q, _, _ in self.iface[tn]["ins"]]
        for nm in names:
            done = set()
            for q in common:       # inputs every element has: fed in a loop when their shape allows
                shapes = [[x for x in f[0] if x[0] == q][0] for f in faces]
                if nm != c and self.chance(0.6):
                    # from the outputs of the other array, element by element
                    srcs = [y for y in self.iface[tn]["outs"] if all(
                        [x for x in f[1] if x[0] == y[0]][0][1:] == [x for x in f[0] if x[0] == q][0][1:] for f in faces)]
                    if srcs:
                        body.append(loop(i, 0, cnt, [asg(r.choice(["<==", "<--"]), v(nm, v(i), q), v(c, v(i), r.choice(srcs)[0]))])); done.add(q); continue
                if all(x == shapes[0] for x in shapes) and self.chance(0.6):
                    st = []
                    saved = ctx["ks"]; ctx["ks"] = ctx["ks"] + [lambda: v(i)]
                    self.assign_item(st, ctx, shapes[0], base=nm, pre=[v(i), q], readable=False)
                    ctx["ks"] = saved
                    body.append(loop(i, 0, cnt, st)); done.add(q)
            js = list(range(cnt)); r.shuffle(js)
            for j in js: self.feed(body, ctx, nm, [n(j)], [x for x in faces[j][0] if x[0] not in done])
            for j in range(cnt): self.outs_readable(ctx, nm, [n(j)], faces[j][1])
            # a value gathered over the elements
            sc = [q for q, d, bt in self.iface[tn]["outs"] if bt is None]
            if sc and self.chance(0.6):
                q = r.choice(sc); x = self.fresh("x")
                d = [y for y in self.iface[tn]["outs"] if y[0] == q][0][1]
                body += [var(x, (), n(0)), loop(i, 0, cnt, [asg("=", v(x), b(r.choice(["+", "-"]), v(x), v(nm, v(i), q, *[n(0) for _ in d])))])]
                ctx["vars"].append(lambda x=x: v(x)); ctx.setdefault("kvars", []).append(lambda x=x: v(x))

    def sub(self, d, env): return [x if isinstance(x, int) else env.get(x, x) for x in d]
    def feed(self, body, ctx, c, pre, ins, extra=()):
        r = self.r
        order = list(ins)
        r.shuffle(order)
        saved = ctx["ks"]
        ctx["ks"] = ctx["ks"] + list(extra)
        for x in order: self.assign_item(body, ctx, x, base=c, pre=pre + [x[0]], readable=False)
        ctx["ks"] = saved
    def outs_readable(self, ctx, c, pre, outs):
        for x in outs: self.readable_item(ctx, c, pre + [x[0]], x)

    def program(self):
        r = self.r
        self.gen_funcs()
        if self.o["buses"]: self.gen_buses()
        names = []
        for i in range(self.o["templates"]):
            nm = "T%d" % i
            self.gen_template(nm, names[-2:], i == self.o["templates"] - 1)
            names.append(nm)
        main = names[-1]
        params = self.iface[main]["params"]
        args = [r.randrange(1, 4) for _ in params]
        self.main_ins, self.main_outs = self.interface(main, dict(zip(params, args)))
        self.main_ins = [(q, d, self.expand(bt)) for q, d, bt in self.main_ins]
        pub = [q for q, d, bt in self.main_ins if self.chance(0.4)]
        r.shuffle(pub)
        return prog(self.templates, main, args, pub, self.funcs, {k: {"params": B["params"], "fields": B["fields"]} for k, B in self.buses.items()})
    def expand(self, bt):
        return None if bt is None else [(q, d, self.expand(x)) for q, d, x in self.fields(bt)]

def unconstrained(ss):
    """the statements without their constraints"""
    out = []
    for s in ss:
        if s["k"] == "ceq": continue
        s = dict(s)
        if s["k"] == "as" and s["o"] == "<==": s["o"] = "<--"
        for x in ("t", "e", "b"):
            if x in s and isinstance(s[x], list): s[x] = unconstrained(s[x])
        out.append(s)
    return out

def rand_value(r, p):
    c = r.randrange(10)
    if c < 4: return r.randrange(0, 10)
    if c < 5: return p - r.randrange(1, 10)
    if c < 6: return p // 2 + r.randrange(-3, 4)
    if c < 7: return 2 ** r.randrange(0, p.bit_length() - 1)
    return r.randrange(p)

def nest(vals, d):
    if d == []: return vals.pop(0)
    return [nest(vals, d[1:]) for _ in range(d[0])]
def inputs_for(main_ins, r, p):
    """-> (json object for the calculator, {element name: value}); main_ins: (name, dims, None or fields)"""
    flat = {}
    def one(path, x, d):
        if d: return [one(path + "[%d]" % i, x, d[1:]) for i in range(d[0])]
        if x is None:
            flat[path] = str(rand_value(r, p)); return flat[path]
        return {q: one(path + "." + q, y, dd) for q, dd, y in x}
    return {q: one("main." + q, x, d) for q, d, x in main_ins}, flat

def soup(r, p, nsig=None, inconsistent=False):
    """a system of equations over hinted signals: equalities, constants, linear and quadratic constraints,
    some of which become linear once others are substituted"""
    N = nsig or r.randrange(5, 22)
    sub = r.random() < 0.4
    names = ["x%d" % i for i in range(N)]
    roles = [r.choice(["in", "out", "mid", "mid", "mid", "mid"]) for _ in names]
    if "in" not in roles: roles[0] = "in"
    body = [sig(q, x) for x, q in zip(names, roles)]
    ins = [x for x, q in zip(names, roles) if q == "in"]
    S = [lambda x=x: v(x) for x in names]
    # the values follow a hidden point when inconsistent is False: constraints are made true at it
    pt = {x: r.choice([0, 1, 2, r.randrange(p)]) for x in names}
    for x, q in zip(names, roles):
        if q != "in": body.append(asg("<--", v(x), n(pt[x])))
    if sub:
        body += [comp("c", (), call("T0"))] + [asg(r.choice(["<==", "<--"]), v("c", "y%d" % i), v(r.choice(names))) for i in range(3)]
        S += [lambda i=i: v("c", "z%d" % i) for i in range(2)]
    def coef(): return r.choice([1, 1, 1, p - 1, 2, 3, (p + 1) // 2, r.randrange(1, p)])
    def term(s):
        k = coef()
        return s if k == 1 else b("*", n(k), s)
    def form(k):
        xs = r.sample(range(N), min(k, N))
        e, val = None, 0
        for i in xs:
            kk = coef()
            tt = v(names[i]) if kk == 1 else b("*", n(kk), v(names[i]))
            val = (val + kk * pt[names[i]]) % p
            e = tt if e is None else b("+", e, tt)
        return e, val
    def off(x): return x if not inconsistent or r.random() < 0.8 else (x + 1) % p
    for _ in range(r.randrange(N // 2, 2 * N)):
        c = r.random()
        if c < 0.25:     # equality (possibly with the component's signals)
            if len(S) > N and r.random() < 0.3: body.append(ceq(r.choice(S)(), r.choice(S)())); continue
            x, y = r.choice(names), r.choice(names)
            d = (pt[x] - pt[y]) % p
            if d == 0 or r.random() < 0.3: body.append(ceq(v(x), v(y) if d == 0 else b("+", v(y), n(d))))
            else: body.append(ceq(b("+", v(y), n(d)), v(x)))
        elif c < 0.35: 
            x = r.choice(names); body.append(ceq(v(x), n(off(pt[x]))))
        elif c < 0.65:
            e, val = form(r.choice([2, 2, 3, 4, 6])); body.append(ceq(e, n(off(val))))
        else:
            e, a = form(r.choice([1, 1, 2])); f, bb = form(r.choice([1, 1, 2])); g, cc = form(r.choice([1, 1, 2]))
            d = (a * bb - cc) % p
            body.append(ceq(b("*", e, f), b("+", g, n(off(d))) if d else g))
        if r.random() < 0.1: body.append(body[-1])
    T = {}
    if sub:
        tb = [sig("in", "y%d" % i) for i in range(3)] + [sig("out", "z%d" % i) for i in range(2)] + [sig("mid", "m")]
        tb += [asg("<==", v("m"), b("+", v("y0"), v("y1"))), asg("<==", v("z0"), v("m") if r.random() < .5 else b("*", v("m"), v("y2"))), asg("<==", v("z1"), v("y2"))]
        T["T0"] = tmpl([], tb)
    T["Main"] = tmpl([], body)
    return prog(T, "Main", (), [x for x in ins if r.random() < 0.4])

def bigsoup(r, p, m=None):
    """one connected cluster of more than 350 sparse linear constraints (the other heuristic of the simplifier)"""
    M = m or r.randrange(355, 420)
    N = M + r.randrange(-30, 60)
    body = [sig("in", "a"), sig("in", "b"), sig("out", "o"), sig("mid", "x", [n(N)])]
    pt = [r.choice([0, 1, 2, r.randrange(p)]) for _ in range(N)]
    for i in range(N): body.append(asg("<--", v("x", n(i)), n(pt[i])))
    body.append(asg("<--", v("o"), n(7)))
    for i in range(M):
        # mostly a path, with extra edges close by
        xs = {min(i, N - 1), max(0, min(N - 1, i + 1))}
        if r.random() < 0.4: xs.add(max(0, min(N - 1, i - r.randrange(1, 6))))
        if r.random() < 0.1: xs.add(r.randrange(N))
        e, val = None, 0
        for x in sorted(xs):
            k = r.choice([1, 1, p - 1, 2, 3, r.randrange(1, p)])
            tt = v("x", n(x)) if k == 1 else b("*", n(k), v("x", n(x)))
            e = tt if e is None else b("+", e, tt); val = (val + k * pt[x]) % p
        c = r.random()
        if c < 0.05: e = b("+", e, v("a"))
        elif c < 0.08: e = b("-", e, v("o"))
        if len(xs) == 1: e = b("+", e, b("*", n(2), v("x", n((i * 7) % N)))); val = (val + 2 * pt[(i * 7) % N]) % p
        body.append(ceq(e, n(val)))
    for i in range(5):
        body.append(ceq(b("*", v("x", n(r.randrange(N))), v("x", n(r.randrange(N)))), v(r.choice(["a", "b", "o"]))))
    return prog({"Main": tmpl([], body)}, "Main", (), ["a"] if r.random() < .5 else [])
