"""Small programs drawn statement by statement from a fixed vocabulary, with no attempt at being valid:
each rule about assignments, knowledge and names is broken, or just kept, in many of them."""
from gen import n, v, b, u, t, call, arr, var, sig, comp, asg, ceq, iff, wh, fr, blk, ret, ast, log, loop, prog, tmpl

class Soup:
    def __init__(self, r, **o):
        self.r = r; self.o = dict(bus=False, unk=.25, loops=.2, quad=.5, vars=True); self.o.update(o)
    def ch(self, *a): return self.r.choice(a)
    # ------------------------------------------------------------ vocabulary of main
    #   signal input a; input b[2]; output o; output p[2]; signal s; signal t[2]; var k = 1; var m (unknown); component c = A(); component d[2] (A or B)
    def subs(self):
        r = self.r
        lin = lambda: self.ch(b("+", v("x"), n(1)), v("x"), b("*", v("x"), n(3)))
        A = tmpl([], [sig("in", "x"), sig("in", "y"), sig("mid", "h"), sig("out", "z"), asg("<==", v("h"), lin()), asg("<==", v("z"), b("*", v("h"), v("y")))])
        B = tmpl(["q"], [sig("in", "x", [v("q")] if r.random() < .7 else []), sig("out", "z", [n(2)])])
        xs = v("x", n(0)) if B["body"][0]["d"] else v("x")
        B["body"].append(asg("<==", v("z"), arr(xs, b("+", xs, v("q")))) if r.random() < .6 else loop("i", 0, 2, [asg("<==", v("z", v("i")), b("+", xs, v("i")))]))
        C = tmpl([], [sig("out", "z"), asg("<==", v("z"), n(5))])
        ts = {"A": A, "B": B, "C": C}
        bus = {}
        if self.o["bus"]:
            bus = {"P": {"params": [], "fields": [{"n": "f", "d": [], "bt": []}, {"n": "g", "d": [n(2)], "bt": []}]}}
            P = {"n": "P", "as": []}
            ts["D"] = tmpl([], [sig("in", "x", (), P), sig("out", "z", (), P), asg("<==", v("z"), v("x"))])
        self.bdim = bool(B["body"][0]["d"])
        return ts, bus
    def ix(self):
        q = self.r.random()
        if q < .8: return n(self.r.randint(0, 1))
        if q < .86: return n(2)
        if q < .92: return v("k")
        return self.ch(v("a"), v("m")) if self.r.random() < self.o["unk"] else n(0)
    def lix(self): return v(self.loopv) if self.loopv and self.r.random() < .7 else self.ix()
    # wires one may assign
    def target(self):
        c = ["o", "p", "p[]", "s", "s", "t", "t[]", "t[]", "c.x", "c.y", "c.y", "c.x", "d.x", "d.x", "e.x", "e.y"]
        if self.o["bus"]: c += ["w", "w.f", "w.g", "w.g[]", "dd.x", "dd.x.f", "dd.x.g[]", "bo", "bo.f", "bo.g"] * 2
        c = [x for x in c if x.replace("[]", "") not in self.got or self.r.random() < .06] or c
        if self.r.random() < .02: c = ["a", "b[]", "c.z", "c.h", "d.z", "k", "bi", "bi.f"]
        return self.wire(self.r.choice(c))
    def wire(self, x):
        P = x.split(".")
        nm = P[0].replace("[]", "")
        acc = []
        if nm == "d":
            acc = [self.lix(), "x" if P[1] == "x" else "z"]
            if P[1] == "x" and self.bdim and self.r.random() < .8: acc += [n(0) if self.r.random() < .8 else self.lix()]
            if P[1] != "x" and self.r.random() < .8: acc.append(self.lix())
        elif nm == "bi" or nm == "bo" or nm == "w":
            acc = [q.replace("[]", "") for q in P[1:]]
            if x.endswith("[]"): acc.append(self.lix())
        else:
            acc = [q.replace("[]", "") for q in P[1:]]
            if x.endswith("[]"): acc.append(self.lix())
        return v(nm, *acc)
    RD = ["a", "a", "b[]", "b[]", "o", "p[]", "s", "s", "t[]", "c.z", "c.z", "d.z", "e.z", "C.z", "c.x", "k", "k", "m"]
    def read(self):
        c = list(self.RD)
        if self.o["bus"]: c += ["bi.f", "bi.g[]", "w.f", "w.g[]", "dd.z.f", "dd.z.g[]"] * 2
        if self.r.random() < .01: return v(self.ch("c", "e"), "h")
        x = self.r.choice(c)
        if self.r.random() < .97:
            c = [y for y in c if self.ok(y)]
            x = self.r.choice(c)
        if x == "C.z": return v("cc", "z")
        if x in ("k", "m") and self.loopv and self.r.random() < .5: return v(self.loopv)
        return self.wire(x)
    def rank(self, l):
        """crude number of elements: scalar or pair"""
        nm, a = l["n"], l["a"]
        last = a[-1] if a else None
        if not a and nm in ("p", "t", "b"): return 1
        if last and last["k"] == "f" and (last["n"] == "g" or (nm == "d" and last["n"] == "z") or (nm == "d" and last["n"] == "x" and self.bdim)): return 1
        if self.o["bus"] and ((not a and nm in ("w", "bi", "bo")) or (nm == "dd" and len(a) == 1)): return "bus"
        return 0
    def ok(self, x):
        """probably readable here"""
        x = x.replace("[]", "")
        if x in ("a", "b", "k", "m", "C.z", "bi.f", "bi.g"): return True
        return x in self.got or (x.split(".")[0] in self.got and "." in x and x.split(".")[0] in ("w", "o", "p")) \
            or {"c.z": {"c.x", "c.y"}, "e.z": {"e.x", "e.y"}, "d.z": {"d.x"}, "dd.z.f": {"dd.x"}, "dd.z.g": {"dd.x"}}.get(x, {"?"}) <= self.got
    def expr(self, d=2):
        r = self.r; q = r.random()
        if d == 0 or q < .35: return self.read() if r.random() < .85 else n(r.choice([0, 1, 2, 3]))
        if q < .6: return b(self.ch("+", "-"), self.expr(d - 1), self.expr(d - 1))
        if q < .6 + .25 * self.o["quad"]: return b("*", self.expr(d - 1), self.expr(d - 1))
        if q < .85: return b("*", n(r.choice([2, 3])), self.expr(d - 1))
        if q < .88: return b("**", self.expr(0), n(r.choice([2, 2, 1, 3])))
        if q < .91: return b("/", self.expr(d - 1), n(2))
        if q < .94: return b(self.ch("==", "<", "&", ">>", "\\", "%", "/"), self.expr(0), self.ch(n(2), v("k"), self.expr(0)))
        if q < .96: return t(self.cond(), self.expr(d - 1), self.expr(d - 1))
        if q < .98: return u(self.ch("-", "-", "!"), self.expr(d - 1))
        return call("sq", self.expr(d - 1)) if r.random() < .7 else call("cnt", self.expr(0))
    def whole(self, rk):
        if rk == 1:
            q = self.r.random()
            if q < .3: return arr(self.expr(1), self.expr(1))
            if q < .35: return arr(self.expr(1))
            c = [v("b"), v("b"), v("p"), v("t"), v("d", n(self.r.randint(0, 1)), "z")] + ([v("bi", "g"), v("w", "g")] if self.o["bus"] else [])
            return self.r.choice(c)
        if rk == "bus":
            return self.r.choice([v("bi"), v("bi"), v("bi"), v("w"), v("dd", "z"), v("dd", "z"), v("bi", "f")])
        return self.expr(self.r.randint(0, 2))
    def cond(self):
        r = self.r
        if r.random() < self.o["unk"]: return self.ch(b("==", v("a"), n(1)), v("m"), b("<", v("b", n(0)), n(3)), b("==", self.read(), n(0)))
        q = r.random()
        if self.loopv and q < .5: return b("==", v(self.loopv), n(r.randint(0, 1)))
        return self.ch(b("==", v("k"), n(1)), b("<", v("k"), n(1)), n(1), n(0))
    def assign(self):
        r = self.r; l = self.target()
        rk = self.rank(l)
        nm = l["n"] + "".join("." + x["n"] for x in l["a"] if x["k"] == "f")
        self.mark.append(nm)
        if r.random() < .02: rk = r.choice([0, 1])
        if l["n"] == "k": return asg(self.ch("=", "<=="), l, self.expr(1))
        return asg(r.choices(["<==", "<--", "="], [.72, .27, .01])[0], l, self.whole(rk))
    def stmt(self, d=2):
        r = self.r; q = r.random()
        if d and q < .16:
            th = self.seq(r.randint(1, 2), d - 1)
            w = r.random()
            el = None if w < .4 else self.seq(r.randint(1, 2), d - 1) if w < .7 else [dict(s) for s in th]
            return iff(self.cond(), th, el)
        if d and q < .16 + self.o["loops"] * .8:
            if self.loopv: return blk(self.seq(2, d - 1))
            self.loopv = "i"
            bd = self.seq(r.randint(1, 2), d - 1)
            self.loopv = None
            if r.random() < .12:
                return fr(var("i", (), n(0)), b("<", v("i"), self.ch(v("a"), v("m"))), asg("=", v("i"), b("+", v("i"), n(1)), "inc"), bd)
            return loop("i", 0, r.choice([2, 2, 2, 1, 3]), bd)
        if q < .72: return self.assign()
        if q < .80: return ceq(self.expr(2), self.expr(1))
        if q < .83:
            l, rk = self.ch((v("t"), 1), (v("p"), 1), (v("b"), 1)); return ceq(l, self.whole(1))
        if q < .86: return asg("=", v("k"), b(self.ch("+", "-", "*"), v("k"), n(r.randint(0, 2))))
        if q < .88: return asg("=", v("k"), self.expr(1))
        if q < .90: return asg("=", v("m"), self.expr(1))
        if q < .905 or (q < .95 and r.random() < .15):   # instantiate
            w = r.random()
            if w < .5: return asg("=", v("d", self.lix()), self.inst("B"))
            if w < .8: return asg("=", v("e"), self.inst("A"))
            return asg("=", v(self.ch("c", "e", "cc")), self.inst(self.ch("A", "A", "B", "C")))
        if q < .95: return self.assign()
        if q < .97: return var(self.ch("h", "k", "g"), [self.ch(n(2), n(1), v("k"), v("a"), v("m"))] if r.random() < .5 else [], None)
        if q < .985: return sig("mid", self.ch("ns", "ns2"), [self.ch(n(2), v("k"), v("m"))] if r.random() < .5 else [])
        return ast(b("==", v("k"), v("k")))
    def inst(self, T):
        if T == "B": return call("B", self.ch(n(1), n(1), n(1), v("k"), n(2), v("a"), v("m")) if self.r.random() < .5 else n(1))
        return call(T)
    def seq(self, k, d):
        out = []
        for _ in range(k):
            self.mark = []
            out.append(self.stmt(d)); self.got |= set(self.mark)
        return out
    def repair(self, ss, inst):
        """complete the program: assign what most likely was left open"""
        def asgd(body):
            for s in body:
                if s["k"] == "as": yield (s["l"]["n"], s["l"]["a"][0]["n"] if s["l"]["a"] and s["l"]["a"][0]["k"] == "f" else "", s["r"]["k"])
                for q in ("t", "e", "b"):
                    if isinstance(s.get(q), list): yield from asgd(s[q])
        A = list(asgd(inst + ss)); has = {(x, f) for x, f, _ in A}
        pre, post = [], []
        for f in ("x", "y"):
            if ("c", f) not in has: pre.append(asg("<==", v("c", f), self.ch(v("a"), v("b", n(0)), b("+", v("a"), v("b", n(1))))))
        if not any(x == "e" and f == "" for x, f in has):
            pre.append(asg("=", v("e"), self.inst("A")))
        for f in ("x", "y"):
            if ("e", f) not in has: pre.append(asg("<==", v("e", f), v("b", n(self.r.randint(0, 1)))))
        if not any(x == "d" and k == "c" for x, _, k in A): pre.append(loop("j", 0, 2, [asg("=", v("d", v("j")), call("B", n(1)))]))
        if not any(x == "d" and k != "c" for x, _, k in A):
            pre.append(loop("j", 0, 2, [asg("<==", v("d", v("j"), *(["x", n(0)] if self.bdim else ["x"])), v("b", v("j")))]))
        if self.o["bus"]:
            if not any(x == "dd" for x, _ in has): pre.append(asg("<==", v("dd", "x"), v("bi")))
        return pre, post
    def program(self):
        r = self.r
        ts, bus = self.subs()
        self.loopv = None; self.mark = []; self.got = set()
        inst = []
        if r.random() < .9: inst.append(loop("j", 0, 2, [asg("=", v("d", v("j")), call("B", n(1)))]))
        if r.random() < .9: inst.append(asg("=", v("e"), call("A")))
        if r.random() < .5:
            for f in ("x", "y"): inst.append(asg("<==", v("c", f), self.ch(v("a"), v("b", n(0))))); self.got.add("c." + f)
        if r.random() < .4:
            for f in ("x", "y"): inst.append(asg("<==", v("e", f), v("b", n(1)))); self.got.add("e." + f)
        if r.random() < .4:
            inst.append(loop("j", 0, 2, [asg("<==", v("d", v("j"), *(["x", n(0)] if self.bdim else ["x"])), v("b", v("j")))])); self.got.add("d.x")
        ss = self.seq(r.randint(2, 6), 2)
        pre, post = self.repair(ss, inst)
        pre = inst + pre
        head = [sig("in", "a"), sig("in", "b", [n(2)]), sig("out", "o"), sig("out", "p", [n(2)]), sig("mid", "s"), sig("mid", "t", [n(2)])]
        if bus:
            P = {"n": "P", "as": []}
            head += [sig("in", "bi", (), P), sig("out", "bo", (), P), sig("mid", "w", (), P), comp("dd", (), call("D"))]
        head += [comp("c", (), call("A")), comp("d", [n(2)]), comp("e"), comp("cc", (), call("C")),
                 var("k", (), n(1)), var("m", (), v("a"))]
        body = pre + ss
        if r.random() < .5:
            k = r.randint(0, len(pre)); body = pre[:k] + ss + pre[k:]
        if r.random() < .3: r.shuffle(body)
        fs = {"sq": {"params": ["x"], "body": [ret(b("*", v("x"), v("x")))]},
              "cnt": {"params": ["x"], "body": [var("c", (), n(0)), fr(var("i", (), n(0)), b("<", v("i"), n(3)), asg("=", v("i"), b("+", v("i"), n(1)), "inc"),
                                                                  [iff(b("==", v("x"), v("i")), [asg("=", v("c"), b("+", v("c"), n(1)))])]), ret(v("c"))]}}
        ts["M"] = tmpl([], head + body)
        return prog(ts, "M", funcs=fs, buses=bus)

class Names:
    """declarations and uses of a few names in nested scopes, functions, calls with various arities and dimensions"""
    def __init__(self, r): self.r = r
    NM = ["a", "b", "c", "d"]
    def use(self, fn):
        r = self.r; q = r.random()
        nm = r.choice(self.known) if self.known and r.random() < .97 else r.choice(self.NM + ["zz"])
        rank = self.rk.get(nm, 0)
        k = rank if r.random() < .97 else r.randint(0, 2)
        return v(nm, *[n(r.choice([0, 1]) if r.random() < .98 else 2) for _ in range(k)])
    def expr(self, fn, d=1):
        r = self.r; q = r.random()
        if q < .2 or d < 0: return n(r.randint(0, 6))
        if q < .6: return self.use(fn) if self.known or r.random() < .03 else n(r.randint(0, 6))
        if q < .85: return b(r.choice(["+", "-", "*", "<", "=="]), self.expr(fn, d - 1), self.expr(fn, d - 1))
        if q < .95:
            f = r.choice(list(self.sigs)); ds = self.sigs[f]
            args = [self.val(x, fn) for x in ds]
            if r.random() < .03: args = args[:-1] if r.random() < .5 else args + [n(1)]
            return call(f, *args)
        return t(self.expr(fn, d - 1), self.expr(fn, d - 1), self.expr(fn, d - 1))
    def val(self, rk, fn):
        r = self.r
        if r.random() < .02: rk = r.randint(0, 2)
        if rk == 0: return self.expr(fn)
        c = [x for x in self.known if self.rk.get(x) == rk]
        if c and r.random() < .6: return v(r.choice(c))
        return arr(*[self.val(rk - 1, fn) for _ in range(2)])
    def seq(self, k, fn, d):
        out = []
        sk, srk, sl = list(self.known), dict(self.rk), self.loc
        self.loc = set()
        for _ in range(k): out.append(self.stmt(fn, d))
        self.known, self.rk, self.loc = sk, srk, sl
        return out
    def stmt(self, fn, d):
        r = self.r; q = r.random()
        if q < .3:
            nm = r.choice([x for x in self.NM if x not in self.loc or r.random() < .05] or ["e"]); rk = r.choice([0, 0, 0, 1, 1, 2])
            init = self.val(rk, fn) if r.random() < .6 else None
            if rk == 0 and init is None: init = n(r.randint(0, 5))
            s = var(nm, [n(2)] * rk, init)
            if nm not in self.known: self.known.append(nm)
            self.rk[nm] = rk; self.loc.add(nm)
            return s
        if q < .6:
            sk = self.known
            self.known = [x for x in sk if x != "s" or r.random() < .02]
            if not self.known and r.random() < .95: self.known = sk; return self.stmt(fn, d)
            l = self.use(fn); rk = 0
            self.known = sk
            if r.random() < .2 and l["a"]: l["a"].pop(); rk = 1
            return asg("=", l, self.val(rk, fn))
        if d and q < .72: return iff(self.expr(fn), self.seq(2, fn, d - 1), self.seq(1, fn, d - 1) if r.random() < .5 else None)
        if d and q < .8:
            i = r.choice(["i"] + self.NM)
            sk, srk = list(self.known), dict(self.rk)
            if i not in self.known: self.known.append(i)
            self.rk[i] = 0
            bd = [s for s in self.seq(2, fn, d - 1) if not (s["k"] == "as" and s["l"]["n"] == i)]
            self.known, self.rk = sk, srk
            return loop(i, 0, 2, bd)
        if d and q < .9: return blk(self.seq(2, fn, d - 1))
        if fn is not None and q < .95: return iff(self.expr(fn), [ret(self.val(fn, fn))], [ret(self.val(fn, fn))] if r.random() < .4 else None)
        if q < .96: return ast(b("==", n(1), n(1)))
        return self.stmt(fn, d)
    def program(self):
        r = self.r
        self.sigs = {}
        fs = {}
        for i in range(r.randint(1, 2)):
            ps = r.sample(self.NM, r.randint(0, 2)); ds = [r.choice([0, 0, 1]) for _ in ps]; rk = r.choice([0, 0, 0, 1])
            self.known, self.rk, self.loc = list(ps), dict(zip(ps, ds)), set(ps)
            self.sigs = dict(self.sigs) or {"id": [0]}
            body = [self.stmt(rk, 1) for _ in range(r.randint(1, 3))]
            if r.random() < .97: body.append(ret(self.val(rk, rk)))
            fs["f%d" % i] = {"params": ps, "body": body}
            if rk == 0: self.sigs["f%d" % i] = ds
        fs["id"] = {"params": ["x"], "body": [ret(v("x"))]}
        ps = r.sample(self.NM[:2], r.randint(0, 2))
        self.known, self.rk, self.loc = ["s"] + list(ps), {"s": 0}, set(ps)
        out = r.choice(["s", "q"])
        body = [sig("in", "s"), sig("out", "o"), sig("out", "q", [n(2)])]
        ss = self.seqk(r.randint(3, 6))
        body += ss
        body.append(asg("<--", v("o"), self.expr(None)))
        body.append(asg("<--", v("q"), self.val(1, None)))
        if r.random() < .12: r.shuffle(body)
        M = tmpl(ps, body)
        return prog({"M": M}, "M", [r.randint(0, 3) for _ in range(len(ps) + (r.random() < .04))], funcs=fs)
    def seqk(self, k):
        return [self.stmt(None, 2) for _ in range(k)]

class Forest:
    """one wire assigned (or read) at the leaves of nested and consecutive conditionals: which trees assign it exactly once"""
    D1 = [None, "A"]
    @staticmethod
    def depth1():
        """statements: an assignment or a conditional over assignments"""
        return ["A"] + [("u", x, y) for x in ([], ["A"]) for y in ([], ["A"], None)]
    @classmethod
    def blocks(cls, most, stmts):
        out = [[]]
        lvl = [[]]
        for _ in range(most):
            lvl = [x + [s] for x in lvl for s in stmts]; out += lvl
        return out
    @classmethod
    def small(cls):
        """all sequences of up to three such statements, and all conditionals over sequences of up to two of them"""
        d1 = [s for s in cls.depth1() if s not in (("u", [], []), ("u", [], None))]
        inner = cls.blocks(2, d1)
        return cls.blocks(3, d1)[1:], [[("u", x, y)] for x in inner for y in inner + [None] if x or y]
    def __init__(self, r): self.r = r
    def rand(self, d=2, k=3):
        r = self.r; out = []
        for _ in range(r.randint(1 if d == 2 else 0, k)):
            q = r.random()
            if d and q < .6: out.append((r.choice("uuuuuktn"), self.rand(d - 1, 2), self.rand(d - 1, 2) if r.random() < .75 else None))
            elif d and q < .66: out.append(("l", self.rand(d - 1, 2), None))
            elif q < .9 or not d: out.append("A" if r.random() < .85 else "R")
        return out
    def program(self, tree, kind, const=True):
        r = self.r; self.u = 0
        P = {"n": "P", "as": []}
        ts = {"A": tmpl([], [sig("in", "x"), sig("in", "y"), sig("out", "z"), asg("<==", v("z"), b("+", v("x"), v("y")))])}
        bus = {}
        head = [sig("in", "a"), sig("in", "b", [n(2)])]; tail = []
        op = r.choice(["<--", "<--", "<--", "<=="]) if not const else "<--"
        tg = {"out": v("o"), "arr": v("t", n(0)), "all": v("t"), "cin": v("c", "x"), "ain": v("d", n(1), "x"), "fld": v("w", "f"), "bus": v("w"), "fla": v("w", "g", n(1))}[kind]
        if kind == "out": head.append(sig("out", "o"))
        if kind in ("arr", "all"): head.append(sig("mid", "t", [n(2)]))
        if kind == "arr" and r.random() < .5: tail.append(asg("<--", v("t", n(1)), n(5)))
        if kind == "cin": head += [comp("c", (), call("A"))]; tail.append(asg("<==", v("c", "y"), v("a")))
        if kind == "ain": head += [comp("d", [n(2)]), loop("j", 0, 2, [asg("=", v("d", v("j")), call("A")), asg("<==", v("d", v("j"), "y"), v("a"))]), asg("<==", v("d", n(0), "x"), v("a"))]
        if kind in ("fld", "bus", "fla"):
            bus = {"P": {"params": [], "fields": [{"n": "f", "d": [], "bt": []}, {"n": "g", "d": [n(2)], "bt": []}]}}
            head += [sig("in", "bi", (), P), sig("mid", "w", (), P)]
            if kind == "fld" and r.random() < .5: head.append(asg("<--", v("w", "g"), v("bi", "g")))
        def rd():
            if kind in ("all",): return v("t", n(1))
            if kind == "bus": return v("w", "f")
            if kind == "cin" and r.random() < .5: return v("c", "z")
            return tg
        def go(bl, lv):
            out = []
            for s in bl:
                if s == "A":
                    val = {"all": lambda: r.choice([v("b"), arr(n(1), v("a"))]), "bus": lambda: v("bi")}.get(kind, lambda: r.choice([n(1), n(2), v("a")]))()
                    l = dict(tg)
                    if lv and kind in ("arr",) and r.random() < .6: l = v("t", v(lv))
                    out.append(asg(op, l, val))
                elif s == "R": out.append(var("q%d" % len(out), (), rd()) if r.random() < .5 else log(rd()))
                elif s[0] == "l": out.append(loop("i", 0, r.choice([1, 1, 2, 0]), go(s[1], "i")) if not lv else blk(go(s[1], lv)))
                else:
                    self.u += 1
                    c = {"u": lambda: r.choice([b("==", v("a"), n(self.u)), b("<", v("b", n(0)), n(self.u + 1)), b("==", v("a"), n(1))]), "k": lambda: b("==", v("k"), n(1)), "t": lambda: n(1), "n": lambda: n(0)}[s[0]]()
                    out.append(iff(c, go(s[1], lv), None if s[2] is None else go(s[2], lv)))
            return out
        body = [var("k", (), n(1))] + go(tree, None)
        ts["M"] = tmpl([], head + body + tail)
        return prog(ts, "M", buses=bus)
    KINDS = ["out", "arr", "all", "cin", "ain", "fld", "bus", "fla"]

class Kinds:
    """every kind of value in every place that takes one: numbers, signals, variables, buses, components, arrays of them"""
    P = {"n": "P", "as": []}; Q = {"n": "Q", "as": []}
    def __init__(self, r): self.r = r
    @staticmethod
    def operands():
        return [n(1), v("a"), v("b"), v("b", n(0)), v("bb"), v("bb", n(1)), v("w"), v("w", "f"), v("w", "g"), v("w", "g", n(1)), v("wa"), v("wa", n(0)), v("wa", n(1), "g"),
                v("q"), v("q", "f"), v("k"), v("ka"), v("ka", n(1)), v("c"), v("c", "z"), v("c", "x"), v("d"), v("d", n(0)), v("d", n(1), "z"), v("e"), v("e", "z"), v("e", "z", "g"),
                call("A"), call("D"), call("V", n(1)), call("f", n(2)), call("fa", n(2)), arr(n(1), n(2)), arr(v("a"), v("a")), arr(v("w"), v("w")), arr(v("w"), v("q")),
                arr(v("wa"), v("wa")), arr(v("w"), n(1)), arr(v("c"), v("c")), arr(v("b"), v("b")), arr(v("b"), n(1)), arr(arr(n(1)), arr(n(1), n(2))), arr(v("w")), arr(v("wa", n(0)), v("e", "z")),
                u("-", v("a")), b("+", v("a"), n(1)), t(b("==", v("k"), n(1)), v("ka"), arr(n(3), n(4))), t(b("==", v("k"), n(1)), n(1), v("k")), {"k": "par", "e": call("A")},
                v("c", "h"), v("w", "zz"), v("zz"), v("k", n(0)), v("w", n(0)), v("b", "f")]
    PLACES = ["log", "log2", "assert", "if", "ceq-a", "b-ceq", "w-ceq", "ceq-wa", "ceq-q", "bb-ceq", "c-ceq"] + [o + x for x in ("s", "t", "tt", "lw", "lwa", "lq", "lw.f", "lw.g", "lwa[]", "m", "ma", "h", "ha[]") for o in ("<==", "<--", "=")] + \
             ["=ha", "=k", "=c", "=w", "<==c.y", "=c.y", "<==e2.x", "<==e2.x.f", "<--e2", "<==d[]", "varinit", "varinit1", "varinit2", "compinit", "compinit1", "und", "sigdim", "vardim", "compdim", "index", "vindex",
              "f()", "fa()", "V()", "A()", "fr()", "neg", "not", "add", "mul", "eq", "and", "shift", "tc", "tx", "ty", "ar", "ar2", "ret", "bus()", "bus2()", "ret2", "for", "par"]
    def stmts(self, pl, X):
        z = [sig("mid", "s"), sig("mid", "t", [n(2)]), sig("mid", "tt", [n(2), n(2)]), sig("mid", "lw", (), self.P), sig("mid", "lwa", [n(2)], self.P), sig("mid", "lq", (), self.Q), var("m"), var("ma", [n(2)])]
        def tgt(x):
            ix = x.endswith("[]"); ps = x.replace("[]", "").split(".")
            return v(ps[0], *ps[1:], *([n(0)] if ix else []))
        for o in ("<==", "<--", "="):
            if pl.startswith(o):
                l = tgt(pl[len(o):]); pre = [s for s in z if s["n"] == l["n"]]
                if l["n"] in ("h", "ha"): pre = [comp(l["n"], [n(2)] if l["n"] == "ha" else [])]
                if l["n"] == "e2": pre = [comp("e2", (), call("D"))]
                return pre + [asg(o, l, X)]
        S = lambda y: [sig("mid", "s"), asg("<--", v("s"), y)]
        return {"log": lambda: [log(X)], "log2": lambda: [log("x", n(1), X)], "assert": lambda: [ast(X)], "if": lambda: [iff(X, [], [])],
                "ceq-a": lambda: [ceq(X, v("a"))], "b-ceq": lambda: [ceq(v("b"), X)], "w-ceq": lambda: [ceq(v("w"), X)], "ceq-wa": lambda: [ceq(X, v("wa"))], "ceq-q": lambda: [ceq(X, v("q"))],
                "bb-ceq": lambda: [ceq(v("bb"), X)], "c-ceq": lambda: [ceq(v("c"), X)],
                "varinit": lambda: [var("m", (), X)], "varinit1": lambda: [var("ma", [n(2)], X)], "varinit2": lambda: [var("ma", [n(2), n(2)], X)],
                "compinit": lambda: [comp("h", (), X)], "compinit1": lambda: [comp("ha", [n(2)], X)], "und": lambda: [{"k": "und", "o": "<==", "r": X}],
                "sigdim": lambda: [sig("mid", "s", [X])], "vardim": lambda: [var("m", [X])], "compdim": lambda: [comp("h", [X])],
                "index": lambda: S(v("b", X)), "vindex": lambda: [var("m", (), v("ka", X))], "f()": lambda: S(call("f", X)), "fa()": lambda: [var("ma", [n(2)], call("fa", X))],
                "V()": lambda: [comp("h", (), call("V", X)), asg("<==", v("h", "x"), n(1))], "A()": lambda: [comp("h", (), call("A", X))], "fr()": lambda: S(call("fr", X)),
                "neg": lambda: S(u("-", X)), "not": lambda: S(u("!", X)), "add": lambda: S(b("+", X, n(1))), "mul": lambda: S(b("*", v("a"), X)), "eq": lambda: S(b("==", X, X)), "and": lambda: S(b("&&", n(1), X)),
                "shift": lambda: S(b("<<", X, n(1))), "tc": lambda: S(t(X, n(1), n(2))), "tx": lambda: S(t(v("a"), X, n(2))), "ty": lambda: S(t(b("==", v("k"), n(2)), v("ka"), X)),
                "ar": lambda: [sig("mid", "t", [n(2)]), asg("<--", v("t"), arr(X, n(1)))], "ar2": lambda: [log(n(1)), sig("mid", "t", [n(2)]), asg("<--", v("t"), arr(X, X))],
                "bus2()": lambda: [sig("mid", "lr", (), {"n": "S", "as": [X]})],
                "bus()": lambda: [sig("mid", "lr", (), {"n": "R", "as": [X]})], "for": lambda: [fr(var("i", (), X), b("<", v("i"), n(0)), asg("=", v("i"), b("+", v("i"), n(1)), "inc"), [])],
                "par": lambda: [comp("h", (), {"k": "par", "e": X})]}[pl]()
    def program(self, pl, X):
        x = lambda *d: sig("in", "x", d)
        ts = {"A": tmpl([], [x(), sig("in", "y"), sig("mid", "h"), sig("out", "z"), asg("<==", v("h"), v("x")), asg("<==", v("z"), v("y"))]),
              "D": tmpl([], [sig("in", "x", (), self.P), sig("out", "z", (), self.P), asg("<==", v("z"), v("x"))]),
              "V": tmpl(["p"], [x(), sig("out", "z", [n(2)]), asg("<==", v("z"), arr(v("x"), n(3)))])}
        fs = {"f": {"params": ["p"], "body": [ret(b("+", v("p"), n(1)))]}, "fa": {"params": ["p"], "body": [ret(arr(v("p"), n(3)))]}, "fr": {"params": ["p"], "body": [ret(v("p", n(0)))]}}
        bus = {"P": {"params": [], "fields": [{"n": "f", "d": [], "bt": []}, {"n": "g", "d": [n(2)], "bt": []}]}, "Q": {"params": [], "fields": [{"n": "f", "d": [], "bt": []}]},
               "R": {"params": ["p"], "fields": [{"n": "f", "d": [v("p")], "bt": []}]}, "S": {"params": ["p"], "fields": [{"n": "h", "d": [], "bt": []}, {"n": "f", "d": [], "bt": [{"n": "R", "as": [v("p")]}]}]}}
        body = [sig("in", "a"), sig("in", "b", [n(2)]), sig("in", "bb", [n(2), n(2)]), sig("in", "w", (), self.P), sig("in", "wa", [n(2)], self.P), sig("in", "q", (), self.Q), sig("out", "o"),
                var("k", (), n(1)), var("ka", [n(2)], arr(n(1), n(2))), comp("c", (), call("A")), comp("d", [n(2)]), comp("e", (), call("D")),
                asg("<==", v("c", "x"), v("a")), asg("<==", v("e", "x"), v("w")), asg("<==", v("o"), n(7))]
        if pl not in ("<==c.y", "=c.y"): body.append(asg("<==", v("c", "y"), v("a")))
        for i in (0, 1): body += [asg("=", v("d", n(i)), call("A")), asg("<==", v("d", n(i), "x"), v("b", n(i))), asg("<==", v("d", n(i), "y"), v("a"))]
        if pl in ("ret", "ret2"):
            # within a function the names are its parameters
            prs = ["a", "b", "k", "ka"]
            fs["g"] = {"params": prs, "body": ([] if pl == "ret" else [iff(b("==", v("k"), n(1)), [ret(v("ka"))])]) + [ret(X)]}
            body.append(var("r", (), call("g", v("a"), v("b"), v("k"), v("ka"))) if pl == "ret" else var("r", [n(2)], call("g", n(1), v("ka"), v("k"), v("ka"))))
        else: body += self.stmts(pl, X)
        ts["M"] = tmpl([], body)
        return prog(ts, "M", funcs=fs, buses=bus)
    @classmethod
    def all(cls): return [(pl, i) for pl in cls.PLACES for i in range(len(cls.operands()))]
