"""Edits of programs (JSON ASTs): small changes a programmer could make by mistake.
Nothing here knows whether the result is a valid program."""
import copy, gen
from gen import n, v, b, iff, blk, loop, asg, wh

def blocks(body):
    """all statement lists of a body"""
    yield body
    for s in body:
        for k in ("t", "e", "b"):
            x = s.get(k)
            if isinstance(x, list): yield from blocks(x)

EKEYS = {"as": ["r"], "ceq": ["l", "r"], "if": ["c"], "wh": ["c"], "for": ["c"], "ret": ["e"], "ast": ["e"]}
def sites(body):
    """(container, key) of every expression"""
    def ex(c, k):
        e = c[k]
        yield c, k
        if e["k"] == "b": yield from ex(e, "l"); yield from ex(e, "r")
        elif e["k"] in ("u", "par"): yield from ex(e, "e")
        elif e["k"] == "t":
            for q in ("c", "x", "y"): yield from ex(e, q)
        elif e["k"] == "a":
            for i in range(len(e["es"])): yield from ex(e["es"], i)
        elif e["k"] == "c":
            for i in range(len(e["as"])): yield from ex(e["as"], i)
        elif e["k"] == "v": yield from acc(e["a"])
    def acc(a):
        for x in a:
            if x["k"] == "i": yield from ex(x, "e")
    for bl in blocks(body):
        for s in bl:
            for k in EKEYS.get(s["k"], []):
                if isinstance(s[k], dict) and s[k].get("k") != "str": yield from ex(s, k)
            if s["k"] == "as": yield from acc(s["l"]["a"])
            if s["k"] in ("var", "sig", "comp"):
                for i in range(len(s["d"])): yield from ex(s["d"], i)
                if s["k"] != "sig" and s["i"]: yield from ex(s["i"], 0)
            if s["k"] == "for":
                if s["i"]["k"] == "var" and s["i"]["i"]: yield from ex(s["i"]["i"], 0)
                if s["s"]["k"] == "as": yield from ex(s["s"], "r")
            if s["k"] == "log":
                for i in range(len(s["as"])):
                    if s["as"][i]["k"] != "str": yield from ex(s["as"], i)

def lvals(body):
    for bl in blocks(body):
        for s in bl:
            if s["k"] == "as": yield s["l"]

def decls(body, kinds=("var", "sig", "comp")):
    for bl in blocks(body):
        for s in bl:
            if s["k"] in kinds: yield s

class Mut:
    def __init__(self, rnd, prog, weights=None):
        self.r, self.p = rnd, copy.deepcopy(prog)
        self.w = weights or {}
        self.done = []
    def anybody(self, T=0.8):
        ts, fs = list(self.p["templates"].values()), list(self.p["funcs"].values())
        if fs and self.r.random() > T: return self.r.choice(fs)
        return self.r.choice(ts)
    def bl(self, D): return self.r.choice([x for x in blocks(D["body"])])
    def pick(self, it):
        l = list(it)
        return self.r.choice(l) if l else None
    def sigs(self, D): return list(decls(D["body"], ("sig",)))
    def anysig(self, D):
        ss = [s for s in self.sigs(D) if not s["bt"]]
        if not ss: return None
        s = self.r.choice(ss)
        return v(s["n"], *[n(0) for _ in s["d"]])
    def cond(self, D):
        k = self.r.random()
        if k < .3: return n(1)
        if k < .5: return n(0)
        s = self.anysig(D)
        if s is None or k < .6: return b("==", n(1), n(1))
        return b("==", s, n(0)) if k < .9 else s
    # --- statements
    def s_del(self):
        D = self.anybody(); l = self.bl(D)
        if len(l) < 1: return False
        del l[self.r.randrange(len(l))]
    def s_dup(self):
        D = self.anybody(); l = self.bl(D)
        if not l: return False
        i = self.r.randrange(len(l)); l.insert(self.r.choice([i + 1, len(l)]), copy.deepcopy(l[i]))
    def s_swap(self):
        D = self.anybody(); l = self.bl(D)
        if len(l) < 2: return False
        i = self.r.randrange(len(l) - 1); l[i], l[i + 1] = l[i + 1], l[i]
    def s_move(self):
        D = self.anybody(); l = self.bl(D)
        if not l: return False
        s = l.pop(self.r.randrange(len(l))); q = self.bl(D); q.insert(self.r.randint(0, len(q)), s)
    def s_wrap(self):
        D = self.anybody(); l = self.bl(D)
        if not l: return False
        i = self.r.randrange(len(l)); j = min(len(l), i + self.r.choice([1, 1, 2]))
        seg = l[i:j]
        w = self.r.randrange(6)
        if w == 0: x = blk(seg)
        elif w == 1: x = iff(self.cond(D), seg)
        elif w == 2: x = iff(self.cond(D), seg, copy.deepcopy(seg) if self.r.random() < .6 else [])
        elif w == 3: x = iff(self.cond(D), [], seg)
        elif w == 4: x = loop("mi", 0, self.r.choice([1, 1, 0, 2]), seg)
        else: x = iff(self.cond(D), seg, [l[k] for k in [self.r.randrange(len(l))] if k not in range(i, j)])
        l[i:j] = [copy.deepcopy(x)]
    def s_unwrap(self):
        D = self.anybody(); l = self.bl(D)
        c = [i for i, s in enumerate(l) if s["k"] in ("if", "wh", "for", "bl")]
        if not c: return False
        i = self.r.choice(c); s = l[i]
        l[i:i + 1] = (s["t"] if self.r.random() < .7 else s["e"]) if s["k"] == "if" else s["b"]
    def s_copy(self):
        D = self.anybody(); E = D if self.r.random() < .6 else self.anybody()
        l, q = self.bl(D), self.bl(E)
        if not q: return False
        l.insert(self.r.randint(0, len(l)), copy.deepcopy(self.r.choice(q)))
    def s_ret(self):
        D = self.anybody(.4); l = self.bl(D)
        e = self.pick(sites(D["body"]))
        l.insert(self.r.randint(0, len(l)), gen.ret(copy.deepcopy(e[0][e[1]]) if e else n(0)))
    def s_ceq(self):
        D = self.anybody(.9); l = self.bl(D)
        a, c = self.pick(sites(D["body"])), self.pick(sites(D["body"]))
        if not a or not c: return False
        l.insert(self.r.randint(0, len(l)), gen.ceq(copy.deepcopy(a[0][a[1]]), copy.deepcopy(c[0][c[1]])))
    def s_assert(self):
        """an assert (or, with signals, a ===) over an expression that is in scope there"""
        D = self.anybody(.7); l = self.bl(D)
        i = self.r.randint(0, len(l))
        near = []
        for s in l[max(0, i - 1):i + 2]: near += [copy.deepcopy(c[k]) for c, k in sites([s]) if not (c is s and k == "i")]
        near = [e for e in near if e["k"] not in ("a", "par")]
        e = self.r.choice(near) if near else n(self.r.randint(0, 2))
        q = self.r.random()
        if q < .2: x = b("==", e, copy.deepcopy(e))
        elif q < .45: x = b(self.r.choice(["!=", "<", ">"]), e, n(self.r.choice([7, 1000, 2**64])))
        elif q < .6: x = b(self.r.choice(["==", "!=", "<=", ">="]), e, n(self.r.choice([0, 1, 2])))
        elif q < .7: x = e
        elif q < .8: x = b("||", b("==", e, n(1)), b("!=", e, n(5)))
        else:
            s = self.anysig(D) if "body" in D else None
            x = b("!=", s, n(self.r.choice([0, 1, 5]))) if s else e
        st = {"k": "ast", "e": x}
        if self.r.random() < .25: st = {"k": "ceq", "l": e, "r": copy.deepcopy(e) if self.r.random() < .6 else n(self.r.randint(0, 2))}
        if self.r.random() < .3: st = iff(self.cond(D), [st], [copy.deepcopy(st)] if self.r.random() < .3 else [])
        l.insert(i, st)
    def s_log(self):
        """a log of an expression that is in scope there"""
        D = self.anybody(1)      # the specification does not keep the logs of functions
        D = D; l = self.bl(D)
        i = self.r.randint(0, len(l))
        near = []
        for s in l[max(0, i - 1):i + 2]: near += [copy.deepcopy(c[k]) for c, k in sites([s]) if not (c is s and k == "i")]
        near = [e for e in near if e["k"] not in ("a", "par")]
        es = [self.r.choice(near)] if near else []
        if self.r.random() < .4: es.insert(0, {"k": "str", "s": "s%d" % self.r.randrange(9)})
        if self.r.random() < .2: es.append(n(self.r.randrange(99)))
        st = {"k": "log", "as": es or [n(1)]}
        if self.r.random() < .3: st = iff(self.cond(D), [st], [])
        l.insert(i, st)
    def s_else(self):
        D = self.anybody()
        c = [s for bl in blocks(D["body"]) for s in bl if s["k"] == "if"]
        if not c: return False
        s = self.r.choice(c)
        if s["he"] and self.r.random() < .5: s["t"], s["e"] = s["e"], s["t"]
        else: s["he"] = not s["he"]; s["e"] = [] if not s["he"] else copy.deepcopy(s["t"])
    # --- expressions
    def esite(self, D): return self.pick(sites(D["body"]))
    def e_repl(self):
        D = self.anybody(); a, c = self.esite(D), self.esite(D)
        if not a: return False
        a[0][a[1]] = copy.deepcopy(c[0][c[1]])
    def e_lit(self):
        D = self.anybody()
        l = [(c, k) for c, k in sites(D["body"]) if c[k]["k"] == "n"]
        if not l: return False
        c, k = self.r.choice(l)
        x = int(c[k]["v"]); c[k] = n(self.r.choice([max(0, x - 1), x + 1, x + 1, 0, 1, 7]))
    def e_wrap(self):
        D = self.anybody(); a = self.esite(D)
        if not a: return False
        e = a[0][a[1]]; s = self.anysig(D) or n(2)
        w = self.r.randrange(9)
        a[0][a[1]] = copy.deepcopy([b("*", e, e), b("*", e, s), b("+", e, s), gen.t(self.cond(D), e, n(0)), gen.u(self.r.choice("-!~"), e),
                      b(self.r.choice(gen.ALL), e, s), gen.arr(e), b("/", e, s), b("*", e, b("*", s, s))][w])
    def e_unwrap(self):
        D = self.anybody()
        l = [(c, k) for c, k in sites(D["body"]) if c[k]["k"] in ("b", "u", "t", "a", "c")]
        if not l: return False
        c, k = self.r.choice(l); e = c[k]
        subs = {"b": lambda: [e["l"], e["r"]], "u": lambda: [e["e"]], "t": lambda: [e["x"], e["y"]], "a": lambda: e["es"], "c": lambda: e["as"]}[e["k"]]()
        if not subs: return False
        c[k] = self.r.choice(subs)
    def accs(self, D):
        return [c[k] for c, k in sites(D["body"]) if c[k]["k"] == "v"] + list(lvals(D["body"]))
    def e_index(self):
        D = self.anybody(); l = self.accs(D)
        if not l: return False
        x = self.r.choice(l); a = x["a"]
        w = self.r.random()
        if w < .3: a.append({"k": "i", "e": n(self.r.randint(0, 1))})
        elif w < .45: a.insert(0, {"k": "i", "e": n(self.r.randint(0, 1))})
        elif w < .6:
            if not a: return False
            a.pop()
        elif w < .7:
            if not a: return False
            a.pop(0)
        else:
            ix = [y for y in a if y["k"] == "i"]
            if not ix: return False
            s = self.anysig(D)
            self.r.choice(ix)["e"] = self.r.choice([n(0), n(1), n(2), n(9), gen.u("-", n(1))] + ([s, s, s] if s else []))
    def e_field(self):
        D = self.anybody(); l = self.accs(D)
        if not l: return False
        x = self.r.choice(l); a = x["a"]
        fs = [y for y in a if y["k"] == "f"]
        names = [s["n"] for T in self.p["templates"].values() for s in self.sigs(T)] + [f["n"] for B in self.p["buses"].values() for f in B["fields"]] + ["zz"]
        if fs and self.r.random() < .6: self.r.choice(fs)["n"] = self.r.choice(names)
        elif fs and self.r.random() < .5: a.remove(self.r.choice(fs))
        else: a.insert(self.r.randint(0, len(a)), {"k": "f", "n": self.r.choice(names)})
    def e_name(self):
        D = self.anybody(); l = self.accs(D)
        if not l: return False
        ns = [s["n"] for s in decls(D["body"])] + list(D["params"]) + ["zz"]
        self.r.choice(l)["n"] = self.r.choice(ns)
    def e_args(self):
        D = self.anybody()
        l = [c[k] for c, k in sites(D["body"]) if c[k]["k"] == "c"]
        if not l: return False
        e = self.r.choice(l); w = self.r.random()
        if w < .25: e["as"].append(n(1))
        elif w < .5:
            if not e["as"]: return False
            e["as"].pop()
        elif w < .7:
            if not e["as"]: return False
            s = self.esite(D); e["as"][self.r.randrange(len(e["as"]))] = copy.deepcopy(s[0][s[1]])
        else: e["f"] = self.r.choice(list(self.p["templates"]) + list(self.p["funcs"]) + ["nope"] * (self.r.random() < .3))
    # --- declarations and operators
    def o_op(self):
        D = self.anybody(.95)
        l = [s for bl in blocks(D["body"]) for s in bl if s["k"] == "as" and not s.get("style")]
        if not l: return False
        s = self.r.choice(l); s["o"] = self.r.choice([x for x in ("<==", "<--", "=", "<==") if x != s["o"]])
    def q_kind(self):
        D = self.anybody(1); s = self.pick(self.sigs(D))
        if not s: return False
        s["q"] = self.r.choice([x for x in ("in", "out", "mid") if x != s["q"]])
    def d_dim(self):
        D = self.anybody(); s = self.pick(decls(D["body"]))
        if not s: return False
        w = self.r.random()
        if w < .4: s["d"].append(n(self.r.choice([1, 2])))
        elif w < .7:
            if not s["d"]: return False
            s["d"].pop()
        else:
            if not s["d"]: return False
            ss = self.anysig(D)
            s["d"][self.r.randrange(len(s["d"]))] = self.r.choice([n(0), n(1), n(5)] + ([ss, b("+", ss, n(1))] if ss else []))
    def d_kind(self):
        D = self.anybody(.8); l = self.bl(D)
        c = [i for i, s in enumerate(l) if s["k"] in ("var", "sig", "comp")]
        if not c: return False
        i = self.r.choice(c); s = l[i]
        k = self.r.choice([x for x in ("var", "sig", "comp") if x != s["k"]])
        l[i] = gen.var(s["n"], s["d"]) if k == "var" else gen.sig(self.r.choice(["in", "out", "mid"]), s["n"], s["d"]) if k == "sig" else gen.comp(s["n"], s["d"])
    def d_new(self):
        D = self.anybody(.8); l = self.bl(D)
        nm = self.r.choice([s["n"] for s in decls(D["body"])] + ["nw", "nw"])
        k = self.r.randrange(5)
        T = self.r.choice(list(self.p["templates"]))
        l.insert(self.r.randint(0, len(l)), [gen.var(nm), gen.var(nm, [n(2)]), gen.sig(self.r.choice(["in", "out", "mid"]), nm),
                 gen.comp(nm), gen.comp(nm, (), gen.call(T, *[n(1) for _ in self.p["templates"][T]["params"]]))][k])
    def p_param(self):
        D = self.anybody(.7)
        if D["params"] and self.r.random() < .5: D["params"].pop(self.r.randrange(len(D["params"])))
        else: D["params"].append(self.r.choice(["qq"] + list(D["params"])))
    def m_main(self):
        m = self.p["main"]; w = self.r.random()
        if w < .3: m["as"] = m["as"] + [n(1)]
        elif w < .5 and m["as"]: m["as"] = m["as"][:-1]
        elif w < .7: m["t"] = self.r.choice(list(self.p["templates"]) + list(self.p["funcs"]))
        else:
            D = self.p["templates"].get(m["t"])
            ns = [s["n"] for s in decls(D["body"])] if D else []
            if not ns: return False
            m["public"] = list(m["public"]) + [self.r.choice(ns)]
    def b_bus(self):
        if not self.p["buses"]: return False
        B = self.r.choice(list(self.p["buses"].values())); w = self.r.random()
        f = self.r.choice(B["fields"])
        if w < .3: f["d"] = list(f["d"]) + [n(2)]
        elif w < .5 and f["d"]: f["d"] = f["d"][:-1]
        elif w < .7: f["n"] = self.r.choice(["zz"] + [x["n"] for x in B["fields"]])
        elif len(B["fields"]) > 1: B["fields"].remove(f)
        else: return False
    ALL = dict(s_del=3, s_dup=2, s_swap=1, s_move=2, s_wrap=3, s_unwrap=1, s_copy=2, s_ret=.5, s_ceq=1, s_else=1, e_repl=3, e_lit=2, e_wrap=2, e_unwrap=1,
               e_index=2, e_field=1, e_name=1.5, e_args=1.5, o_op=1.5, q_kind=1, d_dim=1.5, d_kind=.7, d_new=.7, p_param=.5, m_main=.5, b_bus=0)
    def go(self, k=1):
        w = dict.fromkeys(self.w, 1) if isinstance(self.w, list) else dict(self.ALL, **self.w)
        names = [x for x in w if w[x] > 0]
        t = 0
        while len(self.done) < k and t < 30:
            t += 1
            m = self.r.choices(names, [w[x] for x in names])[0]
            if getattr(self, m)() is not False: self.done.append(m)
        # a mutated statement must not keep a rendering style that no longer matches its shape
        for D in list(self.p["templates"].values()) + list(self.p["funcs"].values()):
            for bl in blocks(D["body"]):
                for s in bl:
                    fix(s)
                    if s["k"] == "if" and s["e"]: s["he"] = True
                    if s["k"] == "for": fix(s["s"]); fix(s["i"])
        return self.p

def fix(s):
    st = s.get("style")
    if not st: return
    ok = st == "rev" and s["o"] in ("<==", "<--")
    if st in ("cmp", "inc"):
        r = s["r"]
        ok = s["o"] == "=" and r["k"] == "b" and r["l"].get("k") == "v" and r["l"]["n"] == s["l"]["n"] and r["l"]["a"] == s["l"]["a"]
        if st == "inc": ok = ok and r["r"] == {"k": "n", "v": "1"} and r["o"] in "+-"
    if not ok: del s["style"]

def mutant(rnd, prog, k=1, weights=None):
    m = Mut(rnd, prog, weights)
    return m.go(k), m.done
