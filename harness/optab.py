"""Operator tables: boundary operands and the programs that exercise every operator on them."""
import gen
from gen import n, v, b, u, t, call, asg, sig, var, tmpl, prog
OPS = gen.ALL
def values(p, r, k=4):
    bits = p.bit_length()
    h = p // 2
    vs = [0, 1, 2, 3, 5, 7, 31, 32, 33, 63, 64, 65, bits - 2, bits - 1, bits, bits + 1, 256, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**63, 2**64 - 1, 2**64,
          2**(bits - 1) - 1, 2**(bits - 1), 2**(bits - 2), h - 1, h, h + 1, h + 2, p - 1, p - 2, p - 3, p - 2**31, p - 2**31 - 1, p - 2**32, p - 64, p - bits, p - bits + 1, p - bits - 1, 2**bits - p, 2**bits - 1 - p, p - 2**(bits-1)]
    vs = sorted({x for x in vs if 0 <= x < p})
    return vs + [r.randrange(p) for _ in range(k)]

def lit(r, x, p):
    """a literal denoting x: decimal, hexadecimal, or a representative beyond p"""
    c = r.randrange(8)
    if c == 0: return n(x, "0x%x" % x)
    if c == 1: return n(x + p)
    return n(x)

def apply(op, l, rr):
    return b(op, l, rr)

def folded(r, p, pairs, mode):
    """a program whose outputs are all operators applied to known operands.
    mode 0: literals, 1: template parameters, 2: variables, 3: function arguments"""
    outs = []
    for x, y in pairs:
        X, Y = lit(r, x, p), lit(r, y, p)
        for op in OPS:
            if op in ("/", "\\", "%") and y == 0: continue
            outs.append((op, X, Y))
        for op in ("-", "!", "~"): outs.append((op, X, None))
    def e(op, X, Y): return b(op, X, Y) if Y is not None else u(op, X)
    N = len(outs)
    if mode == 1:
        body = [sig("out", "o")]
        ts = {}
        for op in {o for o, _, y in outs if y is not None}:
            ts["B%d" % OPS.index(op)] = tmpl(["x", "y"], [sig("out", "o"), asg("<==", v("o"), b(op, v("x"), v("y")))])
        for i, op in enumerate(["-", "!", "~"]):
            ts["U%d" % i] = tmpl(["x"], [sig("out", "o"), asg("<==", v("o"), u(op, v("x")))])
        main = [sig("out", "o", [n(N)])]
        for i, (op, X, Y) in enumerate(outs):
            mk = call("B%d" % OPS.index(op), X, Y) if Y is not None else call("U%d" % ["-", "!", "~"].index(op), X)
            main += [gen.comp("c%d" % i, (), mk), asg("<==", v("o", n(i)), v("c%d" % i, "o"))]
        ts["M"] = tmpl([], main)
        return prog(ts, "M")
    main = [sig("out", "o", [n(N)])]
    fs = {}
    if mode == 2: main += [var("x"), var("y")]
    if mode == 3:
        for op in OPS: fs["b%d" % OPS.index(op)] = {"params": ["x", "y"], "body": [gen.ret(b(op, v("x"), v("y")))]}
        for i, op in enumerate(["-", "!", "~"]): fs["u%d" % i] = {"params": ["x"], "body": [gen.ret(u(op, v("x")))]}
    for i, (op, X, Y) in enumerate(outs):
        o = v("o", n(i))
        if mode == 0: main.append(asg("<==", o, e(op, X, Y)))
        elif mode == 2:
            main.append(asg("=", v("x"), X))
            if Y is not None:
                main.append(asg("=", v("y"), Y))
                # compound assignment where the language has one
                if op in ("+", "-", "*", "/", "\\", "%", "**", "<<", ">>", "&", "|", "^"): main += [asg("=", v("x"), b(op, v("x"), v("y")), "cmp"), asg("<==", o, v("x"))]
                else: main.append(asg("<==", o, b(op, v("x"), v("y"))))
            else: main.append(asg("<==", o, u(op, v("x"))))
        else:
            main.append(asg("<==", o, call("b%d" % OPS.index(op), X, Y) if Y is not None else call("u%d" % ["-", "!", "~"].index(op), X)))
    return prog({"M": tmpl([], main)}, "M", funcs=fs)

def divzero(r, p, x, op, mode):
    X, Z = lit(r, x, p), lit(r, 0, p)
    if mode == 0: body, fs, ts = [asg("<==", v("o"), b(op, X, Z))], {}, {}
    elif mode == 1: body, fs = [var("x", (), X), var("y", (), Z), asg("<==", v("o"), b(op, v("x"), v("y")))], {}
    elif mode == 2: body, fs = [asg("<==", v("o"), call("f", X, Z))], {"f": {"params": ["x", "y"], "body": [gen.ret(b(op, v("x"), v("y")))]}}
    else: body, fs = [asg("<--", v("o"), b("+", v("a"), b(op, X, Z)))], {}
    return prog({"M": tmpl([], [sig("in", "a"), sig("out", "o")] + body)}, "M", funcs=fs)

def runtime(r, p, ops, K):
    """operators on inputs in several internal representations: as read, as a product, as a sum,
    as a comparison result, and constants K on either side"""
    body = [sig("in", "a"), sig("in", "b"), sig("in", "one")]
    outs = []
    A = [v("a"), b("*", v("a"), v("one")), b("-", b("+", v("a"), v("one")), v("one")), v("va"), v("c", "q")]
    B = [v("b"), b("*", v("b"), v("one")), b("-", b("+", v("b"), v("one")), v("one")), v("vb"), v("c", "w")]
    pre = [var("va", (), b("*", v("a"), v("one"))), var("vb", (), v("b")), gen.comp("c", (), call("C")),
           asg("<--", v("c", "x"), v("a")), asg("<--", v("c", "y"), b("*", v("b"), v("one")))]
    for op in ops:
        def g(l, rr, z):
            e = b(op, l, rr)
            return t(b("!=", z, n(0)), e, n(9)) if op in ("/", "\\", "%") else e
        cs = [(x, y) for x in range(5) for y in range(5)]
        r.shuffle(cs)
        for x, y in cs[:6]: outs.append(g(A[x], B[y], v("b")))
        for k in K:
            outs.append(g(r.choice(A), n(k), n(k)))
            outs.append(g(n(k), r.choice(B), v("b")))
        outs.append(call("f%d" % OPS.index(op), r.choice(A), r.choice(B)))
        outs.append(g(b(r.choice(gen.CMP), v("a"), v("b")), r.choice(B), v("b")))
    for op in ("-", "!", "~"):
        for x in A: outs.append(u(op, x))
        outs.append(u(op, b("<", v("a"), v("b"))))
    fs = {}
    for op in ops:
        e = b(op, v("x"), v("y"))
        body_f = [gen.iff(b("==", v("y"), n(0)), [gen.ret(n(4))]), gen.ret(e)] if op in ("/", "\\", "%") else [gen.ret(e)]
        fs["f%d" % OPS.index(op)] = {"params": ["x", "y"], "body": body_f}
    C = tmpl([], [sig("in", "x"), sig("in", "y"), sig("out", "q"), sig("out", "w"), asg("<--", v("q"), v("x")), asg("<--", v("w"), v("y"))])
    main = body + [sig("out", "o", [n(len(outs))])] + pre + [asg("<--", v("o", n(i)), e) for i, e in enumerate(outs)]
    return prog({"C": C, "M": tmpl([], main)}, "M", funcs=fs)
