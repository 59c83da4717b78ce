"""AST (JSON) -> circom source.  Parentheses are minimal w.r.t. the documented precedences
unless `full` is set, so that precedence and associativity are exercised too."""
import zlib
PREC = {"||":1,"&&":2,"==":3,"!=":3,"<":3,">":3,"<=":3,">=":3,"|":4,"^":5,"&":6,"<<":7,">>":7,"+":8,"-":8,
        "*":9,"/":9,"\\":9,"%":9,"**":10}

def acc(a, full):
    return "".join("[%s]" % expr(x["e"], 0, full) if x["k"] == "i" else "." + x["n"] for x in a)

def expr(e, lvl=0, full=False):
    """lvl: minimal precedence allowed without parentheses (0 = anything incl. ternary)."""
    k = e["k"]
    if k == "n":
        return e.get("src", e["v"])
    if k == "v":
        return e["n"] + acc(e["a"], full)
    if k == "b":
        p = PREC[e["o"]]
        s = "%s %s %s" % (expr(e["l"], 99 if full else p, full), e["o"], expr(e["r"], 99 if full else p + 1, full))
        return "(" + s + ")" if lvl > p else s
    if k == "u":
        s = e["o"] + expr(e["e"], 12, full)
        return "(" + s + ")" if lvl > 11 else s
    if k == "t":
        s = "%s ? %s : %s" % (expr(e["c"], 1, full), expr(e["x"], 1, full), expr(e["y"], 1, full))
        return "(" + s + ")" if lvl > 0 else s
    if k == "c":
        return "%s(%s)" % (e["f"], ", ".join(expr(x, 0, full) for x in e["as"]))
    if k == "a":
        return "[%s]" % ", ".join(expr(x, 0, full) for x in e["es"])
    if k == "an":
        ps = ", ".join(expr(x, 0, full) for x in e["ps"])
        if e["ns"]:
            sg = ", ".join("%s %s %s" % (n, o, expr(x, 0, full)) for n, o, x in zip(e["ns"], e["os"], e["is"]))
        else:
            sg = ", ".join(expr(x, 0, full) for x in e["is"])
        return "%s(%s)(%s)" % (e["t"], ps, sg)
    if k == "tu":
        return "(%s)" % ", ".join(expr(x, 0, full) for x in e["es"])
    if k == "par":
        return "parallel " + expr(e["e"], 1, full)
    raise Exception(k)

def lval(l, full=False):
    return l["n"] + acc(l["a"], full)

def stmts(ss, ind, full=False):
    return "".join(stmt(s, ind, full) for s in ss)

QUAL = {"in": "input ", "out": "output ", "mid": ""}

def decl_sig(s, full):
    dims = "".join("[%s]" % expr(d, 0, full) for d in s["d"])
    tags = "{%s} " % ", ".join(s["tags"]) if s.get("tags") else ""
    if s["bt"]:
        b = s["bt"][0]
        call = b["n"] + ("(%s)" % ", ".join(expr(x, 0, full) for x in b["as"]) if b["as"] else "()" if s.get("par") else "")
        head = (QUAL[s["q"]] + call + " " + tags) if s.get("pre") else (call + " " + QUAL[s["q"]] + tags)
    else:
        head = "signal " + QUAL[s["q"]] + tags
    return head + s["n"] + dims

def simple(s, full):
    """a statement usable in a for header (no semicolon)"""
    k = s["k"]
    if k == "var":
        return "var %s%s%s" % (s["n"], "".join("[%s]" % expr(d, 0, full) for d in s["d"]),
                               " = " + expr(s["i"][0], 0, full) if s["i"] else "")
    if k == "as":
        st = s.get("style")
        if st == "rev":
            return "%s %s %s" % (expr(s["r"], 0, full), {"<--": "-->", "<==": "==>"}[s["o"]], lval(s["l"], full))
        if st == "cmp":      # x = x op e
            return "%s %s= %s" % (lval(s["l"], full), s["r"]["o"], expr(s["r"]["r"], 0, full))
        if st == "inc":
            return lval(s["l"], full) + ("++" if s["r"]["o"] == "+" else "--")
        return "%s %s %s" % (lval(s["l"], full), s["o"], expr(s["r"], 0, full))
    raise Exception(k)

PLAIN = ("as", "ceq", "ret", "ast", "log")
def body(ss, ind, full, plain):
    """a body: in braces, or bare when it is one statement of a plain kind (half of them)"""
    if len(ss) == 1 and ss[0]["k"] in plain:
        r = stmt(ss[0], ind + 1, full)
        if zlib.crc32(r.encode()) % 2: return "\n" + r
    return "{\n%s%s}" % (stmts(ss, ind + 1, full), "    " * ind)

def stmt(s, ind=1, full=False):
    t = "    " * ind
    k = s["k"]
    if k in ("as",) or (k == "var"):
        return t + simple(s, full) + (";  // @%d\n" % s["id"] if "id" in s else ";\n")
    if k == "sig":
        return t + decl_sig(s, full) + ((" %s %s" % (s["io"], expr(s["init"], 0, full))) if "init" in s else "") + ";\n"
    if k == "comp":
        return t + "component %s%s%s;\n" % (s["n"], "".join("[%s]" % expr(d, 0, full) for d in s["d"]),
                                           " = " + ("parallel " if s.get("par") else "") + expr(s["i"][0], 0, full) if s["i"] else "")
    if k == "ceq":
        return t + "%s === %s;\n" % (expr(s["l"], 0, full), expr(s["r"], 0, full))
    if k == "if":
        r = t + "if (%s) %s" % (expr(s["c"], 0, full), body(s["t"], ind, full, PLAIN))
        if s["he"]:
            r += (t if r[-1] == "\n" else " ") + "else " + body(s["e"], ind, full, PLAIN + ("if", "wh"))
        return r.rstrip("\n") + "\n"
    if k == "wh":
        return t + "while (%s) %s" % (expr(s["c"], 0, full), body(s["b"], ind, full, PLAIN + ("wh",)).rstrip("\n")) + "\n"
    if k == "for":
        return t + "for (%s; %s; %s) %s" % (simple(s["i"], full), expr(s["c"], 0, full), simple(s["s"], full),
                                            body(s["b"], ind, full, PLAIN + ("wh",)).rstrip("\n")) + "\n"
    if k == "bl":
        return t + "{\n%s%s}\n" % (stmts(s["b"], ind + 1, full), t)
    if k == "ret":
        return t + "return %s;\n" % expr(s["e"], 0, full)
    if k == "ast":
        return t + "assert(%s);\n" % expr(s["e"], 0, full)
    if k == "log":
        return t + "log(%s);\n" % ", ".join('"%s"' % x["s"] if x["k"] == "str" else expr(x, 0, full) for x in s["as"])
    if k == "und":
        return t + "_ %s %s;\n" % (s["o"], expr(s["r"], 0, full))
    if k == "mas":
        return t + "(%s) %s %s;\n" % (", ".join("_" if x is None or x == {} else lval(x, full) for x in s["ls"]), s["o"], expr(s["r"], 0, full))
    if k == "mt":
        if s.get("style") == "rev":
            return t + "%s %s %s;\n" % (expr(s["r"], 0, full), {"<--": "-->", "<==": "==>"}[s["o"]], expr(s["l"], 0, full))
        return t + "%s %s %s;\n" % (expr(s["l"], 0, full), s["o"], expr(s["r"], 0, full))
    if k == "mdecl":
        head = "signal " + QUAL[s["q"]] if s["kind"] == "signal" else s["kind"] + " "
        return t + "%s(%s)%s;\n" % (head, ", ".join(x["n"] + "".join("[%s]" % expr(d, 0, full) for d in x["d"]) for x in s["ns"]),
                                    " %s %s" % (s["o"], expr(s["i"][0], 0, full)) if s["i"] else "")
    if k == "anst":
        return t + expr(s["e"], 0, full) + ";\n"
    if k == "raw":
        return t + s["s"] + "\n"
    raise Exception(k)

def program(p, full=False, pragma="2.1.9", head=""):
    out = []
    if pragma:
        out.append("pragma circom %s;\n" % pragma)
    if p.get("custompragma", any(t.get("custom") for t in p["templates"].values())):
        out.append("pragma custom_templates;\n")
    out.append(head)
    for n, b in p.get("buses", {}).items():
        out.append("bus %s(%s) {\n" % (n, ", ".join(b["params"])))
        for f in b["fields"]:
            dims = "".join("[%s]" % expr(d, 0, full) for d in f["d"])
            tags = "{%s} " % ", ".join(f["tags"]) if f.get("tags") else ""
            if f["bt"]:
                c = f["bt"][0]
                out.append("    %s(%s) %s%s%s;\n" % (c["n"], ", ".join(expr(x, 0, full) for x in c["as"]), tags, f["n"], dims))
            else:
                out.append("    signal %s%s%s;\n" % (tags, f["n"], dims))
        out.append("}\n")
    for n, f in p["funcs"].items():
        out.append("function %s(%s) {\n%s}\n" % (n, ", ".join(f["params"]), stmts(f["body"], 1, full)))
    for n, t in p["templates"].items():
        out.append("template %s%s%s(%s) {\n%s}\n" % ("custom " if t.get("custom") else "", "parallel " if t.get("parallel") else "",
                                                   n, ", ".join(t["params"]), stmts(t["body"], 1, full)))
    m = p["main"]
    pub = " {public [%s]}" % ", ".join(m["public"]) if m["public"] else ""
    out.append("component main%s = %s(%s)%s;\n" % (pub, m["t"], ", ".join(expr(x, 0, full) for x in m["as"]), "()" if m.get("an") else ""))
    return "".join(out)
