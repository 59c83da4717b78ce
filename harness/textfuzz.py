"""Source texts near valid programs: tokens deleted, doubled, swapped or replaced. Numbers stay small and loops are not lengthened on
purpose, so that what does not end or fills the memory stays rare."""
import re
TOK = re.compile(r'"[^"\n]*"|0x[0-9a-fA-F]+|\d+|[A-Za-z_$][\w$]*|<==|==>|<--|-->|===|\+\+|--|\*\*=|\*\*|<<=|>>=|<<|>>|<=|>=|==|!=|&&|\|\||\\=|[-+*/\\%&|^]=|\s+|.', re.S)
VOC = """signal input output public template component var function return if else for while do log assert include parallel pragma circom custom_templates bus custom main
( ) [ ] { } ; , . = <== ==> <-- --> === + - * / \\ % ** << >> & | ^ && || ! ~ == != < > <= >= ? : += -= *= ++ -- _ 0 1 2 3 7 0x1f "s" i x a""".split()
SNIP = ["_ <== x;", "(a, b) <== (1, 2);", "var (q, w) = (1, 2);", "component c = A();", "A()(x)", "A(1)([x, 1])", "[1, 2]", "[[1], [2]]", "signal s[2];", "signal {t} g;", "s.t", "c[0].x", "log();", "return;", "return [1, 2];",
        "assert(1);", "if (1) { } else { }", "while (0) { }", "for (var i = 0; i < 2; i++) { }", "P() p;", "signal input P() p;", "var v[2][2];", "x ? 1 : 2", "parallel A()", "1 === 1;", "a.b.c", "f(1, 2)", "signal output o <== 1;", "component d[2];", "{ }",
        "/* c */", "// c\n", "/*", "\u00e9", "\"", "@", "$", "'", "\\", "//"]
def tokens(t): return TOK.findall(t)
def mutate(r, text, k):
    T = tokens(text)
    idx = [i for i, x in enumerate(T) if not x.isspace()]
    words = [T[i] for i in idx if not (T[i].isdigit() and int(T[i]) > 9)]
    for _ in range(k):
        q = r.random(); i = r.choice(idx)
        if q < .2: T[i] = ""
        elif q < .3: T[i] = T[i] + " " + T[i]
        elif q < .5: T[i] = r.choice(words)
        elif q < .65: T[i] = r.choice(VOC)
        elif q < .75: j = r.choice(idx); T[i], T[j] = T[j], T[i]
        elif q < .85: T[i] = T[i] + " " + r.choice(VOC) + " "
        elif q < .93: T[i] = T[i] + " " + r.choice(SNIP) + " "
        else:      # a whole statement once more, elsewhere
            a = T[:i]; s = max([n for n, x in enumerate(a) if x in (";", "{", "}")] + [0]); e = next((n for n in range(i, len(T)) if T[n] in (";", "{", "}")), len(T) - 1)
            st = "".join(T[s + 1:e + 1]); j = r.choice(idx); T[j] = T[j] + (" " + st if T[j] in (";", "{", "}") else "")
    return re.sub(r"\d{3,}", lambda m: m.group()[:2], "".join(T))
