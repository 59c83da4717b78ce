-------------------------------- MODULE Lang --------------------------------
(* The circom language as a transition system over program states.           *)
(*                                                                           *)
(* One interpreter, two modes:                                               *)
(*   mode "C"  elaboration (what the compiler must do): signals are symbols, *)
(*             expressions are constants, linear, quadratic or non-quadratic *)
(*             forms, conditions may be unknown, `<==`/`===` emit constraints*)
(*   mode "R"  witness computation: signals are field elements, conditions   *)
(*             are always decided, `===` and assert are checks               *)
(* Everything else (scopes, arrays, control flow, functions, components,     *)
(* buses) is shared: a program means the same thing at both stages.          *)
(*                                                                           *)
(* A state is a record; Exec is the effect of one statement on it; Step      *)
(* executes the next top-level statement of the main component.              *)
EXTENDS Field, FiniteSets, TLC, SequencesExt

EmptyF == [x \in {} |-> 0]
EMPTYG == [x \in {} |-> ""]

-----------------------------------------------------------------------------
(* Symbolic expressions ("Dom")                                              *)
N(x)       == [t |-> "n", x |-> x]
Lin(c, k)  == [t |-> "l", c |-> c, k |-> k]       \* sum c[s]*s + k
Quad(a, b, c) == [t |-> "q", a |-> a, b |-> b, c |-> c]   \* a*b + c, all linear
NQ         == [t |-> "x"]
Sym(s)     == Lin(s :> One, Zero)

LinOf(e) == IF e.t = "n" THEN Lin(EmptyF, e.x) ELSE e
Coef(c, s) == IF s \in DOMAIN c THEN c[s] ELSE Zero
LAdd(a, b, p) == Lin([s \in (DOMAIN a.c) \cup (DOMAIN b.c) |-> FAdd(Coef(a.c, s), Coef(b.c, s), p)],
                     FAdd(a.k, b.k, p))
LScale(a, k, p) == Lin([s \in DOMAIN a.c |-> FMul(a.c[s], k, p)], FMul(a.k, k, p))

DAdd(l, r, p) ==
  IF l.t = "x" \/ r.t = "x" THEN NQ
  ELSE IF l.t = "n" /\ r.t = "n" THEN N(FAdd(l.x, r.x, p))
  ELSE IF l.t = "q" /\ r.t = "q" THEN NQ
  ELSE IF l.t = "q" THEN Quad(l.a, l.b, LAdd(l.c, LinOf(r), p))
  ELSE IF r.t = "q" THEN Quad(r.a, r.b, LAdd(r.c, LinOf(l), p))
  ELSE LAdd(LinOf(l), LinOf(r), p)
DScale(e, k, p) ==
  CASE e.t = "n" -> N(FMul(e.x, k, p))
    [] e.t = "l" -> LScale(e, k, p)
    [] e.t = "q" -> Quad(LScale(e.a, k, p), e.b, LScale(e.c, k, p))
    [] e.t = "x" -> NQ
DMul(l, r, p) ==
  IF l.t = "x" \/ r.t = "x" THEN NQ
  ELSE IF l.t = "n" THEN DScale(r, l.x, p)
  ELSE IF r.t = "n" THEN DScale(l, r.x, p)
  ELSE IF l.t = "l" /\ r.t = "l" THEN Quad(l, r, Lin(EmptyF, Zero))
  ELSE NQ
DNeg(e, p) == DScale(e, BSub(p, One), p)

\* Result of an operator on symbolic values; "none" in field x marks "no value"
DBin(op, l, r, p) ==
  IF l.t = "n" /\ r.t = "n" THEN N(Bin(op, l.x, r.x, p))
  ELSE CASE op = "+" -> DAdd(l, r, p)
         [] op = "-" -> DAdd(l, DNeg(r, p), p)
         [] op = "*" -> DMul(l, r, p)
         [] op = "/" -> IF r.t # "n" \/ l.t = "x" THEN NQ
                        ELSE IF r.x = Zero THEN N(NoVal) ELSE DScale(l, FInv(r.x, p), p)
         [] op = "**" -> IF r.t = "n" /\ r.x = BN(2) /\ l.t = "l" THEN Quad(l, l, Lin(EmptyF, Zero)) ELSE NQ
         [] OTHER -> NQ
DUn(op, e, p) ==
  IF e.t = "n" THEN N(Un(op, e.x, p))
  ELSE IF op = "-" THEN DNeg(e, p) ELSE NQ

-----------------------------------------------------------------------------
(* Constraints as polynomials: monomial -> non-zero coefficient, where a     *)
(* monomial is <<set of signals, degree>>; compared up to a non-zero factor. *)
AddTerm(P, m, k, p) == LET o == IF m \in DOMAIN P THEN P[m] ELSE Zero
                       IN  (m :> FAdd(o, k, p)) @@ P
RECURSIVE AddTerms(_, _, _)
AddTerms(P, ts, p) == IF ts = <<>> THEN P ELSE AddTerms(TLCEval(AddTerm(P, ts[1][1], ts[1][2], p)), Tail(ts), p)
LinTerms(a, k, p) == LET ss == SetToSeq(DOMAIN a.c)
                     IN [i \in 1..Len(ss) |-> <<<<{ss[i]}, 1>>, FMul(a.c[ss[i]], k, p)>>]
                        \o << <<<<{}, 0>>, FMul(a.k, k, p)>> >>
MulTerms(a, b, p) ==
  LET sa == SetToSeq(DOMAIN a.c)
      sb == SetToSeq(DOMAIN b.c)
      n == Len(sb)
  IN  [i \in 1..(Len(sa) * n) |->
         LET x == sa[((i - 1) \div n) + 1]  y == sb[((i - 1) % n) + 1]
         IN  <<<<{x, y}, 2>>, FMul(a.c[x], b.c[y], p)>>]
      \o LinTerms(Lin(a.c, Zero), b.k, p) \o LinTerms(Lin(b.c, Zero), a.k, p)
      \o << <<<<{}, 0>>, FMul(a.k, b.k, p)>> >>
Nonzero(P) == LET D == {m \in DOMAIN P : P[m] # Zero} IN [m \in D |-> P[m]]
PolyOf(e, p) ==
  CASE e.t = "n" -> Nonzero(AddTerms(EmptyF, << <<<<{}, 0>>, e.x>> >>, p))
    [] e.t = "l" -> Nonzero(AddTerms(EmptyF, LinTerms(e, One, p), p))
    [] e.t = "q" -> Nonzero(AddTerms(EmptyF, MulTerms(e.a, e.b, p) \o LinTerms(e.c, One, p), p))
\* canonical representative of { k*P : k # 0 }
Canon(P, p) == IF DOMAIN P = {} THEN P
               ELSE LET m == CHOOSE m \in DOMAIN P : TRUE
                        i == FInv(P[m], p)
                    IN TLCEval([x \in DOMAIN P |-> FMul(P[x], i, p)])

-----------------------------------------------------------------------------
(* Values: [d: dims, v: flat row-major Dom sequence, b: bus key, e: error]   *)
V(d, v)    == [d |-> d, v |-> v, b |-> "", e |-> ""]
VB(d, v, b) == [d |-> d, v |-> v, b |-> b, e |-> ""]
VE(e)      == [d |-> <<>>, v |-> <<N(Zero)>>, b |-> "", e |-> e]
VS(x)      == V(<<>>, <<x>>)

Max2(a, b) == IF a >= b THEN a ELSE b
RECURSIVE Prod(_)
Prod(d) == IF d = <<>> THEN 1 ELSE d[1] * Prod(Tail(d))

RECURSIVE Idxs(_)
\* all index suffixes of an array of dimensions d, row-major: "[0][0]", "[0][1]", ...
Idxs(d) == IF d = <<>> THEN <<"">>
           ELSE LET R == Idxs(Tail(d))
                IN  [i \in 1..(d[1] * Len(R)) |->
                      "[" \o ToString((i - 1) \div Len(R)) \o "]" \o R[((i - 1) % Len(R)) + 1]]

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(Tail(ss))

Plain == [n |-> "", key |-> "", fs |-> <<>>]
RECURSIVE Leaves(_, _, _)
Leaves(base, d, bt) ==
  LET I == Idxs(d)
  IN IF bt.n = "" THEN [i \in 1..Len(I) |-> base \o I[i]]
     ELSE Flat([i \in 1..Len(I) |->
               Flat([j \in 1..Len(bt.fs) |->
                     Leaves(base \o I[i] \o "." \o bt.fs[j].n, bt.fs[j].d, bt.fs[j].bt)])])

-----------------------------------------------------------------------------
(* Scopes                                                                    *)
RECURSIVE FindScope(_, _, _)
FindScope(sc, n, i) == IF i = 0 THEN 0 ELSE IF n \in DOMAIN sc[i] THEN i ELSE FindScope(sc, n, i - 1)
Lookup(st, n) == LET i == FindScope(st.scopes, n, Len(st.scopes))
                 IN  IF i = 0 THEN [k |-> "none"] ELSE st.scopes[i][n]
Bind(st, n, ent) == [st EXCEPT !.scopes[Len(st.scopes)] = (n :> ent) @@ @]
Rebind(st, n, ent) == [st EXCEPT !.scopes[FindScope(st.scopes, n, Len(st.scopes))] = (n :> ent) @@ @]
\* verdicts the specification leaves open: the program relies on something the
\* language leaves undefined, or exceeds the bounds of this interpreter
DontCare == {"dcidxun", "dcunkread", "dcunread", "dcdepth", "dcpath", "dcdivzero", "dcarr", "dcunas", "dcunkasg", "dcunset", "dctdepth", "dcfuel", "dcfuelu", "dcarrdims", "dcassert", "dcshadow", "dcoobunk"}
Fail(st, e) == IF st.err = "" THEN [st EXCEPT !.err = e] ELSE st

\* entry of signal `leaf` in the signal table
SigVal(st, leaf) == IF st.mode = "C" THEN Sym(leaf)
                    ELSE IF leaf \in DOMAIN st.sig THEN N(st.sig[leaf]) ELSE N("unassigned")

RECURSIVE Eval(_, _), EvalSeq(_, _, _), Exec(_, _), ProbeExec(_, _), RealExec(_, _), ExecSeq(_, _), Loop(_, _, _, _),
          RunInstance(_, _), EvalAccs(_, _), WalkSig(_, _, _, _), LoopUnk(_, _, _, _)

EvalSeq(es, st, acc) == IF es = <<>> THEN acc
                        ELSE EvalSeq(Tail(es), st, Append(acc, TLCEval(Eval(es[1], st))))

\* accesses with their indexes evaluated: [k|->"i", x|->int], [k|->"f", n], [k|->"u"] unknown index, [k|->"e", e|->err]
EvalAccs(as, st) ==
  [j \in 1..Len(as) |->
     IF as[j].k = "f" THEN [k |-> "f", n |-> as[j].n]
     ELSE LET r == Eval(as[j].e, st)
          IN IF r.e # "" THEN [k |-> "e", e |-> r.e]
             ELSE IF r.v[1].t # "n" THEN [k |-> "u"]
             ELSE IF r.v[1].x = "unassigned" THEN [k |-> "e", e |-> "dcidxun"]
             ELSE IF ~BSmall(r.v[1].x) THEN [k |-> "e", e |-> "oob"]
             ELSE [k |-> "i", x |-> BInt(r.v[1].x)]]

\* the rest of an access whose element is not known: its shape
RECURSIVE WalkUnk(_, _, _)
WalkUnk(d, bt, as) ==
  LET R(e) == [base |-> "?", d |-> d, bt |-> bt, e |-> e] IN
  IF as = <<>> THEN R("unk")
  ELSE LET a == as[1] IN
    IF a.k = "e" THEN R(a.e)
    ELSE IF a.k = "f" THEN
      LET fs == {j \in 1..Len(bt.fs) : bt.fs[j].n = a.n}
      IN IF d # <<>> \/ fs = {} THEN R("type")
         ELSE LET f == bt.fs[CHOOSE j \in fs : TRUE] IN WalkUnk(f.d, f.bt, Tail(as))
    ELSE IF d = <<>> THEN R("type")
    ELSE IF a.k = "i" /\ a.x >= d[1] THEN R("dcoobunk")
    ELSE WalkUnk(Tail(d), bt, Tail(as))

\* follow accesses from a signal or bus: result [base, d, bt, e]
WalkSig(base, d, bt, as) ==
  IF as = <<>> THEN [base |-> base, d |-> d, bt |-> bt, e |-> ""]
  ELSE LET a == as[1] IN
    IF a.k = "e" THEN [base |-> base, d |-> d, bt |-> bt, e |-> a.e]
    ELSE IF a.k = "f" THEN
      LET fs == {j \in 1..Len(bt.fs) : bt.fs[j].n = a.n}
      IN IF d # <<>> \/ fs = {} THEN [base |-> base, d |-> d, bt |-> bt, e |-> "type"]
         ELSE LET f == bt.fs[CHOOSE j \in fs : TRUE]
              IN WalkSig(base \o "." \o f.n, f.d, f.bt, Tail(as))
    ELSE IF d = <<>> THEN [base |-> base, d |-> d, bt |-> bt, e |-> "type"]
    ELSE IF a.k = "u" THEN WalkUnk(Tail(d), bt, Tail(as))
    ELSE IF a.x >= d[1] THEN [base |-> base, d |-> d, bt |-> bt, e |-> "oob"]
    ELSE WalkSig(base \o "[" \o ToString(a.x) \o "]", Tail(d), bt, Tail(as))

\* offset of an index prefix into a flat array; -1 out of bounds, -2 unknown, -3 malformed
RECURSIVE Offset(_, _, _)
Offset(d, as, off) ==
  IF as = <<>> THEN off * Prod(d)
  ELSE IF as[1].k = "e" THEN -3
  ELSE IF as[1].k = "f" \/ d = <<>> THEN -3
  ELSE IF as[1].k = "u" THEN -2
  ELSE IF as[1].x >= d[1] THEN -1
  ELSE Offset(Tail(d), Tail(as), off * d[1] + as[1].x)
AccErr(as) == LET S == {i \in 1..Len(as) : as[i].k = "e"} IN IF S = {} THEN "type" ELSE as[CHOOSE i \in S : TRUE].e
AnyUnk(as) == \E i \in 1..Len(as) : as[i].k = "u"
HasErr(as) == \E i \in 1..Len(as) : as[i].k = "e"

FirstErr(vs) == LET S == {i \in 1..Len(vs) : vs[i].e # ""} IN
                IF S = {} THEN "" ELSE vs[CHOOSE i \in S : \A j \in S : i <= j].e

\* component access: entry, evaluated accesses -> [path, sigent, as, e]
CompAccess(st, ent, as) ==
  LET n == Len(ent.d)
      bad(e) == [path |-> "", ent |-> [k |-> "none"], as |-> <<>>, e |-> e]
  IN IF HasErr(as) THEN bad(AccErr(as))
     ELSE IF Len(as) < n + 1 THEN bad("type")
     ELSE IF \E j \in 1..n : as[j].k = "u" THEN bad("unkcomp")
     ELSE IF \E j \in 1..n : as[j].k # "i" THEN bad("type")
     ELSE IF \E j \in 1..n : as[j].x >= ent.d[j] THEN bad("oob")
     ELSE IF as[n + 1].k # "f" THEN bad("type")
     ELSE LET RECURSIVE sfx(_)
              sfx(j) == IF j > n THEN "" ELSE "[" \o ToString(as[j].x) \o "]" \o sfx(j + 1)
              path == ent.base \o sfx(1)
          IN IF path \notin DOMAIN st.inst THEN bad("notinst")
             ELSE IF as[n + 1].n \notin DOMAIN st.inst[path].ents THEN bad("private")
             ELSE [path |-> path, ent |-> st.inst[path].ents[as[n + 1].n],
                   as |-> SubSeq(as, n + 2, Len(as)), e |-> ""]

UnkVal(w) == VB(w.d, [i \in 1..(Prod(w.d) * Len(Leaves("", <<>>, w.bt))) |-> NQ], w.bt.key)
ReadSig(st, w) ==
  IF st.probe THEN (IF w.e \notin {"", "unk"} THEN VE(w.e) ELSE UnkVal(w))
  ELSE IF w.e = "unk" THEN (IF st.mode = "C" THEN UnkVal(w) ELSE VE("dcunkread"))
  ELSE IF w.e # "" THEN VE(w.e)
  ELSE LET ls == Leaves(w.base, w.d, w.bt)
       IN IF st.mode = "R" /\ \E i \in 1..Len(ls) : ls[i] \notin DOMAIN st.sig
          THEN VE("dcunread")         \* reading a signal that has no value on this path
          ELSE IF st.mode = "C" /\ \E i \in 1..Len(ls) : ls[i] \notin DOMAIN st.sig
          THEN VE("unread")           \* reading a signal no path has assigned yet
          ELSE VB(w.d, [i \in 1..Len(ls) |-> SigVal(st, ls[i])], w.bt.key)

\* an output its own template leaves unassigned is undefined
ReadOut(st, w) == LET r == TLCEval(ReadSig(st, w)) IN IF r.e = "unread" THEN VE("dcunset") ELSE r

ReadVar(ent, as) ==
  LET off == Offset(ent.d, as, 0)
      rd  == SubSeq(ent.d, Len(as) + 1, Len(ent.d))
  IN IF off = -3 THEN VE(AccErr(as))
     ELSE IF off = -1 THEN VE("oob")
     ELSE IF off = -2 THEN (IF Len(as) > Len(ent.d) THEN VE("type") ELSE V(rd, [i \in 1..Prod(rd) |-> NQ]))
     ELSE V(rd, SubSeq(ent.v, off + 1, off + Prod(rd)))

EvalCall(f, args, st) ==
  LET F == st.prog.funcs[f]
      s0 == [st EXCEPT !.scopes = << [n \in {F.params[i] : i \in 1..Len(F.params)} |->
                                      LET i == CHOOSE i \in 1..Len(F.params) : F.params[i] = n
                                      IN [k |-> "var", d |-> args[i].d, v |-> args[i].v]] >>,
                       !.unk = FALSE, !.cond = <<>>, !.ret = <<>>, !.depth = @ + 1]
      s1 == TLCEval(ExecSeq(F.body, s0))
  IN IF st.depth > 25 THEN VE("dcdepth")
     ELSE IF s1.err # "" THEN VE(s1.err)
     ELSE IF s1.ret = <<>> THEN VE("noret")
     ELSE s1.ret[1]

Eval(e, st) ==
  CASE e.k = "n" -> VS(N(Red(e.v, st.p)))
    [] e.k = "v" ->
        LET ent == Lookup(st, e.n)
            as  == TLCEval(EvalAccs(e.a, st))
        IN IF HasErr(as) THEN VE(AccErr(as))
           ELSE CASE ent.k = "var" -> ReadVar(ent, as)
             [] ent.k = "sig" -> ReadSig(st, WalkSig(ent.base, ent.d, ent.bt, as))
             [] ent.k = "comp" ->
                 LET c == TLCEval(CompAccess(st, ent, as))
                 IN IF c.e # "" THEN VE(c.e)
                    ELSE IF c.ent.q = "out" /\ ~st.inst[c.path].done THEN VE(IF st.mode = "C" THEN "notready" ELSE "dcpath")
                    ELSE IF c.ent.q = "out" /\ st.mode = "C" THEN ReadOut(st, WalkSig(c.ent.base, c.ent.d, c.ent.bt, c.as))
                    ELSE ReadSig(st, WalkSig(c.ent.base, c.ent.d, c.ent.bt, c.as))
             [] OTHER -> IF st.probe THEN VS(NQ) ELSE VE("undecl")
    [] e.k = "b" ->
        LET l == TLCEval(Eval(e.l, st))
            r == TLCEval(Eval(e.r, st))
        IN IF l.e # "" THEN l ELSE IF r.e # "" THEN r
           ELSE IF l.d # <<>> \/ r.d # <<>> \/ l.b # "" \/ r.b # "" THEN VE("type")
           ELSE LET x == TLCEval(DBin(e.o, l.v[1], r.v[1], st.p))
                IN IF x.t = "n" /\ x.x = NoVal THEN VE(IF st.mode = "C" THEN "divzero" ELSE "dcdivzero") ELSE VS(x)
    [] e.k = "u" ->
        LET r == TLCEval(Eval(e.e, st))
        IN IF r.e # "" THEN r ELSE IF r.d # <<>> \/ r.b # "" THEN VE("type") ELSE VS(DUn(e.o, r.v[1], st.p))
    [] e.k = "t" ->
        LET c == TLCEval(Eval(e.c, st))
        IN IF c.e # "" THEN c
           ELSE IF c.d # <<>> THEN VE("type")
           ELSE IF c.v[1].t = "n" THEN (IF IsTrue(c.v[1].x) THEN Eval(e.x, st) ELSE Eval(e.y, st))
           ELSE VS(NQ)
    [] e.k = "a" ->
        LET vs == EvalSeq(e.es, st, <<>>)
            er == FirstErr(vs)
        IN IF er # "" THEN VE(er)
           ELSE IF \E i \in 2..Len(vs) : vs[i].d # vs[1].d \/ vs[i].b # vs[1].b THEN VE("dcarr")
           ELSE VB(<<Len(vs)>> \o vs[1].d, Flat([i \in 1..Len(vs) |-> vs[i].v]), vs[1].b)
    [] e.k = "c" ->
        LET vs == EvalSeq(e.as, st, <<>>)
            er == FirstErr(vs)
        IN IF er # "" THEN VE(er)
           ELSE IF e.f \notin DOMAIN st.prog.funcs THEN VE("undecl")
           ELSE IF Len(vs) # Len(st.prog.funcs[e.f].params) THEN VE("arity")
           ELSE EvalCall(e.f, vs, st)
    [] OTHER -> VE("type")

Scalar(v) == v.d = <<>> /\ v.b = ""

-----------------------------------------------------------------------------
(* Dimensions of declarations: known naturals                                *)
Dims(es, st) ==
  LET vs == EvalSeq(es, st, <<>>)
      er == FirstErr(vs)
      bad(e) == [e |-> e, d |-> <<>>]
  IN IF er # "" THEN bad(er)
     ELSE IF \E i \in 1..Len(vs) : ~Scalar(vs[i]) THEN bad("type")
     ELSE IF \E i \in 1..Len(vs) : vs[i].v[1].t # "n" THEN bad("unkdim")
     ELSE IF \E i \in 1..Len(vs) : ~BSmall(vs[i].v[1].x) THEN bad("dim")
     ELSE [e |-> "", d |-> [i \in 1..Len(vs) |-> BInt(vs[i].v[1].x)]]

RECURSIVE BusType(_, _, _, _)
\* the structure of bus B(args): fields with dimensions, nested
BusType(st, name, args, fuel) ==
  LET B == st.prog.buses[name]
      sc == [n \in {B.params[i] : i \in 1..Len(B.params)} |->
              LET i == CHOOSE i \in 1..Len(B.params) : B.params[i] = n
              IN [k |-> "var", d |-> args[i].d, v |-> args[i].v]]
      s0 == [st EXCEPT !.scopes = <<sc>>]
      key == name \o ToString([i \in 1..Len(args) |-> <<args[i].d, [j \in 1..Len(args[i].v) |-> args[i].v[j].x]>>])
      fld(f) == [n |-> f.n, d |-> Dims(f.d, s0).d,
                 bt |-> IF f.bt = <<>> THEN Plain
                        ELSE BusType(st, f.bt[1].n, EvalSeq(f.bt[1].as, s0, <<>>), fuel - 1)]
  IN [n |-> name, key |-> key, fs |-> [i \in 1..Len(B.fields) |-> TLCEval(fld(B.fields[i]))]]

\* why there is no bus B(args): an unknown argument, a dimension that is no size; "" otherwise
RECURSIVE BusErr(_, _, _, _)
BusErr(st, name, args, fuel) ==
  LET B == st.prog.buses[name]
      sc == [n \in {B.params[i] : i \in 1..Len(B.params)} |->
              LET i == CHOOSE i \in 1..Len(B.params) : B.params[i] = n
              IN [k |-> "var", d |-> args[i].d, v |-> args[i].v]]
      s0 == [st EXCEPT !.scopes = <<sc>>]
      err(f) == LET dm == Dims(f.d, s0) IN
                IF dm.e # "" THEN dm.e
                ELSE IF f.bt = <<>> THEN ""
                ELSE LET as == EvalSeq(f.bt[1].as, s0, <<>>)
                     IN IF FirstErr(as) # "" THEN FirstErr(as) ELSE IF fuel = 0 THEN "dcdepth" ELSE BusErr(st, f.bt[1].n, as, fuel - 1)
      es == TLCEval([i \in 1..Len(B.fields) |-> err(B.fields[i])])
      is == {i \in 1..Len(es) : es[i] # ""}
  IN IF \E i \in 1..Len(args) : \E j \in 1..Len(args[i].v) : args[i].v[j].t # "n" THEN "unkdim"
     ELSE IF is = {} THEN "" ELSE es[CHOOSE i \in is : \A h \in is : i <= h]
SigEntry(s, st, path) ==
  LET dm == TLCEval(Dims(s.d, st))
      as == IF s.bt = <<>> THEN <<>> ELSE EvalSeq(s.bt[1].as, st, <<>>)
      er == IF dm.e # "" THEN dm.e ELSE IF s.bt = <<>> THEN "" ELSE IF FirstErr(as) # "" THEN FirstErr(as) ELSE BusErr(st, s.bt[1].n, as, 5)
  IN IF er # "" THEN [e |-> er, ent |-> [k |-> "none"]]
     ELSE [e |-> "", ent |-> [k |-> "sig", q |-> s.q, d |-> dm.d, base |-> path \o "." \o s.n,
                              bt |-> IF s.bt = <<>> THEN Plain ELSE TLCEval(BusType(st, s.bt[1].n, as, 5))]]

-----------------------------------------------------------------------------
(* Signal assignment                                                         *)
\* two condition stacks describe executions that can both happen, unless they
\* take opposite branches of the same conditional
Compatible(a, b) == \A i \in 1..Len(a), j \in 1..Len(b) : a[i][1] = b[j][1] => a[i][2] = b[j][2]

RECURSIVE AssignLeaves(_, _, _, _)
AssignLeaves(st, ls, vs, i) ==
  IF i > Len(ls) \/ st.err # "" THEN st
  ELSE IF st.mode = "C"
  THEN LET old == IF ls[i] \in DOMAIN st.sig THEN st.sig[ls[i]] ELSE {}
       IN IF \E c \in old : Compatible(c, st.cond) THEN Fail(st, "dup")
          ELSE AssignLeaves([st EXCEPT !.sig = (ls[i] :> (old \cup {st.cond})) @@ @], ls, vs, i + 1)
  ELSE IF ls[i] \in DOMAIN st.sig THEN Fail(st, "dup")
  ELSE IF vs[i].x = "unassigned" THEN Fail(st, "dcunas")
  ELSE AssignLeaves([st EXCEPT !.sig = (ls[i] :> vs[i].x) @@ @], ls, vs, i + 1)

\* what the inspection of constraints needs to know (prog.inspect): who mentions
\* which signals, those surely mentioned and those only with a coefficient that
\* is zero or cancels, and which hints could have been constraints
Record(st, k, m, x) == IF "inspect" \notin DOMAIN st.prog THEN st
                       ELSE [st EXCEPT !.notes = Append(@, [k |-> k, path |-> st.path, m |-> m, x |-> x])]
Mentioned(e, p) ==
  LET sure == UNION {m[1] : m \in DOMAIN PolyOf(e, p)}
      form == CASE e.t = "n" -> {} [] e.t = "l" -> DOMAIN e.c [] OTHER -> (DOMAIN e.a.c) \cup (DOMAIN e.b.c) \cup (DOMAIN e.c.c)
  IN [sure |-> sure, maybe |-> form \ sure]

RECURSIVE AddCons(_, _, _, _)
AddCons(st, ls, rs, i) ==      \* constraint ls[i] - rs[i] = 0 for every i
  IF i > Len(ls) \/ st.err # "" THEN st
  ELSE LET e == TLCEval(DBin("-", ls[i], rs[i], st.p))
       IN IF e.t = "x" THEN Fail(st, "nonquad")
          ELSE AddCons(Record([st EXCEPT !.cons = Append(@, PolyOf(e, st.p))], "cons", Mentioned(e, st.p), ""), ls, rs, i + 1)

RECURSIVE CheckEq(_, _, _, _)
CheckEq(st, ls, rs, i) ==
  IF i > Len(ls) \/ st.err # "" THEN st
  ELSE IF "nochecks" \in DOMAIN st.prog \/ ls[i].x = rs[i].x THEN CheckEq(st, ls, rs, i + 1) ELSE Fail(st, "assert")

Equate(st, l, r) ==
  IF st.mode = "R" THEN CheckEq(st, l.v, r.v, 1)
  ELSE IF st.unk THEN Fail(st, "unkcons")
  ELSE AddCons(st, l.v, r.v, 1)

\* do assignments under these condition stacks together happen on every path that
\* satisfies `here`?  (a condition stack is a sequence of <<conditional, branch>>)
Pairs(c) == {c[i] : i \in 1..Len(c)}
RECURSIVE Covers(_)
Covers(S) == \/ {} \in S
             \/ \E c \in {x[1] : x \in UNION S} :
                  \A b \in BOOLEAN : Covers({s \ {<<c, b>>} : s \in {t \in S : <<c, ~b>> \notin t}})
OnEveryPath(conds, here) == Covers({Pairs(c) \ Pairs(here) : c \in {x \in conds : Compatible(x, here)}})

Provide(st, path) ==            \* inputs of component `path` changed: run it when complete
  LET I == st.inst[path]
  IN IF ~I.done /\ \A x \in I.inleaves : x \in DOMAIN st.sig THEN RunInstance(st, path) ELSE st

AssignSignal(st, l, o, r) ==
  \* l: evaluated target [w, path (of component or ""), q]; r: value
  LET ls == Leaves(l.w.base, l.w.d, l.w.bt)
  IN IF l.w.e = "unk" THEN Fail(st, "dcunkasg")
     ELSE IF l.w.e # "" THEN Fail(st, l.w.e)
     ELSE IF l.w.bt.key # r.b THEN Fail(st, "bustype")
     ELSE IF l.w.d # r.d THEN Fail(st, "dims")
     ELSE IF l.path = "" /\ l.q = "in" THEN Fail(st, "inassign")
     ELSE IF l.path # "" /\ l.q # "in" THEN Fail(st, "outassign")
     ELSE LET s1 == TLCEval(AssignLeaves(st, ls, r.v, 1))
              s2 == IF o # "<==" \/ s1.mode = "R" \/ s1.err # "" THEN s1
                    ELSE IF s1.unk THEN Fail(s1, "unkcons")
                    ELSE AddCons(s1, [i \in 1..Len(ls) |-> Sym(ls[i])], r.v, 1)
          IN IF s2.err # "" \/ l.path = "" THEN s2 ELSE Provide(s2, l.path)

-----------------------------------------------------------------------------
(* Components                                                                *)
\* The interface of an instance: the inputs and outputs its body declares, found
\* by executing only what decides declarations (variables and control flow).
IfaceSigs(body, st, path) ==
  LET s1 == TLCEval(ExecSeq(body, [st EXCEPT !.probe = TRUE, !.path = path, !.face = EmptyF, !.unk = FALSE, !.cond = <<>>, !.ret = <<>>]))
  IN [e |-> "", ents |-> s1.face]

Params(T, args) == [n \in {T.params[i] : i \in 1..Len(T.params)} |->
                      LET i == CHOOSE i \in 1..Len(T.params) : T.params[i] = n
                      IN [k |-> "var", d |-> args[i].d, v |-> args[i].v]]

Instantiate(st, path, t, args) ==
  IF t \notin DOMAIN st.prog.templates THEN Fail(st, "undecl")
  ELSE LET T == st.prog.templates[t] IN
    IF Len(args) # Len(T.params) THEN Fail(st, "arity")
    ELSE IF \E i \in 1..Len(args) : \E j \in 1..Len(args[i].v) : args[i].v[j].t # "n" THEN Fail(st, "unktmpl")
    ELSE IF path \in DOMAIN st.inst THEN Fail(st, "reinst")
    ELSE LET s0 == [st EXCEPT !.scopes = <<Params(T, args)>>]
             f  == TLCEval(IfaceSigs(T.body, s0, path))
             ins == UNION { {Leaves(f.ents[n].base, f.ents[n].d, f.ents[n].bt)[i] :
                               i \in 1..Len(Leaves(f.ents[n].base, f.ents[n].d, f.ents[n].bt))} :
                            n \in {m \in DOMAIN f.ents : f.ents[m].q = "in"} }
         IN IF f.e # "" THEN Fail(st, f.e)
            ELSE [st EXCEPT !.inst = (path :> [t |-> t, args |-> args, ents |-> f.ents, inleaves |-> ins,
                                               up |-> st.path, done |-> FALSE]) @@ @,
                            !.kids = Append(@, path)]

\* what must hold of the components a template created when its body has ended
ChildrenComplete(st) == \A i \in 1..Len(st.kids) : st.inst[st.kids[i]].done
\* ... on some paths only: the language does not say
ChildrenAlways(st) == \A i \in 1..Len(st.kids) : \A x \in st.inst[st.kids[i]].inleaves :
                         st.mode = "R" \/ OnEveryPath(st.sig[x], st.cond)
EndBody(st) == IF st.err # "" THEN st
               ELSE IF ~ChildrenComplete(st) THEN Fail(st, IF st.mode = "C" THEN "incomplete" ELSE "dcpath")
               ELSE IF ~ChildrenAlways(st) THEN Fail(st, "dcunset")
               ELSE st

RunInstance(st, path) ==
  LET I == st.inst[path]
      T == st.prog.templates[I.t]
      s0 == [st EXCEPT !.scopes = <<Params(T, I.args)>>, !.path = path, !.unk = FALSE, !.cond = <<>>,
                       !.kids = <<>>, !.depth = @ + 1, !.ret = <<>>, !.inst[path].done = TRUE]
      s1 == TLCEval(ExecSeq(T.body, s0))
      s2 == EndBody(s1)
  IN IF st.depth > 30 THEN Fail(st, "dctdepth")
     ELSE [s2 EXCEPT !.scopes = st.scopes, !.path = st.path, !.unk = st.unk, !.cond = st.cond,
                     !.kids = st.kids, !.depth = st.depth, !.ret = st.ret]

-----------------------------------------------------------------------------
(* Statements                                                                *)
Truth(v) == IF v.v[1].t # "n" THEN "u" ELSE IF IsTrue(v.v[1].x) THEN "t" ELSE "f"
Blur(v) == [v EXCEPT !.v = [i \in 1..Len(v.v) |-> NQ]]

Block(b, st) ==
  LET s1 == TLCEval(ExecSeq(b, [st EXCEPT !.scopes = Append(@, EmptyF)]))
  IN [s1 EXCEPT !.scopes = SubSeq(@, 1, Len(st.scopes))]

ExecSeq(ss, st) ==
  IF ss = <<>> \/ st.err # "" \/ st.ret # <<>> THEN st
  ELSE ExecSeq(Tail(ss), TLCEval(Exec(ss[1], st)))

\* loop with a decided condition; fuel bounds non-terminating programs
Loop(c, b, st, fuel) ==
  IF st.err # "" \/ st.ret # <<>> THEN st
  ELSE IF fuel = 0 THEN Fail(st, "dcfuel")
  ELSE LET v == TLCEval(Eval(c, st))
       IN IF v.e # "" THEN Fail(st, v.e)
          ELSE IF ~Scalar(v) THEN Fail(st, "type")
          ELSE IF Truth(v) = "f" THEN st
          ELSE IF Truth(v) = "t" THEN Loop(c, b, TLCEval(Block(b, st)), fuel - 1)
          ELSE LET cid == st.ctr + 1
                   s1 == LoopUnk(c, b, [st EXCEPT !.unk = TRUE, !.ctr = cid, !.cond = Append(@, <<cid, TRUE>>)], 8)
               IN [s1 EXCEPT !.unk = st.unk, !.cond = st.cond]

\* unknown number of iterations: the body is repeated until the variables
\* cannot lose any more knowledge (at least twice: a signal assigned in the
\* body may be assigned again by the next iteration)
LoopUnk(c, b, st, fuel) ==
  LET s1 == TLCEval(Block(b, st))
  IN IF s1.err # "" THEN s1
     ELSE IF s1.ret # <<>> THEN s1
     ELSE IF fuel = 0 THEN Fail(s1, "dcfuelu")
     ELSE IF fuel < 8 /\ s1.scopes = st.scopes THEN s1
     ELSE LoopUnk(c, b, s1, fuel - 1)

AssignVar(st, n, ent, as, r) ==
  LET off == Offset(ent.d, as, 0)
      rd  == SubSeq(ent.d, Len(as) + 1, Len(ent.d))
      val == IF st.unk THEN Blur(r).v ELSE r.v
  IN IF r.b # "" THEN Fail(st, "type")
     ELSE IF off = -3 THEN Fail(st, AccErr(as))
     ELSE IF off = -1 THEN Fail(st, "oob")
     ELSE IF off = -2 THEN Rebind(st, n, [ent EXCEPT !.v = [i \in 1..Len(ent.v) |-> NQ]])
     ELSE IF rd # r.d THEN Fail(st, IF Len(rd) # Len(r.d) THEN "type" ELSE "dcarrdims")
     ELSE Rebind(st, n, [ent EXCEPT !.v = [i \in 1..Len(ent.v) |->
                           IF i > off /\ i <= off + Len(val) THEN val[i - off] ELSE ent.v[i]]])

\* signals of each instance in declaration order (elaboration only)
Declare(st, n, ent) == IF st.mode = "R" THEN st
  ELSE [st EXCEPT !.decl = Append(@, [path |-> st.path, n |-> n, q |-> ent.q, base |-> ent.base, d |-> ent.d, bt |-> ent.bt,
                                 ls |-> TLCEval(Leaves(ent.base, ent.d, ent.bt))])]

LogLine(as, st) ==
  LET RECURSIVE go(_)
      go(i) == IF i > Len(as) THEN ""
               ELSE (IF as[i].k = "str" THEN as[i].s ELSE Eval(as[i], st).v[1].x)
                    \o (IF i < Len(as) THEN " " ELSE "") \o go(i + 1)
  IN go(1)

\* a hint every (some) element of which could be a constraint
Hint(s, r, st) ==
  IF s.o # "<--" \/ st.mode = "R" \/ st.err # "" \/ "id" \notin DOMAIN s THEN st
  ELSE LET q == {i \in 1..Len(r.v) : r.v[i].t # "x"}
       IN IF q = {} THEN st ELSE Record(st, IF Cardinality(q) = Len(r.v) THEN "all" ELSE "some", [sure |-> {}, maybe |-> {}], s.id)
\* (whether `_ <--` marks is left open)
RECURSIVE Marks(_, _, _, _)
Marks(vs, i, st, firm) == IF i > Len(vs) \/ st.err # "" THEN st
  ELSE IF vs[i].t = "x" THEN IF firm THEN Fail(st, "nonquad") ELSE Marks(vs, i + 1, st, firm)
  ELSE LET m == Mentioned(vs[i], st.p)
       IN Marks(vs, i + 1, Record(st, "mark", IF firm THEN m ELSE [sure |-> {}, maybe |-> m.sure \cup m.maybe], ""), firm)

Exec(s, st) == IF st.probe THEN ProbeExec(s, st) ELSE RealExec(s, st)
\* what cannot be executed in a probe is skipped
ProbeExec(s, st) ==
  CASE s.k \in {"var", "for", "wh", "if", "bl"} \/ (s.k = "as" /\ Lookup(st, s.l.n).k = "var") ->
         LET s1 == TLCEval(RealExec(s, st)) IN IF s1.err # "" THEN st ELSE s1
    [] s.k = "sig" ->
         IF st.unk THEN st
         ELSE LET r == TLCEval(SigEntry(s, st, st.path))
                  s1 == Bind(st, s.n, r.ent)
              IN IF r.e # "" THEN st
                 ELSE IF s.q \in {"in", "out"} THEN [s1 EXCEPT !.face = (s.n :> r.ent) @@ @] ELSE s1
    [] OTHER -> st
RealExec(s, st) ==
  CASE s.k = "var" ->
        LET dm == TLCEval(Dims(s.d, st))
        IN IF dm.e # "" THEN Fail(st, dm.e)
           ELSE LET z == [k |-> "var", d |-> dm.d, v |-> [i \in 1..Prod(dm.d) |-> N(Zero)]]
                    s1 == Bind(st, s.n, z)
                IN IF s.i = <<>> THEN s1
                   ELSE LET r == TLCEval(Eval(s.i[1], s1))
                        IN IF r.e # "" THEN Fail(st, r.e) ELSE AssignVar(s1, s.n, z, <<>>, r)
    [] s.k = "sig" ->
        IF st.unk THEN Fail(st, "unksig")
        ELSE LET r == TLCEval(SigEntry(s, st, st.path))
             IN IF r.e # "" THEN Fail(st, r.e) ELSE Declare(Bind(st, s.n, r.ent), s.n, r.ent)
    [] s.k = "comp" ->
        LET dm == TLCEval(Dims(s.d, st))
            s1 == Bind(st, s.n, [k |-> "comp", d |-> dm.d, base |-> st.path \o "." \o s.n])
        IN IF st.unk THEN Fail(st, "unksig")
           ELSE IF dm.e # "" THEN Fail(st, dm.e)
           ELSE IF s.i = <<>> THEN s1
           ELSE Exec([k |-> "as", o |-> "=", l |-> [n |-> s.n, a |-> <<>>], r |-> s.i[1]], s1)
    [] s.k = "as" ->
        LET ent == Lookup(st, s.l.n)
            as  == TLCEval(EvalAccs(s.l.a, st))
        IN IF HasErr(as) THEN Fail(st, AccErr(as))
           ELSE IF ent.k = "comp" /\ s.o = "=" THEN
             \* instantiation
             LET mk == IF s.r.k = "par" THEN s.r.e ELSE s.r      \* parallel: a hint only
                 vs == EvalSeq(mk.as, st, <<>>)
                 er == FirstErr(vs)
                 RECURSIVE sfx(_)
                 sfx(j) == IF j > Len(as) THEN "" ELSE "[" \o ToString(as[j].x) \o "]" \o sfx(j + 1)
             IN IF er # "" THEN Fail(st, er)
                ELSE IF Len(as) # Len(ent.d) \/ \E j \in 1..Len(as) : as[j].k = "f" THEN Fail(st, "type")
                ELSE IF AnyUnk(as) THEN Fail(st, "unktmpl")
                ELSE IF st.unk THEN Fail(st, "unkcons")
                ELSE IF \E j \in 1..Len(as) : as[j].x >= ent.d[j] THEN Fail(st, "oob")
                ELSE LET path == ent.base \o sfx(1)
                         s1 == TLCEval(Instantiate(st, path, mk.f, vs))
                     IN IF s1.err # "" THEN s1 ELSE Provide(s1, path)
           ELSE LET r == TLCEval(Eval(s.r, st))
                IN IF r.e # "" THEN Fail(st, r.e)
                   ELSE CASE ent.k = "var" -> IF s.o # "=" THEN Fail(st, "type") ELSE AssignVar(st, s.l.n, ent, as, r)
                     [] ent.k = "sig" ->
                          IF s.o = "=" THEN Fail(st, "type")
                          ELSE Hint(s, r, AssignSignal(st, [w |-> WalkSig(ent.base, ent.d, ent.bt, as), path |-> "", q |-> ent.q], s.o, r))
                     [] ent.k = "comp" ->
                          LET c == TLCEval(CompAccess(st, ent, as))
                          IN IF c.e # "" THEN Fail(st, c.e)
                             ELSE IF s.o = "=" THEN Fail(st, "type")
                             ELSE Hint(s, r, AssignSignal(st, [w |-> WalkSig(c.ent.base, c.ent.d, c.ent.bt, c.as),
                                                    path |-> c.path, q |-> c.ent.q], s.o, r))
                     [] OTHER -> Fail(st, "undecl")
    [] s.k = "und" ->          \* `_ <== e`: the signals of e are not meant to be constrained
        LET r == TLCEval(Eval(s.r, st))
        IN IF r.e # "" THEN Fail(st, r.e)
           ELSE IF st.mode = "R" THEN st
           ELSE Marks(r.v, 1, st, s.o = "<==")
    [] s.k = "ceq" ->
        LET l == TLCEval(Eval(s.l, st))
            r == TLCEval(Eval(s.r, st))
        IN IF l.e # "" THEN Fail(st, l.e) ELSE IF r.e # "" THEN Fail(st, r.e)
           ELSE IF l.b # r.b THEN Fail(st, "bustype")
           ELSE IF l.d # r.d THEN Fail(st, "dims")
           ELSE Equate(st, l, r)
    [] s.k = "if" ->
        LET v == TLCEval(Eval(s.c, st))
        IN IF v.e # "" THEN Fail(st, v.e)
           ELSE IF ~Scalar(v) THEN Fail(st, "type")
           ELSE IF Truth(v) = "t" THEN Block(s.t, st)
           ELSE IF Truth(v) = "f" THEN Block(s.e, st)
           ELSE LET cid == st.ctr + 1
                    s0 == [st EXCEPT !.unk = TRUE, !.ctr = cid]
                    s1 == TLCEval(Block(s.t, [s0 EXCEPT !.cond = Append(@, <<cid, TRUE>>)]))
                    s2 == TLCEval(Block(s.e, [s1 EXCEPT !.cond = Append(st.cond, <<cid, FALSE>>), !.ret = <<>>]))
                IN [s2 EXCEPT !.unk = st.unk, !.cond = st.cond,
                              !.ret = IF s1.ret # <<>> THEN s1.ret ELSE s2.ret]
    [] s.k = "wh"  -> Loop(s.c, s.b, st, 70)
    [] s.k = "for" ->
        LET s1 == TLCEval(Exec(s.i, [st EXCEPT !.scopes = Append(@, EmptyF)]))
            s2 == TLCEval(Loop(s.c, <<[k |-> "bl", b |-> s.b], s.s>>, s1, 70))
        IN [s2 EXCEPT !.scopes = SubSeq(@, 1, Len(st.scopes))]
    [] s.k = "bl"  -> Block(s.b, st)
    [] s.k = "ret" ->
        LET r == TLCEval(Eval(s.e, st))
        IN IF r.e # "" THEN Fail(st, r.e)
           ELSE [st EXCEPT !.ret = <<IF st.unk THEN Blur(r) ELSE r>>]
    [] s.k = "ast" ->
        LET r == TLCEval(Eval(s.e, st))
        IN IF r.e # "" THEN Fail(st, r.e)
           ELSE IF ~Scalar(r) THEN Fail(st, "type")
           ELSE IF Truth(r) # "f" THEN st
           ELSE IF st.mode = "C" /\ st.unk THEN Fail(st, "dcassert")   \* a false assert on a path that may not be taken
           ELSE Fail(st, "assert")
    [] s.k = "log" ->
        \* the arguments are evaluated in the elaboration too: they may read nothing that is not there yet
        LET vs == TLCEval([i \in 1..Len(s.as) |-> IF s.as[i].k = "str" THEN [e |-> "", d |-> <<>>] ELSE Eval(s.as[i], st)])
        IN IF st.depth > 20 THEN st
           ELSE IF FirstErr(vs) # "" THEN Fail(st, FirstErr(vs))
           ELSE IF \E i \in 1..Len(vs) : vs[i].d # <<>> THEN Fail(st, "type")
           ELSE IF st.mode = "C" THEN st
           ELSE [st EXCEPT !.logs = Append(@, LogLine(s.as, st))]
    [] OTHER -> Fail(st, "type")

-----------------------------------------------------------------------------
(* The machine: main is instantiated, its inputs are provided by the         *)
(* environment, then its top-level statements execute one per step.          *)
Blank(prog, mode, p) ==
  [prog |-> prog, mode |-> mode, p |-> p, scopes |-> <<EmptyF>>, path |-> "main", unk |-> FALSE, cond |-> <<>>,
   ctr |-> 0, sig |-> EmptyF, inst |-> EmptyF, kids |-> <<>>, cons |-> <<>>, err |-> "", ret |-> <<>>,
   logs |-> <<>>, depth |-> 0, decl |-> <<>>, notes |-> <<>>, probe |-> FALSE, face |-> EmptyF]

\* all statements of a body, however deep
RECURSIVE AllS(_)
AllS(ss) == IF ss = <<>> THEN <<>>
  ELSE LET s == ss[1]
           sub == CASE s.k = "if" -> AllS(s.t) \o AllS(s.e)
                    [] s.k \in {"wh", "bl"} -> AllS(s.b)
                    [] s.k = "for" -> <<s.i>> \o AllS(s.b) \o <<s.s>>
                    [] OTHER -> <<>>
       IN <<s>> \o sub \o AllS(Tail(ss))

Begin(prog, mode, p, inputs) ==
  LET s0 == Blank(prog, mode, p)
      vs == EvalSeq(prog.main.as, s0, <<>>)
      s1 == TLCEval(Instantiate(s0, "main", prog.main.t, vs))
  IN IF FirstErr(vs) # "" THEN Fail(s0, FirstErr(vs))
     ELSE IF s1.err # "" THEN s1
     ELSE IF \E i \in 1..Len(prog.main.public) :
               LET x == prog.main.public[i] q == AllS(prog.templates[prog.main.t].body)
               IN IF x \in DOMAIN s1.inst["main"].ents THEN s1.inst["main"].ents[x].q # "in"
                  \* an input declared where this instance does not come by may be listed
                  ELSE ~\E j \in 1..Len(q) : q[j].k = "sig" /\ q[j].n = x /\ q[j].q = "in"
          THEN Fail(s1, "public")
     ELSE [s1 EXCEPT !.scopes = <<Params(prog.templates[prog.main.t], vs)>>, !.kids = <<>>,
                     !.inst["main"].done = TRUE,
                     !.sig = IF mode = "R" THEN inputs ELSE [x \in s1.inst["main"].inleaves |-> {<<>>}]]

Body(prog) == prog.templates[prog.main.t].body
Finish(st) == EndBody(st)

\* the whole run as a function (used where intermediate states are of no interest)
Run(prog, mode, p, inputs) ==
  LET s0 == TLCEval(Begin(prog, mode, p, inputs))
  IN IF s0.err # "" THEN s0 ELSE Finish(TLCEval(ExecSeq(Body(prog), s0)))
=============================================================================
