------------------------------- MODULE Desugar -------------------------------
(* Anonymous components, tuples and `_` (docs: anonymous-components-and-     *)
(* tuples): a program that uses them means the program without them that     *)
(* this machine derives, one top-level statement of one definition per step. *)
(*                                                                           *)
(*  T(ps)(e1..ek)    a component declared at the beginning of the template,  *)
(*                   instantiated in place, whose i-th declared input (or    *)
(*                   the named one) receives ei with <==; it stands for its  *)
(*                   output, or for the tuple of its outputs                 *)
(*  in a loop        one component per iteration                             *)
(*  (l1,..,ln) op r  r denotes a tuple of n elements (nested tuples are      *)
(*                   flattened): li op ri one after another; `_` takes any   *)
(*  log((a,b))       prints ( a b )                                          *)
(*                                                                           *)
(* CASES names a JSON file: a sequence of [id, prog].  Sugar nodes of prog:  *)
(*  expressions an [t, ps, is, ns, os, site, reps], tu [es], par [e];        *)
(*  statements mt [l, o, r], anst [e], mdecl [kind, q, ns, o, i], sig with   *)
(*  init and io, und.  lid of a loop: a name used by nothing else.           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, def, todo, pc, out, decl, done, err
vars == <<c, def, todo, pc, out, decl, done, err>>
Prog == Cases[c].prog

Has(f, n) == n \in DOMAIN f
Range(s) == {s[i] : i \in 1..Len(s)}
Num(k) == [k |-> "n", v |-> k]
Var(n, a) == [k |-> "v", n |-> n, a |-> a]
At(i) == [k |-> "i", e |-> i]
Dot(n) == [k |-> "f", n |-> n]
Set(l, o, r) == [k |-> "as", l |-> l, o |-> o, r |-> r]
Tuple(es) == [k |-> "tu", es |-> es]

-----------------------------------------------------------------------------
(* Where the sugar may appear                                                *)
RECURSIVE Indexes(_)
Indexes(a) == IF a = <<>> THEN <<>> ELSE (IF a[1].k = "f" THEN <<>> ELSE <<a[1].e>>) \o Indexes(Tail(a))
Parts(e) == CASE e.k \in {"n", "str"} -> <<>>
              [] e.k = "v" -> Indexes(e.a)
              [] e.k = "b" -> <<e.l, e.r>>
              [] e.k \in {"u", "par"} -> <<e.e>>
              [] e.k = "t" -> <<e.c, e.x, e.y>>
              [] e.k = "c" -> e.as
              [] e.k \in {"a", "tu"} -> e.es
              [] e.k = "an" -> e.ps \o e.is
RECURSIVE Contains(_, _)
Contains(e, k) == e.k \in k \/ \E i \in 1..Len(Parts(e)) : Contains(Parts(e)[i], k)
Sugar == {"an", "tu"}
AnySugar(es) == \E i \in 1..Len(es) : Contains(es[i], Sugar)

-----------------------------------------------------------------------------
(* The interface of a template, in the order of its declarations             *)
RECURSIVE Ports(_, _)
Ports(ss, q) ==
  IF ss = <<>> THEN <<>>
  ELSE LET s == ss[1]
           own == CASE s.k = "sig" -> IF s.q = q THEN <<s.n>> ELSE <<>>
                    [] s.k = "mdecl" -> IF s.kind = "signal" /\ s.q = q THEN [i \in 1..Len(s.ns) |-> s.ns[i].n] ELSE <<>>
                    [] s.k = "if" -> Ports(s.t, q) \o Ports(s.e, q)
                    [] s.k \in {"bl", "wh", "for"} -> Ports(s.b, q)
                    [] OTHER -> <<>>
       IN own \o Ports(Tail(ss), q)

-----------------------------------------------------------------------------
(* Expressions: [d: components to declare, s: what happens before, e: the    *)
(* value, er]                                                                *)
E(d, s, e, er) == [d |-> d, s |-> s, e |-> e, er |-> er]
Bad(er) == E(<<>>, <<>>, Num("0"), er)
RECURSIVE Expand(_, _, _), ExpandAll(_, _, _), Feed(_, _, _, _, _)
\* all of es, left to right; e is the sequence of values
ExpandAll(es, ctr, P) ==
  IF es = <<>> THEN E(<<>>, <<>>, <<>>, "")
  ELSE LET x == TLCEval(Expand(es[1], ctr, P))
           y == TLCEval(ExpandAll(Tail(es), ctr, P))
       IN E(x.d \o y.d, x.s \o y.s, <<x.e>> \o y.e, IF x.er # "" THEN x.er ELSE y.er)
\* the inputs named ns receive es
Feed(base, ns, es, ctr, P) ==
  IF ns = <<>> THEN E(<<>>, <<>>, Num("0"), "")
  ELSE LET x == TLCEval(Expand(es[1], ctr, P))
           y == TLCEval(Feed(base, Tail(ns), Tail(es), ctr, P))
       IN E(x.d \o y.d, x.s \o <<Set([n |-> base.n, a |-> Append(base.a, Dot(ns[1]))], "<==", x.e)>> \o y.s, Num("0"),
            IF x.er # "" THEN x.er ELSE IF x.e.k = "tu" THEN "tuple" ELSE y.er)
Component(e, par, ctr, P) ==
  IF AnySugar(e.ps) THEN Bad("parameter")
  ELSE IF ~Has(P.templates, e.t) THEN Bad("template")
  ELSE LET T == P.templates[e.t].body
           ins == Ports(T, "in")
           outs == Ports(T, "out")
           named == e.ns # <<>>
           order == IF named THEN e.ns ELSE ins
           base == [n |-> e.site, a |-> IF ctr = "" THEN <<>> ELSE <<At(Var(ctr, <<>>))>>]
           call == [k |-> "c", f |-> e.t, as |-> e.ps]
           new == Set(base, "=", IF par THEN [k |-> "par", e |-> call] ELSE call)
           d == [k |-> "comp", n |-> e.site, d |-> IF ctr = "" THEN <<>> ELSE <<Num(e.reps)>>, i |-> <<>>]
           val(o) == Var(e.site, Append(base.a, Dot(o)))
       IN IF Len(e.is) # Len(ins) THEN Bad("inputs")
          ELSE IF named /\ (Range(e.ns) # Range(ins) \/ Len(e.ns) # Len(ins)) THEN Bad("names")
          ELSE IF named /\ Range(e.os) # {"<=="} THEN Bad("operator")
          ELSE LET f == TLCEval(Feed(base, order, e.is, ctr, P))
               IN E(<<d>> \o f.d, <<new>> \o f.s,
                    IF Len(outs) = 1 THEN val(outs[1]) ELSE Tuple([i \in 1..Len(outs) |-> val(outs[i])]), f.er)
Expand(e, ctr, P) ==
  CASE e.k = "an" -> Component(e, FALSE, ctr, P)
    [] e.k = "par" /\ e.e.k = "an" -> Component(e.e, TRUE, ctr, P)
    [] e.k = "tu" -> LET x == TLCEval(ExpandAll(e.es, ctr, P)) IN E(x.d, x.s, Tuple(x.e), x.er)
    [] e.k = "a" -> LET x == TLCEval(ExpandAll(e.es, ctr, P))
                    IN IF x.er = "" /\ \E i \in 1..Len(x.e) : Contains(x.e[i], {"tu"}) THEN Bad("element")
                       ELSE E(x.d, x.s, [e EXCEPT !.es = x.e], x.er)
    [] OTHER -> IF AnySugar(Parts(e)) THEN Bad("operand") ELSE E(<<>>, <<>>, e, "")

RECURSIVE Flat(_)
Flat(es) == IF es = <<>> THEN <<>>
            ELSE (IF es[1].k = "tu" THEN Flat(es[1].es) ELSE <<es[1]>>) \o Flat(Tail(es))

-----------------------------------------------------------------------------
(* Statements: [d, v: loop counters, s, er]                                  *)
S(d, v, s, er) == [d |-> d, v |-> v, s |-> s, er |-> er]
No(er) == S(<<>>, <<>>, <<>>, er)
One(l, o, r) == IF l.n = "_" THEN [k |-> "und", o |-> o, r |-> r] ELSE Set(l, o, r)
Pairwise(ls, o, rs) == [i \in 1..Len(ls) |-> One([n |-> ls[i].n, a |-> ls[i].a], o, rs[i])]

\* l op r where l is a variable or signal (with accesses), or `_`
Single(l, o, r, ctr, P) ==
  IF AnySugar(Indexes(l.a)) THEN No("index")
  ELSE IF o = "<--" /\ Contains(r, {"an"}) THEN No("operator")
  ELSE LET x == TLCEval(Expand(r, ctr, P))
       IN IF x.er # "" THEN No(x.er)
          ELSE IF x.e.k = "tu" THEN No("tuple")
          ELSE S(x.d, <<>>, Append(x.s, One(l, o, x.e)), "")
\* l op r where l is any other expression
Multiple(l, o, r, ctr, P) ==
  IF Contains(l, {"an"}) THEN No("target")
  ELSE IF o = "<--" /\ Contains(r, {"an"}) THEN No("operator")
  ELSE LET x == TLCEval(Expand(r, ctr, P))
           ls == TLCEval(IF l.k = "tu" THEN Flat(l.es) ELSE <<>>)
           rs == TLCEval(IF x.e.k = "tu" THEN Flat(x.e.es) ELSE <<>>)
       IN IF x.er # "" THEN No(x.er)
          ELSE IF l.k # "tu" \/ x.e.k # "tu" THEN No("notuple")
          ELSE IF Len(ls) # Len(rs) THEN No("length")
          ELSE IF \E i \in 1..Len(ls) : ls[i].k # "v" THEN No("target")
          ELSE IF \E i \in 1..Len(ls) : AnySugar(Indexes(ls[i].a)) THEN No("index")
          ELSE S(x.d, <<>>, x.s \o Pairwise(ls, o, rs), "")
\* an anonymous component as a statement: it must have no outputs
Alone(e, ctr, P) ==
  LET x == TLCEval(Expand(e, ctr, P))
  IN IF x.er # "" THEN No(x.er)
     ELSE IF x.e.k # "tu" THEN No("unused")
     ELSE IF Flat(x.e.es) # <<>> THEN No("unused")
     ELSE S(x.d, <<>>, x.s, "")
Plain(n) == [n |-> n, a |-> <<>>]

RECURSIVE LogArgs(_)
LogArgs(as) == IF as = <<>> THEN <<>>
  ELSE (IF as[1].k = "tu" THEN <<[k |-> "str", s |-> "("]>> \o LogArgs(as[1].es) \o <<[k |-> "str", s |-> ")"]>>
        ELSE <<as[1]>>) \o LogArgs(Tail(as))
RECURSIVE LogOk(_)
LogOk(as) == \A i \in 1..Len(as) : IF as[i].k = "tu" THEN LogOk(as[i].es) ELSE ~Contains(as[i], Sugar)

RECURSIVE St(_, _, _), Sts(_, _, _)
Sts(ss, ctr, P) ==
  IF ss = <<>> THEN S(<<>>, <<>>, <<>>, "")
  ELSE LET x == TLCEval(St(ss[1], ctr, P))
           y == TLCEval(Sts(Tail(ss), ctr, P))
       IN S(x.d \o y.d, x.v \o y.v, x.s \o y.s, IF x.er # "" THEN x.er ELSE y.er)
\* a loop counts its iterations if components are created in its body
Looped(s, P) ==
  LET x == TLCEval(Sts(s.b, s.lid, P))
      count == Set(Plain(s.lid), "=", [k |-> "b", o |-> "+", l |-> Var(s.lid, <<>>), r |-> Num("1")])
  IN IF x.er # "" THEN No(x.er)
     ELSE IF x.d = <<>> THEN S(<<>>, <<>>, <<[s EXCEPT !.b = x.s]>>, "")
     ELSE S(x.d, <<[k |-> "var", n |-> s.lid, d |-> <<>>, i |-> <<Num("0")>>]>> \o x.v, <<[s EXCEPT !.b = Append(x.s, count)]>>, "")
St(s, ctr, P) ==
  CASE s.k = "as" -> Single(s.l, s.o, s.r, ctr, P)
    [] s.k = "und" -> Single(Plain("_"), s.o, s.r, ctr, P)
    [] s.k = "mt" -> Multiple(s.l, s.o, s.r, ctr, P)
    [] s.k = "anst" -> Alone(s.e, ctr, P)
    [] s.k = "sig" ->
         IF AnySugar(s.d) THEN No("dimension")
         ELSE IF "init" \notin DOMAIN s THEN S(<<>>, <<>>, <<s>>, "")
         ELSE LET x == TLCEval(Single(Plain(s.n), s.io, s.init, ctr, P))
                  ds == [k |-> "sig", q |-> s.q, n |-> s.n, d |-> s.d, bt |-> s.bt]
              IN S(x.d, x.v, <<ds>> \o x.s, x.er)
    [] s.k = "var" ->
         IF AnySugar(s.d) THEN No("dimension")
         ELSE IF s.i = <<>> THEN S(<<>>, <<>>, <<s>>, "")
         ELSE LET x == TLCEval(Single(Plain(s.n), "=", s.i[1], ctr, P))
              IN S(x.d, x.v, <<[s EXCEPT !.i = <<>>]>> \o x.s, x.er)
    [] s.k = "comp" -> IF AnySugar(s.d) \/ AnySugar(s.i) THEN No("dimension") ELSE S(<<>>, <<>>, <<s>>, "")
    [] s.k = "mdecl" ->
         LET ds == [i \in 1..Len(s.ns) |->
                      CASE s.kind = "signal" -> [k |-> "sig", q |-> s.q, n |-> s.ns[i].n, d |-> s.ns[i].d, bt |-> <<>>]
                        [] s.kind = "var" -> [k |-> "var", n |-> s.ns[i].n, d |-> s.ns[i].d, i |-> <<>>]
                        [] OTHER -> [k |-> "comp", n |-> s.ns[i].n, d |-> s.ns[i].d, i |-> <<>>]]
             x == TLCEval(IF s.i = <<>> THEN S(<<>>, <<>>, <<>>, "")
                          ELSE Multiple(Tuple([i \in 1..Len(s.ns) |-> Var(s.ns[i].n, <<>>)]), s.o, s.i[1], ctr, P))
         IN IF \E i \in 1..Len(s.ns) : AnySugar(s.ns[i].d) THEN No("dimension")
            ELSE S(x.d, x.v, ds \o x.s, x.er)
    [] s.k = "if" ->
         IF Contains(s.c, Sugar) THEN No("condition")
         ELSE LET a == TLCEval(Sts(s.t, ctr, P))
                  b == TLCEval(Sts(s.e, ctr, P))
              IN S(a.d \o b.d, a.v \o b.v, <<[s EXCEPT !.t = a.s, !.e = b.s]>>, IF a.er # "" THEN a.er ELSE b.er)
    [] s.k = "wh" -> IF Contains(s.c, Sugar) THEN No("condition") ELSE Looped(s, P)
    [] s.k = "for" -> IF Contains(s.c, Sugar) THEN No("condition") ELSE Looped(s, P)
    [] s.k = "bl" -> LET x == TLCEval(Sts(s.b, ctr, P)) IN S(x.d, x.v, <<[s EXCEPT !.b = x.s]>>, x.er)
    [] s.k = "ceq" -> IF Contains(s.l, Sugar) \/ Contains(s.r, Sugar) THEN No("constraint") ELSE S(<<>>, <<>>, <<s>>, "")
    [] s.k \in {"ret", "ast"} -> IF Contains(s.e, Sugar) THEN No("operand") ELSE S(<<>>, <<>>, <<s>>, "")
    [] s.k = "log" -> IF LogOk(s.as) THEN S(<<>>, <<>>, <<[s EXCEPT !.as = LogArgs(s.as)]>>, "") ELSE No("log")

-----------------------------------------------------------------------------
(* What is left has no sugar                                                 *)
RECURSIVE Core(_)
CoreE(e) == ~Contains(e, Sugar)
Core(ss) == \A i \in 1..Len(ss) : LET s == ss[i] IN
  CASE s.k \in {"mt", "anst", "mdecl"} -> FALSE
    [] s.k = "as" -> CoreE(s.r) /\ ~AnySugar(Indexes(s.l.a))
    [] s.k = "und" -> CoreE(s.r)
    [] s.k = "sig" -> "init" \notin DOMAIN s
    [] s.k = "if" -> CoreE(s.c) /\ Core(s.t) /\ Core(s.e)
    [] s.k \in {"wh", "for", "bl"} -> Core(s.b)
    [] s.k = "log" -> \A j \in 1..Len(s.as) : s.as[j].k = "str" \/ CoreE(s.as[j])
    [] OTHER -> TRUE

-----------------------------------------------------------------------------
Defs(P) == {<<"t", n>> : n \in DOMAIN P.templates} \cup {<<"f", n>> : n \in DOMAIN P.funcs}
Text(d) == IF d[1] = "t" THEN Prog.templates[d[2]].body ELSE Prog.funcs[d[2]].body
None == <<"", "">>
Say(e, f) == PrintT(<<"@CORE", ToJson([id |-> Cases[c].id, err |-> e,
                        t |-> [n \in {d[2] : d \in {x \in DOMAIN f : x[1] = "t"}} |-> f[<<"t", n>>]],
                        f |-> [n \in {d[2] : d \in {x \in DOMAIN f : x[1] = "f"}} |-> f[<<"f", n>>]]])>>)

Init == c \in 1..Len(Cases) /\ todo = Defs(Prog) /\ def = None /\ pc = 1 /\ out = <<>> /\ decl = <<>>
        /\ done = << >> /\ err = ""
Start == /\ err = "" /\ def = None /\ todo # {}
         /\ \E d \in todo : d = (CHOOSE x \in todo : TRUE) /\ def' = d /\ todo' = todo \ {d}
         /\ pc' = 1 /\ out' = <<>> /\ decl' = <<>> /\ UNCHANGED <<c, done, err>>
Step == /\ err = "" /\ def # None /\ pc <= Len(Text(def))
        /\ LET x == TLCEval(St(Text(def)[pc], "", Prog))
               fn == def[1] = "f" /\ (x.d # <<>>)
           IN /\ err' = IF x.er # "" THEN x.er ELSE IF fn THEN "function" ELSE ""
              /\ out' = out \o x.s /\ decl' = decl \o x.d \o x.v
        /\ pc' = pc + 1 /\ UNCHANGED <<c, def, todo, done>>
Close == /\ err = "" /\ def # None /\ pc > Len(Text(def))
         /\ done' = (def :> (decl \o out)) @@ done
         /\ def' = None /\ UNCHANGED <<c, todo, pc, out, decl, err>>
Finish == /\ (err # "" \/ (todo = {} /\ def = None)) /\ pc # 0
          /\ Say(IF err = "" /\ Prog.main.an THEN "main" ELSE err, IF err = "" THEN done ELSE << >>)
          /\ pc' = 0 /\ err' = "finished" /\ UNCHANGED <<c, def, todo, out, decl, done>>
Next == Start \/ Step \/ Close \/ (Finish /\ err # "finished")
Spec == Init /\ [][Next]_vars

NoSugarLeft == (err = "" => Core(out)) /\ \A d \in DOMAIN done : Core(done[d])
\* what is hoisted to the beginning of a template is declared once
HoistedOnce == \A i, j \in 1..Len(decl) : i # j => decl[i].n # decl[j].n
\* a definition without sugar is left as it is
=============================================================================
