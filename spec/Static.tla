------------------------------- MODULE Static -------------------------------
(* What makes a program ill-formed regardless of its execution: names and    *)
(* scopes, arities, kinds (variable, signal, bus, component, template) and   *)
(* numbers of dimensions, what functions and templates may contain.          *)
(*                                                                           *)
(*   names and structure are required of every definition of the program,    *)
(*   kinds and dimensions of every template and function reachable from main *)
(*   (a function for the dimensions of the arguments it is called with).     *)
(*                                                                           *)
(* MayUnknown is the flow-insensitive "some value used to build structure    *)
(* may depend on an input": the language requires such values to be known,   *)
(* leaves open how precisely a compiler must determine that they are.        *)
EXTENDS Lang

BindS(sc, n, ent) == [sc EXCEPT ![Len(sc)] = (n :> ent) @@ @]
FindS(sc, n) == LET i == FindScope(sc, n, Len(sc)) IN IF i = 0 THEN [k |-> "none"] ELSE sc[i][n]
Push(sc) == Append(sc, EmptyF)
PopS(sc) == SubSeq(sc, 1, Len(sc) - 1)
Has(f, n) == n \in DOMAIN f
ParamScope(ps, ranks) == [n \in {ps[i] : i \in 1..Len(ps)} |->
                            LET i == CHOOSE i \in 1..Len(ps) : ps[i] = n IN [k |-> "var", d |-> ranks[i]]]
NoDup(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
RECURSIVE UnionSeq(_)
UnionSeq(s) == IF s = <<>> THEN {} ELSE s[1] \cup UnionSeq(Tail(s))

-----------------------------------------------------------------------------
(* Names and structure.  cx: [fn: inside a function, loop: inside a loop]    *)
RECURSIVE WE(_, _, _, _), WS(_, _, _, _)
WEs(es, sc, cx, P) == UNION {WE(es[i], sc, cx, P) : i \in 1..Len(es)}
WA(as, sc, cx, P) == UNION {IF as[i].k = "f" THEN (IF cx.fn THEN {"fnfield"} ELSE {}) ELSE WE(as[i].e, sc, cx, P) : i \in 1..Len(as)}
WV(n, as, sc, cx, P) == (IF FindS(sc, n).k = "none" THEN {"undecl"} ELSE {}) \cup WA(as, sc, cx, P)
WE(e, sc, cx, P) ==
  CASE e.k = "n" -> {}
    [] e.k = "str" -> {}
    [] e.k = "v" -> WV(e.n, e.a, sc, cx, P)
    [] e.k = "b" -> WE(e.l, sc, cx, P) \cup WE(e.r, sc, cx, P)
    [] e.k = "u" -> WE(e.e, sc, cx, P)
    [] e.k = "par" -> WE(e.e, sc, cx, P)
    [] e.k = "t" -> WE(e.c, sc, cx, P) \cup WE(e.x, sc, cx, P) \cup WE(e.y, sc, cx, P)
    [] e.k = "a" -> WEs(e.es, sc, cx, P)
    [] e.k = "c" -> WEs(e.as, sc, cx, P) \cup
         (IF Has(P.funcs, e.f) THEN (IF Len(P.funcs[e.f].params) # Len(e.as) THEN {"arity"} ELSE {})
          ELSE IF Has(P.templates, e.f) THEN (IF Len(P.templates[e.f].params) # Len(e.as) THEN {"arity"} ELSE {})
                                             \cup (IF cx.fn THEN {"fncall"} ELSE {})
          ELSE {"undecl"})
    [] OTHER -> {"kind"}

Literal(e) == e.k = "n"
W1(s, sc, cx, P) ==      \* one statement: [e: errors, sc: scopes after it]
  LET R(e, sc2) == [e |-> e, sc |-> sc2]
      redecl(n) == IF n \in DOMAIN Last(sc) THEN {"redecl"} ELSE {}
      dims == WEs(s.d, sc, cx, P)
      init(sc2) == IF s.i = <<>> THEN {} ELSE WE(s.i[1], sc2, cx, P)
      maydim == IF \E i \in 1..Len(s.d) : ~Literal(s.d[i]) THEN {"maydim"} ELSE {}
      blk(b, c2) == WS(b, Push(sc), c2, P).e
  IN CASE s.k = "var" -> LET sc2 == BindS(sc, s.n, [k |-> "var", d |-> Len(s.d)])
                         IN R(dims \cup redecl(s.n) \cup maydim \cup init(sc2), sc2)
       [] s.k = "sig" -> R(dims \cup redecl(s.n) \cup (IF cx.fn THEN {"fnsig"} ELSE {}) \cup (IF cx.loop THEN {"loopsig"} ELSE {})
                             \cup (IF s.bt = <<>> THEN {}
                                   ELSE IF ~Has(P.buses, s.bt[1].n) THEN {"undecl"}
                                   ELSE WEs(s.bt[1].as, sc, cx, P)
                                        \cup (IF Len(s.bt[1].as) # Len(P.buses[s.bt[1].n].params) THEN {"arity"} ELSE {})),
                           BindS(sc, s.n, [k |-> "sig"]))
       [] s.k = "comp" -> LET sc2 == BindS(sc, s.n, [k |-> "comp"])
                          IN R(dims \cup redecl(s.n) \cup (IF cx.fn THEN {"fnsig"} ELSE {}) \cup (IF cx.loop THEN {"loopsig"} ELSE {})
                                 \cup init(sc2), sc2)
       [] s.k = "as" -> R(WE(s.r, sc, cx, P) \cup WV(s.l.n, s.l.a, sc, cx, P)
                            \cup (IF cx.fn /\ s.o # "=" THEN {"fnop"} ELSE {}), sc)
       [] s.k = "und" -> R(WE(s.r, sc, cx, P) \cup (IF cx.fn /\ s.o # "=" THEN {"fnop"} ELSE {}), sc)
       [] s.k = "ceq" -> R(WE(s.l, sc, cx, P) \cup WE(s.r, sc, cx, P) \cup (IF cx.fn THEN {"fnop"} ELSE {}), sc)
       [] s.k = "if" -> R(WE(s.c, sc, cx, P) \cup blk(s.t, cx) \cup blk(s.e, cx), sc)
       [] s.k = "wh" -> R(WE(s.c, sc, cx, P) \cup blk(s.b, [cx EXCEPT !.loop = TRUE]), sc)
       [] s.k = "for" -> LET r == WS(<<s.i>>, Push(sc), cx, P)
                         IN R(r.e \cup WE(s.c, r.sc, cx, P) \cup WS(s.b, Push(r.sc), [cx EXCEPT !.loop = TRUE], P).e
                                \cup WS(<<s.s>>, r.sc, cx, P).e, sc)
       [] s.k = "bl" -> R(blk(s.b, cx), sc)
       [] s.k = "ret" -> R(WE(s.e, sc, cx, P) \cup (IF cx.fn THEN {} ELSE {"tmplret"}), sc)
       [] s.k = "ast" -> R(WE(s.e, sc, cx, P), sc)
       [] s.k = "log" -> R(WEs(s.as, sc, cx, P), sc)
       [] OTHER -> R({"kind"}, sc)
WS(ss, sc, cx, P) ==
  IF ss = <<>> THEN [e |-> {}, sc |-> sc]
  ELSE LET r == TLCEval(W1(ss[1], sc, cx, P))
           q == TLCEval(WS(Tail(ss), r.sc, cx, P))
       IN [e |-> r.e \cup q.e, sc |-> q.sc]

RECURSIVE Returns(_)
Returns(ss) == \E i \in 1..Len(ss) : LET s == ss[i] IN
                 \/ s.k = "ret"
                 \/ s.k = "bl" /\ Returns(s.b)
                 \/ s.k = "if" /\ s.he /\ Returns(s.t) /\ Returns(s.e)

DefErrs(D, fn, P) ==
  (IF NoDup(D.params) THEN {} ELSE {"redecl"})
  \cup WS(D.body, << [n \in {D.params[i] : i \in 1..Len(D.params)} |-> [k |-> "var", d |-> 0]] >>, [fn |-> fn, loop |-> FALSE], P).e
  \cup (IF fn /\ ~Returns(D.body) THEN {"noret"} ELSE {})
MainNames(P) == WEs(P.main.as, <<EmptyF>>, [fn |-> FALSE, loop |-> FALSE], P)
   \cup (IF Has(P.templates, P.main.t) THEN (IF Len(P.templates[P.main.t].params) # Len(P.main.as) THEN {"arity"} ELSE {}) ELSE {"undecl"})
\* a bus: fields are distinct, their dimensions and types may use its parameters
BusErrs(B, P) ==
  LET ps == <<[n \in {B.params[i] : i \in 1..Len(B.params)} |-> [k |-> "var", d |-> 0]]>>
      cx == [fn |-> FALSE, loop |-> FALSE]
      F(f) == WEs(f.d, ps, cx, P)
              \cup (IF f.bt = <<>> THEN {}
                    ELSE IF ~Has(P.buses, f.bt[1].n) THEN {"undecl"}
                    ELSE WEs(f.bt[1].as, ps, cx, P)
                         \cup (IF Len(f.bt[1].as) # Len(P.buses[f.bt[1].n].params) THEN {"arity"} ELSE {}))
  IN (IF NoDup(B.params \o [i \in 1..Len(B.fields) |-> B.fields[i].n]) THEN {} ELSE {"redecl"})
     \cup UNION {F(B.fields[i]) : i \in 1..Len(B.fields)}
NameErrs(P) == TLCEval(UNION {BusErrs(P.buses[b], P) : b \in DOMAIN P.buses} \cup MainNames(P) \cup UNION {DefErrs(P.templates[t], FALSE, P) : t \in DOMAIN P.templates}
                         \cup UNION {DefErrs(P.funcs[f], TRUE, P) : f \in DOMAIN P.funcs})

-----------------------------------------------------------------------------
(* All statements of a body, in textual order                                *)
Positions(q, T(_)) == {i \in 1..Len(q) : T(q[i])}

\* does e read one of the names U?
RECURSIVE Mentions(_, _)
Mentions(e, U) ==
  CASE e.k \in {"n", "str"} -> FALSE
    [] e.k = "v" -> e.n \in U \/ \E i \in 1..Len(e.a) : e.a[i].k # "f" /\ Mentions(e.a[i].e, U)
    [] e.k = "b" -> Mentions(e.l, U) \/ Mentions(e.r, U)
    [] e.k \in {"u", "par"} -> Mentions(e.e, U)
    [] e.k = "t" -> Mentions(e.c, U) \/ Mentions(e.x, U) \/ Mentions(e.y, U)
    [] e.k = "a" -> \E i \in 1..Len(e.es) : Mentions(e.es[i], U)
    [] e.k = "c" -> \E i \in 1..Len(e.as) : Mentions(e.as[i], U)
    [] OTHER -> FALSE
\* a scalar variable read by its own initializer has no defined value
SelfInit(D) == LET q == TLCEval(AllS(D.body)) IN
  \E i \in 1..Len(q) : q[i].k = "var" /\ q[i].d = <<>> /\ q[i].i # <<>> /\ Mentions(q[i].i[1], {q[i].n})
\* signals, buses and components have one name space per template: what a name
\* means when it is declared twice in one template, once as such, is left open
Shadows(D) ==
  LET q == TLCEval(AllS(D.body))
      ds == Positions(q, LAMBDA s : s.k \in {"var", "sig", "comp"})
  IN \E i, j \in ds : i # j /\ q[i].n = q[j].n /\ (q[i].k # "var" \/ q[j].k # "var")
ShadowsP(D) == Shadows(D) \/ LET q == TLCEval(AllS(D.body)) IN
   \E i \in 1..Len(q) : q[i].k \in {"sig", "comp"} /\ \E j \in 1..Len(D.params) : D.params[j] = q[i].n

\* interface of a template as the declarations of its text
IOf(T) == LET q == TLCEval(AllS(T.body))
              ps == Positions(q, LAMBDA s : s.k = "sig" /\ s.q \in {"in", "out"})
          IN [n \in {q[i].n : i \in ps} |->
                LET s == q[CHOOSE i \in ps : q[i].n = n]
                IN [k |-> "sig", d |-> Len(s.d), bt |-> IF s.bt = <<>> THEN "" ELSE s.bt[1].n]]
\* the template a component is an instance of: every assignment must agree
RECURSIVE TmplOf(_, _)
TmplOf(e, P) == CASE e.k = "c" -> IF Has(P.templates, e.f) THEN e.f ELSE ""
                  [] e.k = "par" -> TmplOf(e.e, P)
                  [] e.k = "t" -> IF TmplOf(e.x, P) # "" THEN TmplOf(e.x, P) ELSE TmplOf(e.y, P)
                  [] OTHER -> ""
Inferred(D, n, P) ==
  LET q == TLCEval(AllS(D.body))
      src(s) == IF s.k = "comp" /\ s.n = n /\ s.i # <<>> THEN TmplOf(s.i[1], P)
                ELSE IF s.k = "as" /\ s.l.n = n THEN TmplOf(s.r, P) ELSE ""
      is == {i \in 1..Len(q) : src(q[i]) # ""}
  IN IF is = {} THEN "" ELSE src(q[CHOOSE i \in is : \A j \in is : j <= i])

-----------------------------------------------------------------------------
(* The number of dimensions a function returns                               *)
RECURSIVE RankE(_, _, _, _), RankS(_, _, _, _), RankF(_, _, _, _)
None == -1
RankE(e, sc, seen, P) ==
  CASE e.k = "n" -> 0
    [] e.k = "v" -> LET t == FindS(sc, e.n) IN IF t.k = "none" \/ Len(e.a) > t.d THEN None ELSE t.d - Len(e.a)
    [] e.k = "b" -> LET l == RankE(e.l, sc, seen, P) IN IF l # None THEN l ELSE RankE(e.r, sc, seen, P)
    [] e.k = "u" -> RankE(e.e, sc, seen, P)
    [] e.k = "t" -> LET l == RankE(e.x, sc, seen, P) IN IF l # None THEN l ELSE RankE(e.y, sc, seen, P)
    [] e.k = "a" -> IF e.es = <<>> THEN None ELSE LET l == RankE(e.es[1], sc, seen, P) IN IF l = None THEN None ELSE l + 1
    [] e.k = "c" -> IF e.f \in seen THEN None
                    ELSE LET rs == [i \in 1..Len(e.as) |-> RankE(e.as[i], sc, seen, P)]
                         IN IF \E i \in 1..Len(rs) : rs[i] = None THEN None ELSE RankF(e.f, rs, seen, P)
    [] OTHER -> None
\* [r: dimensions of the first return found or None, sc]
RankS(ss, sc, seen, P) ==
  IF ss = <<>> THEN [r |-> None, sc |-> sc]
  ELSE LET s == ss[1]
           in(b) == RankS(b, Push(sc), seen, P).r
           sc2 == IF s.k = "var" THEN BindS(sc, s.n, [k |-> "var", d |-> Len(s.d)]) ELSE sc
           here == CASE s.k = "ret" -> RankE(s.e, sc, seen, P)
                     [] s.k = "if" -> LET a == in(s.t) IN IF a # None THEN a ELSE in(s.e)
                     [] s.k \in {"bl", "wh"} -> in(s.b)
                     [] s.k = "for" -> LET q == RankS(<<s.i>>, Push(sc), seen, P) IN RankS(s.b, Push(q.sc), seen, P).r
                     [] OTHER -> None
       IN IF here # None THEN [r |-> here, sc |-> sc2] ELSE RankS(Tail(ss), sc2, seen, P)
RankF(f, rs, seen, P) == TLCEval(RankS(P.funcs[f].body, <<ParamScope(P.funcs[f].params, rs)>>, seen \cup {f}, P).r)

-----------------------------------------------------------------------------
(* Kinds and dimensions.  An expression has [e: errors, k: "a" arithmetic,   *)
(* "b" bus, "t" component, d: dimensions, n: bus or template, c: calls made] *)
TA(d)    == [e |-> {}, k |-> "a", d |-> d, n |-> "", c |-> {}]
TErr(x)  == [e |-> {x}, k |-> "a", d |-> 0, n |-> "", c |-> {}]
IsScalar(t) == t.k = "a" /\ t.d = 0
RECURSIVE TE(_, _, _, _), TAccess(_, _, _, _), TS(_, _, _, _, _)
\* follow accesses from a wire of d dimensions of bus type bt
TAccess(d, bt, as, P) ==
  IF as = <<>> THEN [e |-> {}, k |-> IF bt = "" THEN "a" ELSE "b", d |-> d, n |-> bt, c |-> {}]
  ELSE IF as[1].k # "f" THEN (IF d = 0 THEN TErr("dims") ELSE TAccess(d - 1, bt, Tail(as), P))
  ELSE IF d > 0 \/ bt = "" THEN TErr("field")
  ELSE LET fs == P.buses[bt].fields
           is == {i \in 1..Len(fs) : fs[i].n = as[1].n}
       IN IF is = {} THEN TErr("field")
          ELSE LET f == fs[CHOOSE i \in is : TRUE]
               IN TAccess(Len(f.d), IF f.bt = <<>> THEN "" ELSE f.bt[1].n, Tail(as), P)
TV(n, as, sc, P) ==
  LET t == FindS(sc, n)
      ix == TLCEval([i \in 1..Len(as) |-> IF as[i].k = "f" THEN TA(0) ELSE TE(as[i].e, sc, {}, P)])
      bad == UNION {ix[i].e \cup (IF IsScalar(ix[i]) THEN {} ELSE {"index"}) : i \in 1..Len(as)}
      cs == UNION {ix[i].c : i \in 1..Len(as)}
      fp == {i \in 1..Len(as) : as[i].k = "f"}
      r == CASE t.k = "var" -> IF fp # {} THEN TErr("field") ELSE IF Len(as) > t.d THEN TErr("dims") ELSE TA(t.d - Len(as))
             [] t.k = "sig" -> TAccess(t.d, t.bt, as, P)
             [] t.k = "comp" ->
                  IF fp = {} THEN (IF Len(as) # t.d THEN TErr("dims") ELSE [e |-> {}, k |-> "t", d |-> 0, n |-> t.t, c |-> {}])
                  ELSE LET j == CHOOSE i \in fp : \A h \in fp : i <= h
                           priv == t.t # "" /\ as[j].n \notin DOMAIN IOf(P.templates[t.t])
                       IN IF j - 1 # t.d THEN [TErr("dims") EXCEPT !.e = @ \cup (IF priv THEN {"private"} ELSE {})]
                          ELSE IF t.t = "" THEN TErr("uninit")
                          ELSE LET I == IOf(P.templates[t.t])
                               IN IF as[j].n \notin DOMAIN I THEN TErr("private")
                                  ELSE TAccess(I[as[j].n].d, I[as[j].n].bt, SubSeq(as, j + 1, Len(as)), P)
             [] OTHER -> TErr("undecl")
  IN [r EXCEPT !.e = @ \cup bad, !.c = @ \cup cs]

TE(e, sc, x, P) ==
  CASE e.k = "n" -> TA(0)
    [] e.k = "str" -> TA(0)
    [] e.k = "v" -> LET r == TV(e.n, e.a, sc, P) IN IF r.k = "t" /\ r.n = "" THEN [r EXCEPT !.e = @ \cup {"uninit"}] ELSE r
    [] e.k = "b" -> LET l == TLCEval(TE(e.l, sc, x, P))  r == TLCEval(TE(e.r, sc, x, P))
                    IN [TA(0) EXCEPT !.e = l.e \cup r.e \cup (IF IsScalar(l) /\ IsScalar(r) THEN {} ELSE {"operand"}), !.c = l.c \cup r.c]
    [] e.k = "u" -> LET r == TLCEval(TE(e.e, sc, x, P)) IN [TA(0) EXCEPT !.e = r.e \cup (IF IsScalar(r) THEN {} ELSE {"operand"}), !.c = r.c]
    [] e.k = "par" -> LET r == TLCEval(TE(e.e, sc, x, P)) IN IF r.k = "t" THEN r ELSE [r EXCEPT !.e = @ \cup {"operand"}]
    [] e.k = "t" -> LET c == TLCEval(TE(e.c, sc, x, P))  l == TLCEval(TE(e.x, sc, x, P))  r == TLCEval(TE(e.y, sc, x, P))
                    IN [l EXCEPT !.e = @ \cup c.e \cup r.e \cup (IF IsScalar(c) THEN {} ELSE {"operand"})
                                         \cup (IF l.k = r.k /\ l.n = r.n /\ l.d = r.d THEN {} ELSE {"branches"}),
                                 !.c = @ \cup c.c \cup r.c]
    [] e.k = "a" -> LET vs == TLCEval([i \in 1..Len(e.es) |-> TE(e.es[i], sc, x, P)])
                        es == UNION {vs[i].e : i \in 1..Len(vs)}
                        cs == UNION {vs[i].c : i \in 1..Len(vs)}
                    IN IF vs = <<>> THEN TErr("empty")
                       ELSE [e |-> es \cup (IF \E i \in 1..Len(vs) : vs[i].k = "t" \/ vs[i].k # vs[1].k \/ vs[i].n # vs[1].n \/ vs[i].d # vs[1].d
                                            THEN {"mixed"} ELSE {}),
                             k |-> vs[1].k, d |-> vs[1].d + 1, n |-> vs[1].n, c |-> cs]
    [] e.k = "c" -> LET vs == TLCEval([i \in 1..Len(e.as) |-> TE(e.as[i], sc, x, P)])
                        es == UNION {vs[i].e \cup (IF vs[i].k = "a" THEN {} ELSE {"argument"}) : i \in 1..Len(vs)}
                        rs == [i \in 1..Len(vs) |-> vs[i].d]
                        cs == UNION {vs[i].c : i \in 1..Len(vs)} \cup {<<e.f, rs>>}
                    IN IF Has(P.templates, e.f) THEN [e |-> es, k |-> "t", d |-> 0, n |-> e.f, c |-> cs]
                       ELSE LET r == RankF(e.f, rs, {}, P)
                            IN [e |-> es \cup (IF r = None THEN {"untyped"} ELSE {}), k |-> "a", d |-> IF r = None THEN 0 ELSE r, n |-> "", c |-> cs]

\* statements: [e, c, sc]; D: the definition, ret: dimensions a return must have
TS(ss, sc, D, ret, P) ==
  IF ss = <<>> THEN [e |-> {}, c |-> {}, sc |-> sc]
  ELSE LET s == ss[1]
           R(e, c, sc2) == [e |-> e, c |-> c, sc |-> sc2]
           ds == TLCEval([i \in 1..Len(s.d) |-> TE(s.d[i], sc, {}, P)])
           de == UNION {ds[i].e \cup (IF IsScalar(ds[i]) THEN {} ELSE {"index"}) : i \in 1..Len(ds)}
           dc == UNION {ds[i].c : i \in 1..Len(ds)}
           sub(b, sc2) == TS(b, Push(sc2), D, ret, P)
           assign(n, as, o, r, sc2) ==
             LET t == TLCEval(TV(n, as, sc2, P))
                 v == TLCEval(TE(r, sc2, {}, P))
                 kind == FindS(sc2, n).k
                 wire == kind = "sig" \/ (kind = "comp" /\ t.k # "t")
                 bad == IF t.e # {} \/ v.e # {} THEN {}
                        ELSE IF wire
                        THEN IF o = "=" THEN {"operator"} ELSE IF v.k # t.k \/ v.n # t.n THEN {"bustype"} ELSE IF v.d # t.d THEN {"dims"} ELSE {}
                        ELSE IF o # "=" THEN {"operator"}
                        ELSE IF t.k = "t" THEN (IF v.k # "t" THEN {"template"} ELSE IF v.n # t.n THEN {"template"} ELSE {})
                        ELSE IF v.k # "a" THEN {"value"} ELSE IF v.d # t.d THEN {"dims"} ELSE {}
             IN [e |-> t.e \cup v.e \cup bad, c |-> t.c \cup v.c]
           scal(x) == LET r == TLCEval(TE(x, sc, {}, P)) IN [e |-> r.e \cup (IF IsScalar(r) THEN {} ELSE {"operand"}), c |-> r.c]
           r == CASE s.k = "var" -> LET sc2 == BindS(sc, s.n, [k |-> "var", d |-> Len(s.d)])
                                        a == IF s.i = <<>> THEN [e |-> {}, c |-> {}] ELSE assign(s.n, <<>>, "=", s.i[1], sc2)
                                    IN R(de \cup a.e, dc \cup a.c, sc2)
                  [] s.k = "sig" -> LET b == IF s.bt = <<>> THEN <<>> ELSE TLCEval([i \in 1..Len(s.bt[1].as) |-> TE(s.bt[1].as[i], sc, {}, P)])
                                    IN R(de \cup UNION {b[i].e \cup (IF b[i].k = "a" THEN {} ELSE {"argument"}) : i \in 1..Len(b)},
                                         dc \cup UNION {b[i].c : i \in 1..Len(b)}
                                            \cup (IF s.bt = <<>> THEN {} ELSE {<<s.bt[1].n, [i \in 1..Len(b) |-> b[i].d]>>}),
                                         BindS(sc, s.n, [k |-> "sig", d |-> Len(s.d), bt |-> IF s.bt = <<>> THEN "" ELSE s.bt[1].n]))
                  [] s.k = "comp" -> LET sc2 == BindS(sc, s.n, [k |-> "comp", d |-> Len(s.d), t |-> Inferred(D, s.n, P)])
                                         a == IF s.i = <<>> THEN [e |-> {}, c |-> {}] ELSE assign(s.n, <<>>, "=", s.i[1], sc2)
                                     IN R(de \cup a.e, dc \cup a.c, sc2)
                  [] s.k = "as" -> LET a == assign(s.l.n, s.l.a, s.o, s.r, sc) IN R(a.e, a.c, sc)
                  [] s.k = "und" -> LET v == TLCEval(TE(s.r, sc, {}, P)) IN R(v.e \cup (IF v.k = "t" THEN {"value"} ELSE {}), v.c, sc)
                  [] s.k = "ceq" -> LET l == TLCEval(TE(s.l, sc, {}, P))  q == TLCEval(TE(s.r, sc, {}, P))
                                        bad == IF l.k = "t" \/ q.k = "t" THEN {"value"} ELSE IF l.k # q.k \/ l.n # q.n THEN {"bustype"}
                                               ELSE IF l.d # q.d THEN {"dims"} ELSE {}
                                    IN R(l.e \cup q.e \cup bad, l.c \cup q.c, sc)
                  [] s.k = "if" -> LET c == scal(s.c)  a == TLCEval(sub(s.t, sc))  b == TLCEval(sub(s.e, sc))
                                   IN R(c.e \cup a.e \cup b.e, c.c \cup a.c \cup b.c, sc)
                  [] s.k = "wh" -> LET c == scal(s.c)  a == TLCEval(sub(s.b, sc)) IN R(c.e \cup a.e, c.c \cup a.c, sc)
                  [] s.k = "for" -> LET i == TLCEval(TS(<<s.i>>, Push(sc), D, ret, P))
                                        c == TLCEval(TE(s.c, i.sc, {}, P))
                                        b == TLCEval(sub(s.b, i.sc))
                                        n == TLCEval(TS(<<s.s>>, i.sc, D, ret, P))
                                    IN R(i.e \cup c.e \cup (IF IsScalar(c) THEN {} ELSE {"operand"}) \cup b.e \cup n.e, i.c \cup c.c \cup b.c \cup n.c, sc)
                  [] s.k = "bl" -> LET a == TLCEval(sub(s.b, sc)) IN R(a.e, a.c, sc)
                  [] s.k = "ret" -> LET v == TLCEval(TE(s.e, sc, {}, P)) IN R(v.e \cup (IF v.k # "a" \/ v.d # ret THEN {"return"} ELSE {}), v.c, sc)
                  [] s.k = "ast" -> LET v == scal(s.e) IN R(v.e, v.c, sc)
                  [] s.k = "log" -> LET vs == TLCEval([i \in 1..Len(s.as) |-> scal(s.as[i])])
                                    IN R(UNION {vs[i].e : i \in 1..Len(vs)}, UNION {vs[i].c : i \in 1..Len(vs)}, sc)
                  [] OTHER -> R({"kind"}, {}, sc)
           q == TLCEval(TS(Tail(ss), TLCEval(r).sc, D, ret, P))
       IN [e |-> r.e \cup q.e, c |-> r.c \cup q.c, sc |-> q.sc]

\* a bus: its fields are declared like signals
TypeBus(B, rs, P) ==
  LET sc == <<ParamScope(B.params, rs)>>
      fs == TLCEval([i \in 1..Len(B.fields) |-> TS(<<[k |-> "sig", q |-> "mid", n |-> "", d |-> B.fields[i].d, bt |-> B.fields[i].bt]>>, sc, B, 0, P)])
  IN [e |-> UNION {fs[i].e : i \in 1..Len(fs)}, c |-> UNION {fs[i].c : i \in 1..Len(fs)}]
TypeDef(name, rs, P) ==
  IF Has(P.buses, name) THEN TypeBus(P.buses[name], rs, P)
  ELSE IF Has(P.funcs, name) THEN TS(P.funcs[name].body, <<ParamScope(P.funcs[name].params, rs)>>, P.funcs[name], RankF(name, rs, {}, P), P)
  ELSE TS(P.templates[name].body, <<ParamScope(P.templates[name].params, rs)>>, P.templates[name], 0, P)
RECURSIVE Reach(_, _, _, _)
\* every definition, with the dimensions of its arguments, that main reaches
Reach(todo, done, errs, P) ==
  IF todo = {} THEN [e |-> errs, d |-> done]
  ELSE LET w == CHOOSE w \in todo : TRUE
           r == TLCEval(TypeDef(w[1], w[2], P))
           done2 == done \cup {w}
       IN Reach(TLCEval((todo \cup r.c) \ done2), done2, TLCEval(errs \cup r.e), P)
TypeErrs(P) == LET m == TLCEval(TE([k |-> "c", f |-> P.main.t, as |-> P.main.as], <<EmptyF>>, {}, P))
                   r == TLCEval(Reach(m.c, {}, {}, P))
               IN [e |-> m.e \cup r.e, d |-> {w[1] : w \in r.d}]

-----------------------------------------------------------------------------
(* Values that may depend on inputs, by name and regardless of order         *)
IxMentions(as, U) == \E i \in 1..Len(as) : as[i].k # "f" /\ Mentions(as[i].e, U)
RECURSIVE Taint(_, _, _)
Taint(ss, U, un) ==
  IF ss = <<>> THEN U
  ELSE LET s == ss[1]
           loop(c, b) == Taint(b, U, un \/ Mentions(c, U))
           U2 == CASE s.k \in {"sig", "comp"} -> U \cup {s.n}
                   [] s.k = "var" -> IF s.i # <<>> /\ (un \/ Mentions(s.i[1], U)) THEN U \cup {s.n} ELSE U
                   [] s.k = "as" -> IF un \/ Mentions(s.r, U) \/ IxMentions(s.l.a, U) THEN U \cup {s.l.n} ELSE U
                   [] s.k = "if" -> loop(s.c, s.t) \cup loop(s.c, s.e)
                   [] s.k = "wh" -> loop(s.c, s.b)
                   [] s.k = "for" -> loop(s.c, <<s.i>> \o s.b \o <<s.s>>)
                   [] s.k = "bl" -> Taint(s.b, U, un)
                   [] OTHER -> U
       IN Taint(Tail(ss), TLCEval(U2), un)
RECURSIVE TaintFix(_, _)
TaintFix(D, U) == LET W == TLCEval(Taint(D.body, U, FALSE)) IN IF W = U THEN U ELSE TaintFix(D, W)
RECURSIVE DeepIx(_, _)
DeepIx(e, U) ==       \* some index inside e may be unknown
  CASE e.k = "v" -> IxMentions(e.a, U)
    [] e.k = "b" -> DeepIx(e.l, U) \/ DeepIx(e.r, U)
    [] e.k \in {"u", "par"} -> DeepIx(e.e, U)
    [] e.k = "t" -> DeepIx(e.c, U) \/ DeepIx(e.x, U) \/ DeepIx(e.y, U)
    [] e.k = "a" -> \E i \in 1..Len(e.es) : DeepIx(e.es[i], U)
    [] e.k = "c" -> \E i \in 1..Len(e.as) : DeepIx(e.as[i], U)
    [] OTHER -> FALSE
RECURSIVE MayS(_, _, _)
MayS(ss, U, un) == \E i \in 1..Len(ss) : LET s == ss[i] IN
  CASE s.k \in {"sig", "comp", "var"} ->
         \/ \E j \in 1..Len(s.d) : Mentions(s.d[j], U)
         \/ s.k # "var" /\ un
         \/ s.k = "comp" /\ s.i # <<>> /\ (\E n \in {0} : Mentions(s.i[1], U))
         \/ s.k = "sig" /\ s.bt # <<>> /\ \E j \in 1..Len(s.bt[1].as) : Mentions(s.bt[1].as[j], U)
    [] s.k = "as" -> \/ s.o = "<==" /\ (un \/ DeepIx(s.r, U) \/ IxMentions(s.l.a, U))
                     \/ s.o # "=" /\ IxMentions(s.l.a, U)
                     \/ s.o = "=" /\ s.r.k \in {"c", "par", "t"} /\ s.l.n \in U /\ (un \/ Mentions(s.r, U) \/ IxMentions(s.l.a, U))
    [] s.k = "ceq" -> un \/ DeepIx(s.l, U) \/ DeepIx(s.r, U)
    [] s.k = "if" -> MayS(s.t, U, un \/ Mentions(s.c, U)) \/ MayS(s.e, U, un \/ Mentions(s.c, U))
    [] s.k = "wh" -> MayS(s.b, U, un \/ Mentions(s.c, U))
    [] s.k = "for" -> MayS(s.b, U, un \/ Mentions(s.c, U))
    [] s.k = "bl" -> MayS(s.b, U, un)
    [] OTHER -> FALSE
MayUnknown(P, reached) == \E t \in reached : Has(P.templates, t) /\
   LET D == P.templates[t] IN MayS(D.body, TLCEval(TaintFix(D, {})), FALSE)

-----------------------------------------------------------------------------
(* The static verdict: [e: definite errors, open: reasons a rejection of a   *)
(* program the execution accepts would be allowed]                           *)
Static(P) ==
  LET n == NameErrs(P)
      def == n \ {"maydim"}
      sh == \/ \E t \in DOMAIN P.templates : ShadowsP(P.templates[t]) \/ SelfInit(P.templates[t])
            \/ \E f \in DOMAIN P.funcs : SelfInit(P.funcs[f])
  IN IF def # {} THEN [e |-> def, open |-> {}]
     ELSE IF sh THEN [e |-> {}, open |-> {"shadow"}]
     ELSE LET t == TLCEval(TypeErrs(P))
          IN IF t.e # {} THEN [e |-> t.e, open |-> {}]
             \* ports that do not exist may be reported in templates that main does not reach
             ELSE [e |-> {}, open |-> (IF \E q \in DOMAIN P.templates \ t.d :
                                             "private" \in TypeDef(q, [i \in 1..Len(P.templates[q].params) |-> 0], P).e THEN {"port"} ELSE {})
                                      \cup (IF MayUnknown(P, t.d) THEN {"unknown"} ELSE {}) \cup (n \cap {"maydim"})]
=============================================================================
