-------------------------------- MODULE Tags --------------------------------
(* The tags of signals and buses: which are required, which travel with an   *)
(* assignment, which have a value and when it can be read.  A behaviour is   *)
(* the body of a main template, built one statement at a time; each is       *)
(* printed with the verdict and with the constants its tag reads have, and   *)
(* replayed as a program.                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils, SequencesExt

NONE == -1                       \* a tag without value; values are naturals
Empty == [x \in {} |-> 0]
\* declarations [n, k (in, out, mid), ty (sig or a bus), d (0: no array), tags]
D(n, k, ty, d, tags) == [n |-> n, k |-> k, ty |-> ty, d |-> d, tags |-> tags]
F(n, ty, d, tags) == D(n, "field", ty, d, tags)
BusFields == [B |-> {F("f", "sig", 0, {"u"}), F("g", "sig", 2, {})},
              C |-> {F("e", "B", 0, {"k"}), F("h", "sig", 0, {"m"}), F("q", "sig", 2, {"t"})}]
FieldsOf(ty) == IF ty = "sig" THEN {} ELSE BusFields[ty]
Named(ds, n) == CHOOSE x \in ds : x.n = n
Has(ds, n) == \E x \in ds : x.n = n
Idx == {"0", "1"}
Plain(r) == SelectSeq(r, LAMBDA x : x \notin Idx)
Max0(x) == IF x < 0 THEN 0 ELSE x
Num(d) == IF d = 0 THEN 1 ELSE d

-----------------------------------------------------------------------------
(* tag wires: what an expression carries, [ts: tag -> value, fs: field -> wire] *)
NoTags == [ts |-> Empty, fs |-> Empty]
FieldTags(tw, f) == IF f \in DOMAIN tw.fs THEN tw.fs[f] ELSE NoTags
RECURSIVE Declared(_, _), Join(_, _)
Declared(ty, tags) == [ts |-> [t \in tags |-> NONE],
                       fs |-> [f \in {x.n : x \in FieldsOf(ty)} |-> LET x == Named(FieldsOf(ty), f) IN Declared(x.ty, x.tags)]]
Join(a, b) ==
  [ts |-> [t \in {x \in DOMAIN a.ts \cap DOMAIN b.ts : a.ts[x] = b.ts[x]} |-> a.ts[t]],
   fs |-> [f \in DOMAIN a.fs \cap DOMAIN b.fs |-> Join(a.fs[f], b.fs[f])]]

(* the tag state of a declared signal or bus *)
RECURSIVE Fresh(_, _, _, _), Given(_)
\* num: elements of this wire; size: elements of one declaration of it
Fresh(ty, tags, num, size) ==
  [ts |-> [t \in tags |-> NONE], def |-> tags, val |-> {}, rem |-> num, size |-> size, init |-> FALSE,
   fs |-> [f \in {x.n : x \in FieldsOf(ty)} |-> LET x == Named(FieldsOf(ty), f) IN Fresh(x.ty, x.tags, num * Num(x.d), Num(x.d))]]
Given(tw) ==      \* an input: it has everything it will ever have
  [ts |-> tw.ts, def |-> DOMAIN tw.ts, val |-> {t \in DOMAIN tw.ts : tw.ts[t] # NONE}, rem |-> 0, size |-> 0, init |-> TRUE,
   fs |-> [f \in DOMAIN tw.fs |-> Given(tw.fs[f])]]

Readable(W, t) == t \in DOMAIN W.ts /\ W.ts[t] # NONE /\ (t \in W.val \/ W.rem = 0)
RECURSIVE Carried(_)
\* a tag travels with its value if the user gave the value or all elements agree on it; a declared tag always travels
Carried(W) ==
  [ts |-> [t \in {x \in DOMAIN W.ts : x \in W.def \/ W.rem = 0} |-> IF t \in W.val \/ W.rem = 0 THEN W.ts[t] ELSE NONE],
   fs |-> [f \in DOMAIN W.fs |-> Carried(W.fs[f])]]
RECURSIVE Take(_, _, _)
\* num elements of the wire are assigned from something that carries tw
Take(W, tw, num) ==
  LET new(t) == IF t \in DOMAIN tw.ts THEN tw.ts[t] ELSE NONE
      same(t) == t \in DOMAIN tw.ts /\ tw.ts[t] = W.ts[t]
      kept == W.def \cup {t \in DOMAIN W.ts \ W.def : same(t)} \cup (IF W.init THEN {} ELSE DOMAIN tw.ts)
  IN [W EXCEPT !.ts = [t \in kept |->
                 IF t \in W.val THEN W.ts[t]
                 ELSE IF t \in W.def THEN (IF ~W.init THEN new(t) ELSE IF same(t) THEN W.ts[t] ELSE NONE)
                 ELSE IF t \in DOMAIN W.ts THEN W.ts[t] ELSE tw.ts[t]],
               !.rem = Max0(W.rem - num), !.init = TRUE,
               !.fs = [f \in DOMAIN W.fs |-> Take(W.fs[f], FieldTags(tw, f), W.fs[f].size * num)]]
RECURSIVE Dig(_, _), Put(_, _, _)
Dig(W, path) == IF path = <<>> THEN W ELSE Dig(W.fs[path[1]], Tail(path))
Put(W, path, V) == IF path = <<>> THEN V ELSE [W EXCEPT !.fs[path[1]] = Put(W.fs[path[1]], Tail(path), V)]

-----------------------------------------------------------------------------
(* references: sequences of names and indices; their type and elements       *)
RECURSIVE TypeOf(_, _, _, _), Cells(_, _, _)
\* the rest r of a reference inside something of type ty and dimension d declared with tags
TypeOf(r, ty, d, tags) ==
  IF r = <<>> THEN [ty |-> ty, d |-> d, tags |-> tags]
  ELSE IF r[1] \in Idx THEN TypeOf(Tail(r), ty, 0, tags)
  ELSE LET x == Named(FieldsOf(ty), r[1]) IN TypeOf(Tail(r), x.ty, x.d, x.tags)
RefType(ds, r) == LET x == Named(ds, r[1]) IN TypeOf(Tail(r), x.ty, x.d, x.tags)
Cells(pre, ty, d) ==
  IF d > 0 THEN UNION {Cells(Append(pre, i), ty, 0) : i \in Idx}
  ELSE IF ty = "sig" THEN {pre}
  ELSE UNION {Cells(Append(pre, x.n), x.ty, x.d) : x \in FieldsOf(ty)}
CellsOf(ds, r) == LET y == RefType(ds, r) IN Cells(r, y.ty, y.d)

-----------------------------------------------------------------------------
(* the templates that main uses                                              *)
E(k) == [k |-> k]
Lit(n) == [k |-> "num", n |-> n]
Ref(r) == [k |-> "ref", r |-> r]
CRef(c, r) == [k |-> "cref", c |-> c, r |-> r]
Plus(e) == [k |-> "plus", e |-> e]
Arr(es) == [k |-> "arr", es |-> es]
VarE(v) == [k |-> "var", v |-> v]
TagE(r, t, n) == [k |-> "tag", r |-> r, t |-> t, n |-> n]
Asg(r, e) == [k |-> "asg", op |-> "<==", r |-> r, e |-> e]
AsgS(r, e) == [k |-> "asg", op |-> "<--", r |-> r, e |-> e]
SetT(r, t, e) == [k |-> "set", r |-> r, t |-> t, e |-> e, unk |-> FALSE]
In_(c, op, r, e) == [k |-> "in", c |-> c, op |-> op, r |-> r, e |-> e]
Rd(r, t) == [k |-> "read", c |-> "", r |-> r, t |-> t]
RdC(c, r, t) == [k |-> "read", c |-> c, r |-> r, t |-> t]
VarS(v, e) == [k |-> "let", v |-> v, e |-> e]
T(ds, body) == [ds |-> ds, body |-> body]
Templates ==
  [Src |-> T({D("i", "in", "sig", 0, {}), D("o", "out", "sig", 0, {"t", "u"})},
             <<SetT(<<"o">>, "t", Lit(5)), SetT(<<"o">>, "u", TagE(<<"o">>, "t", 1)), Asg(<<"o">>, Ref(<<"i">>))>>),
   Half |-> T({D("i", "in", "sig", 0, {}), D("o", "out", "sig", 0, {"t", "u"})},
             <<SetT(<<"o">>, "t", Lit(7)), Asg(<<"o">>, Ref(<<"i">>))>>),
   Bare |-> T({D("i", "in", "sig", 0, {}), D("o", "out", "sig", 0, {"t", "u"})}, <<Asg(<<"o">>, Ref(<<"i">>))>>),
   BBare |-> T({D("i", "in", "sig", 0, {}), D("o", "out", "B", 0, {"k"})},
             <<SetT(<<"o", "f">>, "u", Lit(3)), Asg(<<"o", "f">>, Ref(<<"i">>)), Asg(<<"o", "g">>, Arr(<<Ref(<<"i">>), Ref(<<"i">>)>>))>>),
   Pass |-> T({D("i", "in", "sig", 0, {"t"}), D("o", "out", "sig", 0, {"t"}), D("p", "out", "sig", 0, {})},
             <<Asg(<<"o">>, Ref(<<"i">>)), Asg(<<"p">>, Ref(<<"i">>))>>),
   Val |-> T({D("i", "in", "sig", 0, {"t"}), D("o", "out", "sig", 0, {"t", "u"})},
             <<Rd(<<"i">>, "t"), SetT(<<"o">>, "u", TagE(<<"i">>, "t", 3)), Asg(<<"o">>, Ref(<<"i">>)), Rd(<<"o">>, "t"), Rd(<<"o">>, "u")>>),
   Two |-> T({D("i", "in", "sig", 2, {"t"}), D("j", "in", "sig", 0, {}), D("o", "out", "sig", 2, {"t"})},
             <<Asg(<<"o", "1">>, Ref(<<"i", "0">>)), Asg(<<"o", "0">>, Ref(<<"i", "1">>))>>),
   Both |-> T({D("i", "in", "sig", 0, {"t", "u"}), D("j", "in", "sig", 0, {"u"}), D("o", "out", "sig", 0, {"t"}), D("p", "out", "sig", 2, {"u"})},
             <<SetT(<<"o">>, "t", TagE(<<"j">>, "u", 10)), Asg(<<"o">>, Ref(<<"i">>)), Asg(<<"p">>, Arr(<<Ref(<<"i">>), Ref(<<"j">>)>>))>>),
   BadIn |-> T({D("i", "in", "sig", 0, {"t"}), D("o", "out", "sig", 0, {})}, <<SetT(<<"i">>, "t", Lit(3)), Asg(<<"o">>, Ref(<<"i">>))>>),
   BSrc |-> T({D("i", "in", "sig", 0, {}), D("o", "out", "B", 0, {"k"})},
             <<SetT(<<"o">>, "k", Lit(2)), SetT(<<"o", "f">>, "u", Lit(4)), Asg(<<"o", "f">>, Ref(<<"i">>)), Asg(<<"o", "g">>, Arr(<<Ref(<<"i">>), Ref(<<"i">>)>>))>>),
   BPass |-> T({D("i", "in", "B", 0, {"k"}), D("o", "out", "B", 0, {"k"}), D("x", "out", "sig", 0, {"u"})},
             <<Asg(<<"o">>, Ref(<<"i">>)), Asg(<<"x">>, Ref(<<"i", "f">>)), Rd(<<"i">>, "k")>>),
   BVal |-> T({D("i", "in", "B", 0, {}), D("o", "out", "sig", 0, {"u"})},
             <<Rd(<<"i", "f">>, "u"), Asg(<<"o">>, Ref(<<"i", "f">>)), Rd(<<"o">>, "u")>>),
   NT |-> T({D("i", "in", "sig", 0, {"t"})}, <<>>), NU |-> T({D("i", "in", "sig", 0, {"u"})}, <<>>), NM |-> T({D("i", "in", "sig", 0, {"m"})}, <<>>),
   NT2 |-> T({D("i", "in", "sig", 2, {"t"})}, <<>>), NU2 |-> T({D("i", "in", "sig", 2, {"u"})}, <<>>), NB |-> T({D("i", "in", "B", 0, {})}, <<>>),
   NBK |-> T({D("i", "in", "B", 0, {"k"})}, <<>>), NBK2 |-> T({D("i", "in", "B", 2, {"k"})}, <<>>), NBT2 |-> T({D("i", "in", "B", 2, {"t"})}, <<>>),
   NC |-> T({D("i", "in", "C", 0, {})}, <<>>),
   VT |-> T({D("i", "in", "sig", 0, {"t"})}, <<Rd(<<"i">>, "t")>>), VU |-> T({D("i", "in", "sig", 0, {"u"})}, <<Rd(<<"i">>, "u")>>),
   VM |-> T({D("i", "in", "sig", 0, {"m"})}, <<Rd(<<"i">>, "m")>>), VT2 |-> T({D("i", "in", "sig", 2, {"t"})}, <<Rd(<<"i">>, "t")>>),
   VU2 |-> T({D("i", "in", "sig", 2, {"u"})}, <<Rd(<<"i">>, "u")>>), VB |-> T({D("i", "in", "B", 0, {})}, <<Rd(<<"i", "f">>, "u")>>),
   VBK |-> T({D("i", "in", "B", 0, {"k"})}, <<Rd(<<"i">>, "k")>>), VBK2 |-> T({D("i", "in", "B", 2, {"k"})}, <<Rd(<<"i">>, "k")>>),
   VCT |-> T({D("i", "in", "C", 0, {})}, <<Rd(<<"i", "q">>, "t")>>), VCU |-> T({D("i", "in", "C", 0, {})}, <<Rd(<<"i", "e", "f">>, "u")>>),
   CPass |-> T({D("i", "in", "C", 0, {}), D("o", "out", "C", 0, {}), D("y", "out", "sig", 2, {})},
             <<Asg(<<"o">>, Ref(<<"i">>)), Asg(<<"y">>, Ref(<<"i", "q">>))>>)]
MainDs == {D("x", "in", "sig", 0, {}), D("xs", "in", "sig", 2, {}),
           D("s", "mid", "sig", 0, {"t"}), D("w", "mid", "sig", 0, {"t", "u"}), D("n", "mid", "sig", 0, {}),
           D("a", "mid", "sig", 2, {"t"}), D("an", "mid", "sig", 2, {}),
           D("b", "mid", "B", 0, {"k"}), D("bn", "mid", "B", 0, {}), D("bb", "mid", "B", 2, {"k", "t"}),
           D("c", "mid", "C", 0, {}), D("cn", "mid", "C", 0, {"z"})}
Comps == [s1 |-> "Src", s2 |-> "Src", h1 |-> "Half", p1 |-> "Pass", p2 |-> "Pass", v1 |-> "Val", v2 |-> "Val", t1 |-> "Two", d1 |-> "Both",
          e1 |-> "BadIn", n1 |-> "Bare", nb |-> "BBare", bs |-> "BSrc", bp |-> "BPass", bv |-> "BVal", cp |-> "CPass"]
Vars == [v |-> 0, va |-> 2]

-----------------------------------------------------------------------------
(* statements                                                                *)
Start(ds, given) == [ds |-> ds, w |-> [n \in {x.n : x \in ds} |-> LET x == Named(ds, n) IN
                        IF x.k = "in" THEN Given(given[n]) ELSE Fresh(x.ty, x.tags, Num(x.d), Num(x.d))],
                     as |-> UNION {Cells(<<x.n>>, x.ty, x.d) : x \in {y \in ds : y.k = "in"}},
                     cs |-> Empty, vs |-> Empty, rd |-> <<>>, err |-> ""]
Err(st, e) == [st EXCEPT !.err = e]
\* what an expression carries: [e: error, t: tag wire]
Ok(tw) == [e |-> "", t |-> tw]
No(e) == [e |-> e, t |-> NoTags]
Complete(C) == C.init /\ UNION {Cells(<<x.n>>, x.ty, x.d) : x \in {y \in Templates[C.tpl].ds : y.k = "in"}} \subseteq C.as
IsOut(tpl, n) == Named(Templates[tpl].ds, n).k = "out"
CompWire(C, r) == LET p == Plain(r) IN Dig(IF IsOut(C.tpl, p[1]) THEN C.outs[p[1]] ELSE C.ins[p[1]], Tail(p))
RECURSIVE Ev(_, _), EvArr(_, _, _)
Ev(st, e) ==
  CASE e.k = "num" -> Ok(NoTags)
    [] e.k = "plus" -> LET v == Ev(st, e.e) IN IF v.e # "" THEN v ELSE Ok(NoTags)
    [] e.k = "ref" -> IF CellsOf(st.ds, e.r) \subseteq st.as
                      THEN LET p == Plain(e.r) IN Ok(Carried(Dig(st.w[p[1]], Tail(p)))) ELSE No("unassigned")
    [] e.k = "cref" -> IF e.c \notin DOMAIN st.cs THEN No("component")
                       ELSE LET C == st.cs[e.c] IN
                            IF IsOut(C.tpl, e.r[1]) /\ ~Complete(C) THEN No("inputs")
                            ELSE IF ~C.init THEN No("inputtags")
                            ELSE IF ~IsOut(C.tpl, e.r[1]) /\ ~(CellsOf(Templates[C.tpl].ds, e.r) \subseteq C.as) THEN No("unassigned")
                            ELSE Ok(CompWire(C, e.r))
    [] e.k = "var" -> IF e.v \in DOMAIN st.vs THEN Ok(st.vs[e.v]) ELSE Ok(NoTags)
    [] e.k = "arr" -> EvArr(st, e.es, 2)
EvArr(st, es, i) ==
  IF i = 1 THEN Ev(st, es[1])
  ELSE LET l == EvArr(st, es, i - 1) r == Ev(st, es[i]) IN
       IF l.e # "" THEN l ELSE IF r.e # "" THEN r
       ELSE Ok(Join(l.t, r.t))
\* the value of a tag: [e, v]
TagVal(st, c, r, t) ==
  IF c = "" THEN LET W == Dig(st.w[r[1]], Tail(r)) IN
                 IF t \notin RefType(st.ds, r).tags THEN [e |-> "undeclared", v |-> 0]
                 ELSE IF Readable(W, t) THEN [e |-> "", v |-> W.ts[t]] ELSE [e |-> "notvalue", v |-> 0]
  ELSE IF c \notin DOMAIN st.cs THEN [e |-> "component", v |-> 0]
  ELSE LET C == st.cs[c] IN
       IF t \notin RefType(Templates[C.tpl].ds, r).tags THEN [e |-> "undeclared", v |-> 0]
       ELSE IF ~IsOut(C.tpl, r[1]) THEN [e |-> "inputtag", v |-> 0]          \* only its own template reads the tags of an input
       ELSE IF ~Complete(C) THEN [e |-> "inputs", v |-> 0]
       ELSE IF ~C.init THEN [e |-> "inputtags", v |-> 0]
       ELSE LET v == CompWire(C, r).ts[t] IN IF v = NONE THEN [e |-> "notvalue", v |-> 0] ELSE [e |-> "", v |-> v]
DoSet(st, op) ==
  LET v == CASE op.e.k = "num" -> [e |-> "", v |-> op.e.n]
             [] op.e.k = "tag" -> LET x == TagVal(st, "", op.e.r, op.e.t) IN [x EXCEPT !.v = @ + op.e.n]
             [] OTHER -> [e |-> "nonconstant", v |-> 0]
      W == Dig(st.w[op.r[1]], Tail(op.r))
  IN IF op.t \notin RefType(st.ds, op.r).tags THEN Err(st, "undeclared")
     ELSE IF v.e # "" THEN Err(st, v.e)
     ELSE IF Named(st.ds, op.r[1]).k = "in" THEN Err(st, "taginput")
     ELSE IF op.unk THEN Err(st, "tagunknown")
     ELSE IF W.init THEN Err(st, "tagafter")
     ELSE IF op.t \in W.val THEN Err(st, "tagtwice")
     ELSE [st EXCEPT !.w[op.r[1]] = Put(@, Tail(op.r), [W EXCEPT !.ts[op.t] = v.v, !.val = @ \cup {op.t}])]
DoAsg(st, op) ==
  LET v == Ev(st, op.e)
      cells == CellsOf(st.ds, op.r)
      y == RefType(st.ds, op.r)
      p == Plain(op.r)
      W == Dig(st.w[p[1]], Tail(p))
  IN IF v.e # "" THEN Err(st, v.e)
     ELSE IF Named(st.ds, op.r[1]).k = "in" \/ cells \cap st.as # {} THEN Err(st, "assigned")
     ELSE [st EXCEPT !.w[p[1]] = Put(@, Tail(p), Take(W, IF op.op = "<==" THEN v.t ELSE NoTags, Num(y.d))), !.as = @ \cup cells]

(* components: the inputs with tags (at any depth) must all be known before the body can run *)
RECURSIVE Tagged(_, _, _)
Tagged(pre, ty, tags) == (IF tags = {} THEN {} ELSE {pre}) \cup UNION {Tagged(Append(pre, x.n), x.ty, x.tags) : x \in FieldsOf(ty)}
NewComp(tpl) ==
  LET ds == Templates[tpl].ds ins == {x \in ds : x.k = "in"}
  IN [tpl |-> tpl, ins |-> [n \in {x.n : x \in ins} |-> LET x == Named(ins, n) IN Declared(x.ty, x.tags)],
      un |-> UNION {Tagged(<<x.n>>, x.ty, x.tags) : x \in ins}, as |-> {}, init |-> FALSE, outs |-> Empty, rd |-> <<>>]
RECURSIVE Bad(_, _, _, _, _)
\* is something required missing, or different from what the input already has?
Bad(I, tw, path, un, first) ==
  LET new == first /\ path \in un
      miss == \E t \in DOMAIN I.ts : t \notin DOMAIN tw.ts
      diff == ~new /\ \E t \in DOMAIN I.ts : t \in DOMAIN tw.ts /\ tw.ts[t] # I.ts[t]
      sub == {Bad(I.fs[f], FieldTags(tw, f), Append(path, f), un, first) : f \in DOMAIN I.fs}
  IN IF miss \/ "missing" \in sub THEN "missing" ELSE IF diff \/ "twice" \in sub THEN "twice" ELSE ""
RECURSIVE Fill(_, _, _, _)
Fill(I, tw, path, un) ==
  [ts |-> IF path \in un THEN [t \in DOMAIN I.ts |-> tw.ts[t]] ELSE I.ts,
   fs |-> [f \in DOMAIN I.fs |-> Fill(I.fs[f], FieldTags(tw, f), Append(path, f), un)]]
RECURSIVE PutW(_, _, _)
PutW(I, path, V) == IF path = <<>> THEN V ELSE [I EXCEPT !.fs[path[1]] = PutW(I.fs[path[1]], Tail(path), V)]

RECURSIVE Do(_, _), Body(_, _, _)
\* the outputs an instance shows: the declared tags, with the values they ended with
RECURSIVE Shown(_)
Shown(W) == [ts |-> [t \in W.def |-> IF Readable(W, t) THEN W.ts[t] ELSE NONE], fs |-> [f \in DOMAIN W.fs |-> Shown(W.fs[f])]]
Instance(C) ==
  LET st == Body(Start(Templates[C.tpl].ds, C.ins), Templates[C.tpl].body, 1)
  IN [e |-> st.err, c |-> [C EXCEPT !.init = TRUE, !.rd = st.rd, !.outs = [n \in {x.n : x \in {y \in st.ds : y.k = "out"}} |-> Shown(st.w[n])]]]
Body(st, body, i) == IF i > Len(body) \/ st.err # "" THEN st ELSE Body(Do(st, body[i]), body, i + 1)
DoIn(st, op) ==
  LET C == st.cs[op.c]
      ds == Templates[C.tpl].ds
      v == Ev(st, op.e)
      tw == IF op.op = "<==" THEN v.t ELSE NoTags
      p == Plain(op.r)
      I == Dig(C.ins[p[1]], Tail(p))
      bad == Bad(I, tw, p, C.un, ~C.init)
      cells == CellsOf(ds, op.r)
      C1 == [C EXCEPT !.ins[p[1]] = PutW(@, Tail(p), IF C.init THEN I ELSE Fill(I, tw, p, C.un)),
                      !.un = {q \in @ : ~(Len(q) >= Len(p) /\ SubSeq(q, 1, Len(p)) = p)}, !.as = @ \cup cells]
      R == IF C1.init \/ C1.un # {} THEN [e |-> "", c |-> C1] ELSE Instance(C1)
  IN IF v.e # "" THEN Err(st, v.e)
     ELSE IF IsOut(C.tpl, p[1]) THEN Err(st, "output")
     ELSE IF bad # "" THEN Err(st, bad)
     ELSE IF cells \cap C.as # {} THEN Err(st, "assigned")
     ELSE IF R.e # "" THEN Err(st, R.e)
     ELSE [st EXCEPT !.cs[op.c] = R.c]
DoComp(st, op) ==
  IF op.c \in DOMAIN st.cs THEN Err(st, "component")
  ELSE LET C == NewComp(op.tpl) R == IF C.un = {} THEN Instance(C) ELSE [e |-> "", c |-> C]
       IN IF R.e # "" THEN Err(st, R.e) ELSE [st EXCEPT !.cs = [c \in DOMAIN @ \cup {op.c} |-> IF c = op.c THEN R.c ELSE @[c]]]
DoLet(st, op) ==
  LET v == Ev(st, op.e) IN
  IF v.e # "" THEN Err(st, v.e)
  ELSE [st EXCEPT !.vs = [x \in DOMAIN @ \cup {op.v} |-> IF x = op.v THEN v.t ELSE @[x]]]
Do(st, op) ==
  CASE op.k = "set" -> DoSet(st, op)
    [] op.k = "asg" -> DoAsg(st, op)
    [] op.k = "in" -> DoIn(st, op)
    [] op.k = "comp" -> DoComp(st, op)
    [] op.k = "let" -> DoLet(st, op)
    [] op.k = "elem" -> LET v == Ev(st, op.e) IN                 \* an element of a variable: its tags are lost
                        IF v.e # "" THEN Err(st, v.e) ELSE [st EXCEPT !.vs = [x \in DOMAIN @ \cup {op.v} |-> IF x = op.v THEN NoTags ELSE @[x]]]
    [] op.k = "read" -> LET v == TagVal(st, op.c, op.r, op.t) IN
                        IF v.e # "" THEN Err(st, v.e) ELSE [st EXCEPT !.rd = Append(@, v.v)]
    [] op.k = "setc" -> Err(st, "outside")                        \* tags of a component are set by its own template only
Verdict(st) == IF st.err # "" THEN st.err
               ELSE IF \E c \in DOMAIN st.cs : ~Complete(st.cs[c]) THEN "incomplete" ELSE ""

-----------------------------------------------------------------------------
(* behaviours                                                                *)
Cfg == JsonDeserialize(IOEnv.CASES)

Pick(all, name) == {x \in all : x[1] \in name}
Targets == { <<"s">>, <<"w">>, <<"n">>, <<"a">>, <<"a", "0">>, <<"a", "1">>, <<"an">>, <<"an", "0">>, <<"an", "1">>,
             <<"b">>, <<"b", "f">>, <<"b", "g">>, <<"b", "g", "0">>, <<"b", "g", "1">>, <<"bn">>, <<"bn", "f">>, <<"bn", "g">>, <<"bn", "g", "0">>,
             <<"bb">>, <<"bb", "0">>, <<"bb", "1">>, <<"bb", "0", "f">>, <<"bb", "1", "f">>, <<"bb", "0", "g">>, <<"bb", "1", "g", "0">>,
             <<"c">>, <<"c", "e">>, <<"c", "h">>, <<"c", "q">>, <<"c", "q", "1">>, <<"c", "e", "f">>, <<"c", "e", "g">>, <<"cn">>, <<"cn", "h">>, <<"cn", "q", "0">>}
TargetsOf == Pick(Targets, ToSet(Cfg.targets))
CompsOf == ToSet(Cfg.comps)
Kind(ds, r) == LET y == RefType(ds, r) IN <<y.ty, y.d>>
InRefs == [s1 |-> {<<"i">>}, s2 |-> {<<"i">>}, h1 |-> {<<"i">>}, p1 |-> {<<"i">>}, p2 |-> {<<"i">>}, v1 |-> {<<"i">>}, v2 |-> {<<"i">>},
           t1 |-> {<<"i">>, <<"i", "0">>, <<"i", "1">>, <<"j">>}, d1 |-> {<<"i">>, <<"j">>}, e1 |-> {<<"i">>}, n1 |-> {<<"i">>}, nb |-> {<<"i">>}, bs |-> {<<"i">>},
           bp |-> {<<"i">>, <<"i", "f">>, <<"i", "g">>}, bv |-> {<<"i">>, <<"i", "f">>, <<"i", "g">>, <<"i", "g", "1">>, <<"i", "g", "0">>},
           cp |-> {<<"i">>, <<"i", "e">>, <<"i", "h">>, <<"i", "q">>, <<"i", "e", "f">>}]
CompSrc == [Src |-> {<<"o">>, <<"i">>}, Half |-> {<<"o">>}, Bare |-> {<<"o">>}, BBare |-> {<<"o">>, <<"o", "f">>}, Pass |-> {<<"o">>, <<"p">>, <<"i">>}, Val |-> {<<"o">>},
            Two |-> {<<"o">>, <<"o", "0">>, <<"i">>, <<"i", "1">>}, Both |-> {<<"o">>, <<"p">>, <<"p", "1">>, <<"j">>}, BadIn |-> {<<"o">>},
            BSrc |-> {<<"o">>, <<"o", "f">>, <<"o", "g">>}, BPass |-> {<<"o">>, <<"o", "f">>, <<"x">>, <<"i">>}, BVal |-> {<<"o">>},
            CPass |-> {<<"o">>, <<"o", "e">>, <<"o", "h">>, <<"o", "e", "f">>, <<"y">>, <<"o", "q">>}]
\* the sources of a kind, given the state (components that exist)
Srcs(st, kd) ==
  LET refs == {Ref(r) : r \in {q \in TargetsOf \cup {<<"x">>, <<"xs">>, <<"xs", "1">>} : Kind(MainDs, q) = kd}}
      crefs == UNION {{CRef(c, r) : r \in {q \in CompSrc[Comps[c]] : Kind(Templates[Comps[c]].ds, q) = kd}} : c \in DOMAIN st.cs}
  IN refs \cup crefs
     \cup (IF kd = <<"sig", 0>> THEN {Lit(1), VarE("v"), Plus(Ref(<<"s">>)), Plus(Ref(<<"x">>))} ELSE {})
     \cup (IF kd = <<"sig", 2>> THEN {VarE("va"), Arr(<<Ref(<<"s">>), Ref(<<"w">>)>>), Arr(<<Ref(<<"s">>), Ref(<<"s">>)>>), Arr(<<Lit(1), Ref(<<"s">>)>>), Arr(<<Ref(<<"w">>), Lit(0)>>),
                                 Arr(<<Ref(<<"a", "0">>), Ref(<<"s">>)>>)}
              \cup {Arr(<<CRef(c, <<"o">>), CRef(d, <<"o">>)>>) : c, d \in DOMAIN st.cs \cap {"s1", "s2", "h1", "n1", "p1", "v1"}} ELSE {})
     \cup (IF kd = <<"B", 2>> THEN {Arr(<<Ref(<<"b">>), Ref(<<"bn">>)>>), Arr(<<Ref(<<"b">>), Ref(<<"b">>)>>)} \cup {Arr(<<CRef("bs", <<"o">>), Ref(<<"b">>)>>) : x \in DOMAIN st.cs \cap {"bs"}} ELSE {})
TagPaths == { <<"s">>, <<"w">>, <<"n">>, <<"a">>, <<"an">>, <<"b">>, <<"b", "f">>, <<"bn", "f">>, <<"bb">>, <<"bb", "f">>, <<"c", "e">>, <<"c", "h">>, <<"c", "q">>, <<"c", "e", "f">>, <<"cn">>, <<"cn", "e", "f">> }
TagPathsOf == {r \in TagPaths : \E q \in TargetsOf : q[1] = r[1]}
TagsAt(r) == RefType(MainDs, r).tags
Sets(st) == {SetT(r, t, e) : r \in TagPathsOf, t \in {"t", "u", "k", "m", "z"}, e \in {Lit(5), Lit(6)}}
Good(st, op) == Do(st, op).err = ""
\* the first half of a statement: what it changes
AllHeads(st) ==
  {[k |-> "asg", r |-> r] : r \in TargetsOf} \cup {[k |-> "let", v |-> v] : v \in DOMAIN Vars} \cup {[k |-> "elem", v |-> "va"]}
  \cup {[k |-> "comp", c |-> c] : c \in CompsOf \ DOMAIN st.cs}
  \cup UNION {{[k |-> "in", c |-> c, r |-> r] : r \in InRefs[c]} : c \in DOMAIN st.cs}
  \cup {[k |-> "set", r |-> r] : r \in TagPathsOf} \cup {[k |-> "read", c |-> "", r |-> r] : r \in TagPathsOf}
  \cup UNION {{[k |-> "read", c |-> c, r |-> Plain(r)] : r \in CompSrc[Comps[c]]} : c \in DOMAIN st.cs}
  \cup UNION {{[k |-> "setc", c |-> c, r |-> Plain(r)] : r \in CompSrc[Comps[c]]} : c \in DOMAIN st.cs}
\* only these assignments, if the configuration names any
Heads(st) == IF Cfg.only = <<>> THEN AllHeads(st)
             ELSE {h \in AllHeads(st) : h.k \in {"asg", "set"} /\ h.r \in ToSet(Cfg.only)}
AllTags == {"t", "u", "k", "m", "z"}
Tails(st, h) ==
  CASE h.k = "asg" -> {[k |-> "asg", op |-> o, r |-> h.r, e |-> e] : o \in IF Cfg.only = <<>> THEN {"<==", "<--"} ELSE {"<=="}, e \in Srcs(st, Kind(MainDs, h.r))}
    [] h.k = "let" -> {[k |-> "let", v |-> h.v, e |-> e] : e \in {y \in Srcs(st, <<"sig", Vars[h.v]>>) : y.k # "var"}}
    [] h.k = "elem" -> {[k |-> "elem", v |-> h.v, e |-> e] : e \in {y \in Srcs(st, <<"sig", 0>>) : y.k # "var"}}
    [] h.k = "comp" -> {[k |-> "comp", c |-> h.c, tpl |-> Comps[h.c]]}
    [] h.k = "in" -> {[k |-> "in", c |-> h.c, op |-> o, r |-> h.r, e |-> e] : o \in {"<==", "<--"}, e \in Srcs(st, Kind(Templates[Comps[h.c]].ds, h.r))}
    [] h.k = "set" -> {[k |-> "set", r |-> h.r, t |-> t, e |-> e, unk |-> FALSE] :
                          t \in AllTags, e \in {Lit(5), Lit(6), Lit(7)} \cup {TagE(<<y>>, "t", 1) : y \in {q[1] : q \in TagPathsOf} \cap {"s", "w", "a"}}}
                      \cup {[k |-> "set", r |-> h.r, t |-> t, e |-> Ref(<<"x">>), unk |-> FALSE] : t \in TagsAt(h.r)}
                      \cup {[k |-> "set", r |-> h.r, t |-> t, e |-> Lit(5), unk |-> TRUE] : t \in TagsAt(h.r)}
    [] h.k = "read" -> {[k |-> "read", c |-> h.c, r |-> h.r, t |-> t] : t \in AllTags}
    [] h.k = "setc" -> {[k |-> "setc", c |-> h.c, r |-> h.r, t |-> t] : t \in RefType(Templates[Comps[h.c]].ds, h.r).tags}

VARIABLES st, ops, head, ph, len, bad
vars == <<st, ops, head, ph, len, bad>>
Nothing == [k |-> ""]
\* the components every behaviour starts with: they provide tags with and without values
Prefix == FlattenSeq([i \in 1..Len(Cfg.start) |-> <<[k |-> "comp", c |-> Cfg.start[i], tpl |-> Comps[Cfg.start[i]]], In_(Cfg.start[i], "<==", <<"i">>, Ref(<<"x">>))>>])
First == TLCEval(Body(Start(MainDs, [n \in {"x", "xs"} |-> NoTags]), Prefix, 1))
Init == /\ st = First /\ ops = Prefix /\ head = Nothing /\ ph = "head"
        /\ len \in ToSet(Cfg.lens) /\ bad \in ToSet(Cfg.bads)        \* the bad-th statement is one that is rejected, if there is any
Busy == Len(ops) - Len(Prefix) < len /\ st.err = ""
Choose == /\ ph = "head" /\ Busy
          /\ \E h \in Heads(st) : /\ (Len(ops) - Len(Prefix) + 1 # bad => \E op \in Tails(st, h) : Good(st, op)) /\ head' = h
          /\ ph' = "tail" /\ UNCHANGED <<st, ops, len, bad>>
Write == /\ ph = "tail"
         /\ \E op \in Tails(st, head) : /\ (Len(ops) - Len(Prefix) + 1 # bad => Good(st, op))
                                        /\ st' = Do(st, op) /\ ops' = Append(ops, op)
         /\ ph' = "head" /\ UNCHANGED <<head, len, bad>>
\* complete the components that can be
Todo == {x \in UNION {{<<c, r>> : r \in {q \in InRefs[c] : Plain(q) = q /\ Len(q) = 1}} : c \in DOMAIN st.cs} :
           CellsOf(Templates[Comps[x[1]]].ds, x[2]) \cap st.cs[x[1]].as = {}
           /\ \E op \in Tails(st, [k |-> "in", c |-> x[1], r |-> x[2]]) : op.op = "<==" /\ Good(st, op)}
Finish == /\ ph = "head" /\ ~Busy /\ st.err = "" /\ Todo # {} /\ Cfg.finish
          /\ \E x \in Todo : \E op \in Tails(st, [k |-> "in", c |-> x[1], r |-> x[2]]) : op.op = "<==" /\ Good(st, op) /\ st' = Do(st, op) /\ ops' = Append(ops, op)
          /\ UNCHANGED <<head, ph, len, bad>>
(* what is observable of a state: which tags can be read, with what value, and which signals satisfy which requirement *)
ProbeOf(kd) == CASE kd = <<"sig", 0>> -> {"NT", "NU", "NM", "VT", "VU", "VM"} [] kd = <<"sig", 2>> -> {"NT2", "NU2", "VT2", "VU2"}
                 [] kd = <<"B", 0>> -> {"NB", "NBK", "VB", "VBK"} [] kd = <<"B", 2>> -> {"NBK2", "NBT2", "VBK2"}
                 [] kd = <<"C", 0>> -> {"NC", "VCT", "VCU"} [] OTHER -> {}
ProbeRefs == {r \in TargetsOf : CellsOf(MainDs, r) \subseteq st.as}
CRefsOf == UNION {{<<c, r>> : r \in CompSrc[Comps[c]]} : c \in DOMAIN st.cs}
Probes == UNION {{<<tpl, Ref(r)>> : tpl \in ProbeOf(Kind(MainDs, r))} : r \in ProbeRefs}
          \cup UNION {{<<tpl, CRef(x[1], x[2])>> : tpl \in ProbeOf(Kind(Templates[Comps[x[1]]].ds, x[2]))} : x \in CRefsOf}
          \cup {<<"NT", VarE("v")>>, <<"NU", VarE("v")>>, <<"NT2", VarE("va")>>}
TagReads == UNION {{<<[k |-> "read", c |-> "", r |-> r, t |-> t]>> : t \in TagsAt(r)} : r \in TagPathsOf}
            \cup UNION {{<<[k |-> "read", c |-> x[1], r |-> Plain(x[2]), t |-> t]>> : t \in RefType(Templates[Comps[x[1]]].ds, Plain(x[2])).tags} : x \in CRefsOf}
Zs(i) == "z" \o ToString(i)
ProbeOps(i, q) == <<[k |-> "comp", c |-> Zs(i), tpl |-> q[1]], [k |-> "in", c |-> Zs(i), op |-> "<==", r |-> <<"i">>, e |-> q[2]]>>
AllObs == LET ps == TLCEval(SetToSeq(Probes))
          IN TLCEval(SetToSeq(TagReads) \o FlattenSeq([i \in 1..Len(ps) |-> <<ProbeOps(i, ps[i])>>]))
RECURSIVE Observe(_, _, _, _, _)
Observe(s, obs, i, good, no) ==      \* -> [s, good: the statements that are fine, no: those that are not]
  IF i > Len(obs) THEN [s |-> s, good |-> good, no |-> no]
  ELSE LET s1 == TLCEval(Body(s, obs[i], 1)) IN
       IF s1.err = "" THEN Observe(s1, obs, i + 1, good \o obs[i], no)
       ELSE Observe(s, obs, i + 1, good, IF s1.err \in {"missing", "notvalue"} THEN Append(no, [ops |-> obs[i], err |-> s1.err]) ELSE no)
End == /\ ph = "head" /\ ~Busy /\ (st.err # "" \/ Todo = {} \/ ~Cfg.finish)
       /\ LET O == IF Verdict(st) # "" \/ ~Cfg.finish THEN [s |-> st, good |-> <<>>, no |-> <<>>] ELSE Observe(st, AllObs, 1, <<>>, <<>>)
          IN PrintT(<<"@TG", ToJson([ops |-> ops, obs |-> O.good, no |-> O.no, err |-> Verdict(st), rd |-> O.s.rd,
                                     cs |-> SetToSeq({[c |-> c, rd |-> O.s.cs[c].rd] : c \in DOMAIN O.s.cs})])>>)
       /\ ph' = "end" /\ UNCHANGED <<st, ops, head, len, bad>>
Next == Choose \/ Write \/ Finish \/ End
ASSUME Cfg.tpl => PrintT(<<"@TPL", ToJson([t |-> Templates, m |-> MainDs, b |-> BusFields, c |-> Comps])>>)
Spec == Init /\ [][Next]_vars

(* the rules as invariants and step properties of the machine *)
RECURSIVE Sound(_)
Sound(W) == /\ W.val \subseteq W.def /\ W.def \subseteq DOMAIN W.ts /\ \A t \in W.val : W.ts[t] # NONE
            /\ \A f \in DOMAIN W.fs : Sound(W.fs[f])
AllSound == \A n \in DOMAIN st.w : Sound(st.w[n])
\* a value given by the user never changes
RECURSIVE Kept(_, _)
Kept(W, V) == /\ \A t \in W.val : t \in V.val /\ V.ts[t] = W.ts[t]
              /\ \A f \in DOMAIN W.fs : Kept(W.fs[f], V.fs[f])
ValuesStay == [][st'.err = "" => \A n \in DOMAIN st.w : Kept(st.w[n], st'.w[n])]_vars
\* a component runs only with every required tag: its inputs then carry them all
Required == \A c \in DOMAIN st.cs : st.cs[c].init => st.cs[c].un = {}
=============================================================================
