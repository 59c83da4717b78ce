------------------------------- MODULE Inputs -------------------------------
(* The input protocol of the generated witness programs.                     *)
(* An interface is a sequence of declarations [n, d, fs] (name, dimensions,  *)
(* fields of its bus or <<>>).  A behaviour builds one input object, key by  *)
(* key, varied at most dev times against the canonical object; the final  *)
(* action delivers it to the protocol machine, which takes the qualified     *)
(* keys one at a time (Take) and ends accepting, with the value of every     *)
(* input, or with an error.  Every behaviour is printed, to be replayed in   *)
(* the real programs.                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, TLCExt, SequencesExt, BigInt

In == JsonDeserialize(IOEnv.CASES)
Ifaces == In.ifaces          \* <<[id, decls, dev]>>
Table == In.values           \* <<[v: integer (decimal)]>>: number texts are those of the harness, v their values
P == In.p

Num == [t |-> "n", x |-> 0]
Bad == [t |-> "bad", x |-> 0]                  \* not a number
Arr(es) == [t |-> "a", es |-> es]
Obj(fs) == [t |-> "o", fs |-> fs]              \* <<[k, v]>>
Rep(k, x) == [i \in 1..k |-> x]
RECURSIVE Prod(_), Nest(_, _), Rev(_)
Prod(d) == IF d = <<>> THEN 1 ELSE d[1] * Prod(Tail(d))
Nest(d, x) == IF d = <<>> THEN x ELSE Arr(Rep(d[1], Nest(Tail(d), x)))
Rev(d) == IF d = <<>> THEN <<>> ELSE Append(Rev(Tail(d)), d[1])

-----------------------------------------------------------------------------
(* the qualified keys of an interface: <<[key, size, names]>>               *)
RECURSIVE Idxs(_), Flat(_), Keys(_, _)
Idxs(d) == IF d = <<>> THEN <<"">>
           ELSE LET R == Idxs(Tail(d)) IN
                [i \in 1..(d[1] * Len(R)) |-> "[" \o ToString((i - 1) \div Len(R)) \o "]" \o R[((i - 1) % Len(R)) + 1]]
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(Tail(ss))
Keys(pre, D) ==
  LET I == Idxs(D.d) k == pre \o D.n IN
  IF D.fs = <<>> THEN << [key |-> k, size |-> Prod(D.d), names |-> [i \in 1..Len(I) |-> k \o I[i]]] >>
  ELSE Flat([i \in 1..Len(I) |-> Flat([j \in 1..Len(D.fs) |-> Keys(k \o I[i] \o ".", D.fs[j])])])
AllKeys(ds) == Flat([i \in 1..Len(ds) |-> Keys("", ds[i])])

-----------------------------------------------------------------------------
(* what a user may write for a declaration: [v: tree or absent, c: deviations] *)
Absent == [t |-> "none"]
S(v, c) == [v |-> v, c |-> c]
RECURSIVE Canonical(_), Shapes(_)
Canonical(D) == Nest(D.d, IF D.fs = <<>> THEN Num ELSE Obj([j \in 1..Len(D.fs) |-> [k |-> D.fs[j].n, v |-> Canonical(D.fs[j])]]))
WithField(D, j, v) ==      \* one object with field j replaced
  LET f == [i \in 1..Len(D.fs) |-> [k |-> D.fs[i].n, v |-> IF i = j THEN v ELSE Canonical(D.fs[i])]]
  IN Obj(SelectSeq(f, LAMBDA e : e.v # Absent))
RECURSIVE PutFirst(_, _, _), PutLast(_, _, _)
\* the nest of x of dimensions d with its first (last) element replaced by y
PutFirst(d, x, y) == IF d = <<>> THEN y ELSE Arr([i \in 1..d[1] |-> IF i = 1 THEN PutFirst(Tail(d), x, y) ELSE Nest(Tail(d), x)])
PutLast(d, x, y) == IF d = <<>> THEN y ELSE Arr([i \in 1..d[1] |-> IF i = d[1] THEN PutLast(Tail(d), x, y) ELSE Nest(Tail(d), x)])
RECURSIVE Total(_), TotalF(_, _)
Total(D) == Prod(D.d) * (IF D.fs = <<>> THEN 1 ELSE TotalF(D.fs, 1))
TotalF(fs, i) == IF i > Len(fs) THEN 0 ELSE Total(fs[i]) + TotalF(fs, i + 1)
Shapes(D) ==
  LET n == Prod(D.d)
      can == S(Canonical(D), 0)
      one == IF D.fs = <<>> THEN Num ELSE Canonical([D EXCEPT !.d = <<>>])
  IN {can, S(Absent, 1), S(Arr(<<>>), 1), S(Obj(<<>>), 1), S(Obj(<<[k |-> "zz", v |-> Num]>>), 1)}
     \cup (IF D.fs = <<>>
           THEN {S(Arr(Rep(n, Num)), 1), S(Nest(Rev(D.d), Num), 1), S(Arr(<<Canonical(D)>>), 1),        \* the same values, grouped otherwise
                 S(Arr(Rep(n + 1, Num)), 1), S(Num, 1), S(Arr(<<Num, Obj(<<>>)>>), 1)}
                \cup (IF n > 0 THEN {S(Arr(Rep(n - 1, Num)), 1), S(PutFirst(D.d, Num, Bad), 1), S(PutLast(D.d, Num, Bad), 1),
                                     S(Arr(<<Num>> \o <<Arr(Rep(n - 1, Num))>>), 1)} ELSE {})
                \cup (IF D.d # <<>> /\ n > 0 THEN {S(Nest([D.d EXCEPT ![1] = @ + 1], Num), 1), S(Nest([D.d EXCEPT ![Len(D.d)] = @ - 1], Num), 1)} ELSE {})
           ELSE {S(Num, 1), S(Arr(Rep(n, Num)), 1), S(Arr(<<one, Num>>), 1)}
                \cup {S(Arr(Rep(Total(D) + x, Num)), 1) : x \in 0..1}
                \cup (IF Total(D) > 0 THEN {S(Arr(Rep(Total(D) - 1, Num)), 1), S(Arr(<<Arr(Rep(Total(D), Num))>>), 1), S(Arr(<<Bad>> \o Rep(Total(D) - 1, Num)), 1)} ELSE {})
                \cup (IF D.d # <<>> THEN {S(Nest([D.d EXCEPT ![1] = @ + 1], one), 1)} ELSE {S(Arr(<<one>>), 1)})
                \cup (IF D.d # <<>> /\ n > 0 THEN {S(Nest([D.d EXCEPT ![1] = @ - 1], one), 1)} ELSE {})
                \cup (IF n > 0 THEN UNION {{S(PutLast(D.d, one, WithField(D, j, s.v)), s.c) : s \in Shapes(D.fs[j])} : j \in 1..Len(D.fs)}
                                    \cup {S(PutFirst(D.d, one, Obj(Append(one.fs, [k |-> "zz", v |-> Num]))), 1)} ELSE {}))

-----------------------------------------------------------------------------
(* numbers get their texts in the order in which they appear                 *)
RECURSIVE Number(_, _), NumberSeq(_, _, _)
NumberSeq(vs, i, nx) ==      \* -> [vs, nx]
  IF i > Len(vs) THEN [vs |-> vs, nx |-> nx]
  ELSE LET r == Number(vs[i], nx) IN NumberSeq([vs EXCEPT ![i] = r.v], i + 1, r.nx)
Number(v, nx) ==
  CASE v.t = "n"   -> [v |-> [v EXCEPT !.x = nx], nx |-> nx + 1]
    [] v.t = "bad" -> [v |-> [v EXCEPT !.x = nx], nx |-> nx + 1]
    [] v.t = "a"   -> LET r == NumberSeq(v.es, 1, nx) IN [v |-> Arr(r.vs), nx |-> r.nx]
    [] v.t = "o"   -> LET r == NumberSeq([i \in 1..Len(v.fs) |-> v.fs[i].v], 1, nx)
                      IN [v |-> Obj([i \in 1..Len(v.fs) |-> [k |-> v.fs[i].k, v |-> r.vs[i]]]), nx |-> r.nx]

(* qualification: objects contribute ".field", arrays of objects "[i]"       *)
RECURSIVE Leaves(_), Qual(_, _), QualList(_, _)
Leaves(v) == IF v.t = "a" THEN Flat([i \in 1..Len(v.es) |-> Leaves(v.es[i])]) ELSE <<v>>
Kind(v) == IF v.t = "o" THEN "o" ELSE "n"
Qual(k, v) ==      \* -> <<[k, vs]>>, vs a sequence of leaves, or an entry with mixed = TRUE
  CASE v.t = "o" -> Flat([i \in 1..Len(v.fs) |-> Qual((IF k = "" THEN "" ELSE k \o ".") \o v.fs[i].k, v.fs[i].v)])
    [] v.t = "a" -> LET L == Leaves(v)
                    IN IF \E i, j \in 1..Len(L) : Kind(L[i]) # Kind(L[j]) THEN << [k |-> k, vs |-> <<>>, mixed |-> TRUE] >>
                       ELSE IF L # <<>> /\ Kind(L[1]) = "o" THEN QualList(k, v)
                       ELSE << [k |-> k, vs |-> L, mixed |-> FALSE] >>
    [] OTHER -> << [k |-> k, vs |-> <<v>>, mixed |-> FALSE] >>
QualList(k, v) == IF v.t = "a" THEN Flat([i \in 1..Len(v.es) |-> QualList(k \o "[" \o ToString(i - 1) \o "]", v.es[i])])
                  ELSE Qual(k, v)

-----------------------------------------------------------------------------
VARIABLES ifc, at, obj, dev, ord, ph, todo, got, err
vars == <<ifc, at, obj, dev, ord, ph, todo, got, err>>
Decls == Ifaces[ifc].decls
\* a bus or an array of buses may also be given as the flat array of all its signals, under the name of the declaration
Whole(Dd) == IF Dd.fs = <<>> THEN <<>>
             ELSE LET K == Keys("", Dd) N == Flat([i \in 1..Len(K) |-> K[i].names]) IN << [key |-> Dd.n, size |-> Len(N), names |-> N] >>
Wholes == TLCEval([k \in 1..Len(Ifaces) |-> TLCEval(Flat([j \in 1..Len(Ifaces[k].decls) |-> Whole(Ifaces[k].decls[j])]))])
Wants == TLCEval([k \in 1..Len(Ifaces) |-> TLCEval(AllKeys(Ifaces[k].decls))])
Writes == TLCEval([k \in 1..Len(Ifaces) |-> TLCEval([j \in 1..Len(Ifaces[k].decls) |-> Shapes(Ifaces[k].decls[j])])])
Want == Wants[ifc] \o Wholes[ifc]
Init == /\ ifc \in 1..Len(Ifaces) /\ ord \in {"asc", "desc"} /\ at = 1 /\ obj = <<>> /\ dev = 0
        /\ ph = "build" /\ todo = <<>> /\ got = <<>> /\ err = ""
Write == /\ ph = "build" /\ at <= Len(Decls)
         /\ \E s \in Writes[ifc][at] :
              /\ dev + s.c <= Ifaces[ifc].dev /\ dev' = dev + s.c
              /\ obj' = IF s.v = Absent THEN obj
                        ELSE IF ord = "asc" THEN Append(obj, [k |-> Decls[at].n, v |-> s.v]) ELSE <<[k |-> Decls[at].n, v |-> s.v]>> \o obj
         /\ at' = at + 1 /\ UNCHANGED <<ifc, ord, ph, todo, got, err>>
Extra == /\ ph = "build" /\ at = Len(Decls) + 1 /\ dev < Ifaces[ifc].dev
         /\ \E v \in {Num, Arr(<<Num>>), Arr(<<>>), Obj(<<[k |-> "g", v |-> Num]>>)} : obj' = Append(obj, [k |-> "unknown", v |-> v])
         /\ dev' = dev + 1 /\ at' = at + 1 /\ UNCHANGED <<ifc, ord, ph, todo, got, err>>
Deliver == /\ ph = "build" /\ at > Len(Decls)
           /\ obj' = Number(Obj(obj), 1).v.fs
           /\ todo' = Qual("", Obj(obj')) /\ ph' = "run"
           /\ UNCHANGED <<ifc, at, dev, ord, got, err>>
Take == /\ ph = "run" /\ todo # <<>> /\ err = ""
        /\ LET e == todo[1]
               ks == {k \in 1..Len(Want) : Want[k].key = e.k}
           IN IF e.mixed THEN err' = "mixed" /\ got' = got
              ELSE IF ks = {} THEN err' = "notfound" /\ got' = got
              ELSE LET k == Want[CHOOSE x \in ks : TRUE]
                   IN IF Len(e.vs) < k.size THEN err' = "few" /\ got' = got
                      ELSE IF Len(e.vs) > k.size THEN err' = "many" /\ got' = got
                      ELSE IF \E x \in 1..Len(e.vs) : e.vs[x].t # "n" THEN err' = "number" /\ got' = got
                      ELSE err' = "" /\ got' = got \o [x \in 1..Len(e.vs) |-> <<k.names[x], e.vs[x].x>>]
        /\ todo' = Tail(todo) /\ UNCHANGED <<ifc, at, obj, dev, ord, ph>>
Neededs == TLCEval([i \in 1..Len(Ifaces) |-> Flat([k \in 1..Len(Wants[i]) |-> Wants[i][k].names])])
Needed == Neededs[ifc]
Text(x) == Table[((x - 1) % Len(Table)) + 1]
End == /\ ph = "run" /\ (todo = <<>> \/ err # "")
       /\ LET e == IF err # "" THEN err ELSE IF Len(got) < Len(Needed) THEN "missing" ELSE ""
          IN PrintT(<<"@IN", ToJson([f |-> Ifaces[ifc].id, obj |-> obj, err |-> e,
                 vals |-> IF e # "" THEN <<>> ELSE [x \in 1..Len(got) |-> [n |-> got[x][1], v |-> BMod(Text(got[x][2]).v, P)]]])>>)
       /\ ph' = "end" /\ UNCHANGED <<ifc, at, obj, dev, ord, todo, got, err>>
Next == Write \/ Extra \/ Deliver \/ Take \/ End
\* what acceptance means: every input exactly once, nothing else
Accepted == ph = "end" /\ err = "" /\ Len(got) = Len(Needed)
Once == Accepted => \A x, y \in 1..Len(got) : got[x][1] = got[y][1] => x = y
Known == ph = "end" => \A x \in 1..Len(got) : \E y \in 1..Len(Needed) : Needed[y] = got[x][1]
Spec == Init /\ [][Next]_vars
=============================================================================
