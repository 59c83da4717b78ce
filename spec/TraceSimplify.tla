--------------------------- MODULE TraceSimplify ----------------------------
(* A recorded simplification is faithful: the unsimplified system and the    *)
(* simplified one together with the reported substitutions have the same     *)
(* normal form (Canon), over the numbering of the unsimplified signals, and  *)
(* no public signal or signal of a custom gate was removed.                  *)
(* CASES: [id, p, before, after: <<[A,B,C]>> of [w: signal, k],              *)
(*         subs: <<[s, e: <<[w,k]>>]>>, public: <<signals>>, kept: <<signals>>]   *)
EXTENDS Canon, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, ph, S, first
vars == <<c, ph, S, first>>
Case == Cases[c]
P == Case.p
Say(tag, x) == PrintT(<<tag, ToJson(x)>>)

RECURSIVE FormOf(_, _, _)
FormOf(l, j, acc) == IF j > Len(l) THEN Trim(acc)
  ELSE FormOf(l, j + 1, TLCEval((l[j].w :> FAdd(At(acc, l[j].w), l[j].k, P)) @@ acc))
Form(l) == FormOf(l, 1, None)
Sys(cs) == [j \in 1..Len(cs) |-> <<TLCEval(Form(cs[j][1])), TLCEval(Form(cs[j][2])), TLCEval(Form(cs[j][3]))>>]
Subs == [j \in 1..Len(Case.subs) |-> TLCEval(SubCons(Case.subs[j].s, Form(Case.subs[j].e), P))]

Init == c \in 1..Len(Cases) /\ ph = "before" /\ S = TLCEval(Start(Sys(Case.before))) /\ first = <<>>
Work == ph \in {"before", "after"} /\ UNCHANGED <<c, ph, first>>
        /\ IF S.todo # <<>> THEN S' = TLCEval(Absorb(S, P)) ELSE S.moved /\ S' = Again(S)
Settle1 == ph = "before" /\ Settled(S) /\ first' = [K |-> S.K, N |-> TLCEval(Products(S, P))] /\ ph' = "after"
           /\ S' = TLCEval(Start(Subs \o Sys(Case.after))) /\ UNCHANGED c
Seqs(f) == LET d == SetToSeq(DOMAIN f) IN [i \in 1..Len(d) |-> <<d[i], ToString(f[d[i]])>>]
Lost == LET k == {Case.kept[j] : j \in 1..Len(Case.kept)} IN {Case.public[j] : j \in 1..Len(Case.public)} \ k
Settle2 == ph = "after" /\ Settled(S) /\ ph' = "end" /\ UNCHANGED <<c, S, first>>
   /\ LET b == [K |-> S.K, N |-> TLCEval(Products(S, P))]
      IN /\ (Lost # {} => Say("@MIS", [id |-> Case.id, what |-> "public or gate signal removed", which |-> ToString(Lost)]))
         /\ (~Same(first, b) => Say("@MIS", [id |-> Case.id, what |-> "different solutions",
               lost |-> ToString(({<<"lin", x, first.K[x]>> : x \in DOMAIN first.K} \ {<<"lin", x, b.K[x]>> : x \in DOMAIN b.K})
                               \cup ({<<"quad", x, first.N[x]>> : x \in DOMAIN first.N} \ {<<"quad", x, b.N[x]>> : x \in DOMAIN b.N})),
               added |-> ToString(({<<"lin", x, b.K[x]>> : x \in DOMAIN b.K} \ {<<"lin", x, first.K[x]>> : x \in DOMAIN first.K})
                               \cup ({<<"quad", x, b.N[x]>> : x \in DOMAIN b.N} \ {<<"quad", x, first.N[x]>> : x \in DOMAIN first.N}))]))
         /\ Say("@DONE", [id |-> Case.id, contradictory |-> IF Impossible(first.K) THEN 1 ELSE 0, linear_consequences |-> Cardinality(DOMAIN first.K), products |-> Cardinality(DOMAIN first.N),
                          substitutions |-> Len(Case.subs), constraints_before |-> Len(Case.before), constraints_after |-> Len(Case.after)])
Next == Work \/ Settle1 \/ Settle2
Spec == Init /\ [][Next]_vars
=============================================================================
