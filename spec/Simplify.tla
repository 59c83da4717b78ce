------------------------------ MODULE Simplify ------------------------------
(* Simplification as a nondeterministic machine: while some constraint is    *)
(* linear and mentions a signal that may be removed, solve it for that       *)
(* signal, substitute everywhere (constraints and earlier substitutions) and *)
(* drop constraints that became trivial or duplicate another.  Which signal, *)
(* in which order, how often: any choice is allowed, as any of circom's      *)
(* strategies (equalities first, clusters, rounds) is one of them.           *)
(* Checked exhaustively over all small systems at a tiny prime: every        *)
(* reachable state has the solutions of the original system (Faithful), and  *)
(* Canon, which the trace checks rely on, recognises it (Recognised) and     *)
(* recognises nothing with other solutions (Discerning).                     *)
EXTENDS Canon, IOUtils
CONSTANTS PRIME, NSIG, NCONS, FORBIDDEN
p == PRIME
Sigs == 1..NSIG
Forms == {Trim(f) : f \in [0..NSIG -> 0..(p - 1)]}
Thin == {f \in Forms : Cardinality(DOMAIN f) <= 2}
Prod2 == {<<f, g, h>> : f \in {x \in Thin : DOMAIN x # {} /\ 0 \notin DOMAIN x}, g \in {x \in Thin : Cardinality(DOMAIN x) = 1}, h \in {x \in Thin : Cardinality(DOMAIN x) = 1}}
LinC == {<<None, None, h>> : h \in Forms \ {None}}

VARIABLES orig, cons, sub
vars == <<orig, cons, sub>>

Val(f, a) == LET RECURSIVE go(_) go(S) == IF S = {} THEN 0 ELSE LET m == CHOOSE m \in S : TRUE IN FAdd(FMul(f[m], IF m = 0 THEN 1 ELSE a[m], p), go(S \ {m}), p) IN go(DOMAIN f)
Sat(abc, a) == FMul(Val(abc[1], a), Val(abc[2], a), p) = Val(abc[3], a)
Points == [Sigs -> 0..(p - 1)]
Sols(cs) == {a \in Points : \A i \in 1..Len(cs) : Sat(cs[i], a)}

Solve(h, s) == Axpy((s :> One), FNeg(FInv(h[s], p), p), h, p)     \* s = this, from h = 0
Subst(f, s, e) == IF s \in DOMAIN f THEN Axpy([m \in DOMAIN f \ {s} |-> f[m]], f[s], e, p) ELSE f
SubstC(abc, s, e) == <<Subst(abc[1], s, e), Subst(abc[2], s, e), Subst(abc[3], s, e)>>
Trivial(abc) == DOMAIN Poly(abc, p) = {}
Norm(abc) == LET P == Poly(abc, p) IN IF IsLinear(P) THEN <<None, None, P>> ELSE abc
Clean(cs) == LET ns == [i \in 1..Len(cs) |-> Norm(cs[i])]
             IN SelectSeq([i \in 1..Len(ns) |-> IF \E j \in 1..(i - 1) : ns[j] = ns[i] THEN <<None, None, None>> ELSE ns[i]],
                          LAMBDA x : ~Trivial(x))

Init == /\ orig \in [1..NCONS -> LinC \cup Prod2] /\ \E i \in 1..NCONS : orig[i] \in LinC
        /\ cons = Clean(orig) /\ sub = None
Eliminate == \E i \in 1..Len(cons) : \E s \in Sigs \ FORBIDDEN :
   /\ DOMAIN cons[i][1] = {} \/ DOMAIN cons[i][2] = {}
   /\ s \in DOMAIN cons[i][3]
   /\ LET e == Solve(cons[i][3], s)
      IN /\ cons' = Clean([j \in 1..Len(cons) |-> SubstC(cons[j], s, e)])
         /\ sub' = (s :> e) @@ [t \in DOMAIN sub |-> Subst(sub[t], s, e)]
   /\ UNCHANGED orig
Next == Eliminate
Spec == Init /\ [][Next]_vars

Extended(a) == [s \in Sigs |-> IF s \in DOMAIN sub THEN Val(sub[s], a) ELSE a[s]]
Faithful == Sols(orig) = {Extended(a) : a \in Sols(cons)}
SubSys == cons \o [j \in 1..Cardinality(DOMAIN sub) |-> LET s == SetToSeq(DOMAIN sub)[j] IN SubCons(s, sub[s], p)]
Recognised == Same(NF(orig, p), NF(SubSys, p))
KeepsForbidden == DOMAIN sub \cap FORBIDDEN = {}
\* changing one coefficient of one constraint is noticed whenever it matters
Spoilt == {[cons EXCEPT ![i] = <<@[1], @[2], Axpy(@[3], 1, (s :> 1), p)>>] : i \in 1..Len(cons), s \in (0..NSIG) \ DOMAIN sub}
Discerning == \A cs \in Spoilt : Same(NF(orig, p), NF(cs \o SubSeq(SubSys, Len(cons) + 1, Len(SubSys)), p))
                 => Sols(orig) = {Extended(a) : a \in Sols(cs)}
=============================================================================
