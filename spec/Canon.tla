------------------------------- MODULE Canon --------------------------------
(* Systems of rank-1 constraints A*B = C over numbered signals, and their    *)
(* consequences.  A linear form is a function from signals (0 is the         *)
(* constant one) to non-zero coefficients.                                   *)
(*   Absorb  moves one constraint of a system: reduced by the linear         *)
(*           consequences K found so far, it is nothing, a new linear        *)
(*           consequence, or (still) a product.                              *)
(* When nothing moves any more, K is a reduced echelon basis (pivots are the *)
(* greatest signals), hence unique, and the products, reduced by K and put   *)
(* in echelon form over monomials, are unique too: two systems with the same *)
(* normal form have the same solutions.  Simplify.tla checks that on all     *)
(* small systems.                                                            *)
EXTENDS Field, FiniteSets, TLC, SequencesExt

None == [x \in {} |-> 0]
Trim(f) == LET D == {m \in DOMAIN f : f[m] # Zero} IN [m \in D |-> f[m]]
At(f, m) == IF m \in DOMAIN f THEN f[m] ELSE Zero
\* f + k*g
Axpy(f, k, g, p) == Trim([m \in (DOMAIN f) \cup (DOMAIN g) |-> FAdd(At(f, m), FMul(k, At(g, m), p), p)])
Scale(f, k, p) == Trim([m \in DOMAIN f |-> FMul(f[m], k, p)])
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x

\* --- reduced echelon bases: pivot |-> form with coefficient 1 at the pivot, its greatest key
RECURSIVE ReduceBy(_, _, _, _)
ReduceBy(f, piv, K, p) == IF piv = {} THEN f
  ELSE LET v == CHOOSE v \in piv : TRUE
       IN ReduceBy(TLCEval(Axpy(f, FNeg(f[v], p), K[v], p)), piv \ {v}, K, p)
Reduce(f, K, p) == ReduceBy(f, (DOMAIN f) \cap (DOMAIN K), K, p)
\* f non-zero and reduced
Insert(f, K, p) == LET v == MaxOf(DOMAIN f)
                       g == TLCEval(Scale(f, FInv(f[v], p), p))
                   IN TLCEval((v :> g) @@ [w \in DOMAIN K |-> IF v \in DOMAIN K[w] THEN Axpy(K[w], FNeg(K[w][v], p), g, p) ELSE K[w]])
RECURSIVE Echelon(_, _, _)
Echelon(fs, K, p) == IF fs = <<>> THEN K
  ELSE LET f == TLCEval(Reduce(fs[1], K, p))
       IN Echelon(Tail(fs), IF DOMAIN f = {} THEN K ELSE Insert(f, K, p), p)

\* --- polynomials of degree 2: keys are monomials a*B + b, a <= b (a = 0: the signal b itself)
B == 30000
Key(a, b) == IF a <= b THEN a * B + b ELSE b * B + a
RECURSIVE Expand(_, _, _, _, _)
Expand(acc, A, C, todo, p) == IF todo = {} THEN acc
  ELSE LET t == CHOOSE t \in todo : TRUE
           m == Key(t[1], t[2])
       IN Expand(TLCEval((m :> FAdd(At(acc, m), FMul(A[t[1]], C[t[2]], p), p)) @@ acc), A, C, todo \ {t}, p)
Poly(abc, p) == Trim(Axpy(Expand(None, abc[1], abc[2], (DOMAIN abc[1]) \X (DOMAIN abc[2]), p), FNeg(One, p), abc[3], p))
IsLinear(P) == \A m \in DOMAIN P : m < B
RedAbc(abc, K, p) == <<TLCEval(Reduce(abc[1], K, p)), TLCEval(Reduce(abc[2], K, p)), TLCEval(Reduce(abc[3], K, p))>>

\* --- the machine: S = [todo, kept, K, moved]
Start(sys) == [todo |-> sys, kept |-> <<>>, K |-> None, moved |-> FALSE]
Absorb(S, p) ==
  LET abc == TLCEval(RedAbc(S.todo[1], S.K, p))
      P == TLCEval(Poly(abc, p))
  IN IF DOMAIN P = {} THEN [S EXCEPT !.todo = Tail(@)]
     ELSE IF IsLinear(P) THEN [S EXCEPT !.todo = Tail(@), !.K = Insert(Reduce(P, @, p), @, p), !.moved = TRUE]
     ELSE [S EXCEPT !.todo = Tail(@), !.kept = Append(@, abc)]
Settled(S) == S.todo = <<>> /\ ~S.moved
Again(S) == [S EXCEPT !.todo = S.kept, !.kept = <<>>, !.moved = FALSE]
RECURSIVE Settle(_, _)
Settle(S, p) == IF S.todo # <<>> THEN Settle(TLCEval(Absorb(S, p)), p)
                ELSE IF S.moved THEN Settle(Again(S), p) ELSE S
Impossible(K) == 0 \in DOMAIN K
Products(S, p) == Echelon([j \in 1..Len(S.kept) |-> TLCEval(Poly(RedAbc(S.kept[j], S.K, p), p))], None, p)
NF(sys, p) == LET S == Settle(Start(sys), p) IN [K |-> S.K, N |-> Products(S, p)]
Same(a, b) == a = b \/ (Impossible(a.K) /\ Impossible(b.K))

\* a substitution s := e as a constraint (0 * 0 = s - e)
SubCons(s, e, p) == <<None, None, Axpy((s :> One), FNeg(One, p), e, p)>>
=============================================================================
