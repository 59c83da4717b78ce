------------------------------ MODULE TraceLang ------------------------------
(* Conformance of recorded compilations and witness computations with Lang.  *)
(* CASES names a JSON file: a sequence of records                            *)
(*   [id, p, prog,                                                           *)
(*    acc   : did the compiler accept,                                       *)
(*    cons  : <<[A,B,C]>> each a sequence of [s: signal name or "1", k],     *)
(*            of the unsimplified system (or <<>> and nocons = TRUE),        *)
(*    runs  : <<[inp: name -> value, ok, vals: name -> value, logs]>> ]      *)
(* Each behaviour elaborates one program step by step, compares verdict and  *)
(* constraints, then executes it on each recorded input, step by step, and   *)
(* compares outcome, signal values and log lines.                            *)
EXTENDS Static, Json, IOUtils, TLCExt

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, ph, st, pc
vars == <<c, ph, st, pc>>

Case == Cases[c]
Prog == Case.prog
Full(s) == [s EXCEPT !.prog = Prog]
Strip(s) == [s EXCEPT !.prog = <<>>]
Say(tag, r) == PrintT(<<tag, ToJson(r)>>)

RECURSIVE LinFrom(_, _, _, _)
LinFrom(l, i, acc, p) == IF i > Len(l) THEN acc
  ELSE LinFrom(l, i + 1, TLCEval(IF l[i].s = "1" THEN [acc EXCEPT !.k = FAdd(@, l[i].k, p)]
                         ELSE [acc EXCEPT !.c = (l[i].s :> FAdd(Coef(acc.c, l[i].s), l[i].k, p)) @@ @]), p)
ObsLin(l, p) == LinFrom(l, 1, Lin(EmptyF, Zero), p)
ObsPoly(abc, p) == PolyOf(Quad(ObsLin(abc[1], p), ObsLin(abc[2], p), LScale(ObsLin(abc[3], p), BSub(p, One), p)), p)

Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
Canons(ps, p) == SelectSeq([i \in 1..Len(ps) |-> TLCEval(Canon(ps[i], p))], LAMBDA q : DOMAIN q # {})
Extra(a, b) == {i \in 1..Len(a) : Count(a, a[i]) > Count(b, a[i])}     \* positions of a in excess of b

Decidable(e) == e \notin DontCare
\* a program whose rejection the language leaves open (Static): not judged when
\* rejected, and when names are ambiguous not judged at all
Open(s) == Case.static /\ s.err = "" /\ ("shadow" \in Static(Prog).open \/ (~Case.acc /\ Static(Prog).open # {}))
CheckC(s) ==
  IF ~Decidable(s.err) \/ Open(s) THEN Say("@CASE", [id |-> Case.id, err |-> IF s.err = "" THEN "dcopen" ELSE s.err])
  ELSE IF (s.err = "") # Case.acc
  THEN Say("@MIS", [id |-> Case.id, what |-> "verdict", expected |-> s.err, observed |-> Case.acc])
  ELSE IF s.err # "" \/ Case.nocons THEN Say("@CASE", [id |-> Case.id, err |-> s.err])
  ELSE LET o == TLCEval(Canons([i \in 1..Len(Case.cons) |-> TLCEval(ObsPoly(Case.cons[i], Case.p))], Case.p))
           e == TLCEval(Canons(s.cons, Case.p))
           x1 == Extra(e, o)
           x2 == Extra(o, e)
       IN IF x1 = {} /\ x2 = {} THEN Say("@CASE", [id |-> Case.id, err |-> "", cons |-> Len(e)])
          ELSE Say("@MIS", [id |-> Case.id, what |-> "constraints", missing |-> ToString({e[i] : i \in x1}),
                            unexpected |-> ToString({o[i] : i \in x2})])

\* in programs with anonymous components the order among the inputs of one component is open
SameLogs(a, b) == IF "bag" \in DOMAIN Case THEN Len(a) = Len(b) /\ Extra(a, b) = {} ELSE a = b
CheckR(s, r) ==
  LET R == Case.runs[r]
      D == (DOMAIN R.vals) \cap (DOMAIN s.sig)
      bad == {n \in D : R.vals[n] # s.sig[n]}
  \* an index out of bounds that depends on the inputs is not checked at run time
  IN IF ~Decidable(s.err) \/ s.err = "oob" THEN Say("@RUN", [id |-> Case.id, run |-> r, err |-> s.err])
     ELSE IF (s.err = "") # R.ok THEN Say("@MIS", [id |-> Case.id, what |-> "run", run |-> r, expected |-> s.err, observed |-> R.ok])
     ELSE IF s.err # "" THEN Say("@RUN", [id |-> Case.id, run |-> r, err |-> s.err])
     ELSE IF bad # {} THEN Say("@MIS", [id |-> Case.id, what |-> "values", run |-> r,
             expected |-> [n \in bad |-> s.sig[n]], observed |-> [n \in bad |-> R.vals[n]]])
     ELSE IF Case.logs /\ ~SameLogs(s.logs, R.logs) THEN Say("@MIS", [id |-> Case.id, what |-> "logs", run |-> r, expected |-> s.logs, observed |-> R.logs])
     ELSE Say("@RUN", [id |-> Case.id, run |-> r, err |-> "", vals |-> Cardinality(D)])

StartRun(r) == IF r > Len(Case.runs) THEN [done |-> TRUE]
               ELSE Strip(Begin(Prog, "R", Case.p, Case.runs[r].inp))

StartC(C) == LET x == TLCEval(IF C.static THEN Static(C.prog) ELSE [e |-> {}, open |-> {}])
             IN IF x.e # {} THEN [err |-> "static:" \o ToString(x.e)]
                ELSE IF "shadow" \in x.open THEN [err |-> "dcshadow"]
                ELSE Strip(Begin(C.prog, "C", C.p, EmptyF))
Init == c \in 1..Len(Cases) /\ ph = 0 /\ pc = 1 /\ st = StartC(Cases[c])

Execute == /\ ph <= Len(Case.runs) /\ st.err = "" /\ pc <= Len(Body(Prog))
           /\ st' = Strip(Exec(Body(Prog)[pc], Full(st))) /\ pc' = pc + 1 /\ UNCHANGED <<c, ph>>
Complete == /\ ph <= Len(Case.runs) /\ (IF st.err # "" THEN TRUE ELSE pc > Len(Body(Prog)))
            /\ LET s == TLCEval(Finish(st)) IN IF ph = 0 THEN CheckC(s) ELSE CheckR(s, ph)
            /\ ph' = IF ph = 0 /\ st.err # "" THEN Len(Case.runs) + 1 ELSE ph + 1
            /\ pc' = 1 /\ UNCHANGED c
            /\ st' = IF ph' > Len(Case.runs) THEN [err |-> "end"] ELSE StartRun(ph')
Next == Execute \/ Complete
Spec == Init /\ [][Next]_vars
=============================================================================
