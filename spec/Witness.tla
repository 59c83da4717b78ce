------------------------------ MODULE Witness -------------------------------
(* An accepted witness satisfies the emitted constraint system.              *)
(* The verifier is a machine that walks through the constraints of the r1cs  *)
(* file, keeping the set of violated ones; the recorded witness (as returned *)
(* and as the .wtns file) is its input.  CASES: records of harness/art.py.   *)
EXTENDS Field, FiniteSets, TLC, Json, IOUtils, SequencesExt

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, r, i, bad
vars == <<c, r, i, bad>>
Case == Cases[c]
Wit == Case.wit[r]
Say(tag, x) == PrintT(<<tag, ToJson(x)>>)

RECURSIVE Dot(_, _, _, _, _)
Dot(l, w, j, acc, p) == IF j > Len(l) THEN acc
  ELSE Dot(l, w, j + 1, TLCEval(FAdd(acc, FMul(l[j].k, w[l[j].w + 1], p), p)), p)
InRange(l, w) == \A j \in 1..Len(l) : l[j].w >= 0 /\ l[j].w < Len(w)
Holds(abc, w, p) ==
  /\ \A j \in 1..3 : InRange(abc[j], w)
  /\ FMul(Dot(abc[1], w, 1, Zero, p), Dot(abc[2], w, 1, Zero, p), p) = Dot(abc[3], w, 1, Zero, p)

Readable == Case.acc /\ Case.broken = ""
\* what must hold of the witness before its values are looked at
Shape(w) == CASE Len(w.w) # Case.hdr.wires -> "length"
              [] w.w = <<>> \/ w.w[1] # One -> "one"
              [] \E j \in 1..Len(w.w) : ~BLt(w.w[j], Case.p) -> "range"
              [] w.bin.bad # "" -> "file"
              [] w.bin.version # 2 \/ w.bin.n # Len(w.w) \/ w.bin.prime # Case.p \/ w.bin.fs # Case.hdr.fs -> "file header"
              [] w.bin.w # w.w -> "file contents"
              [] OTHER -> ""

Init == /\ c \in 1..Len(Cases) /\ i = 0 /\ bad = {}
        /\ r \in (IF Readable THEN 1..Len(Case.wit) ELSE {}) \cup {0}
\* r = 0: the case as a whole
Open == /\ i = 0
        /\ IF r = 0
           THEN /\ (Case.broken # "" => Say("@MIS", [id |-> Case.id, what |-> "unreadable output", why |-> Case.broken]))
                /\ Say("@DONE", [id |-> Case.id, cases |-> 1]) /\ i' = -1
           ELSE IF ~Wit.ok THEN Say("@DONE", [id |-> Case.id, refused |-> 1, run |-> r]) /\ i' = -1
           ELSE LET s == Shape(Wit) IN
                IF s # "" THEN Say("@MIS", [id |-> Case.id, what |-> "witness " \o s, run |-> r]) /\ i' = -1
                ELSE i' = 1
        /\ UNCHANGED <<c, r, bad>>
Check == /\ i >= 1 /\ i <= Len(Case.cons)
         /\ bad' = IF Holds(Case.cons[i], Wit.w, Case.p) THEN bad ELSE bad \cup {i}
         /\ i' = i + 1 /\ UNCHANGED <<c, r>>
Close == /\ i > Len(Case.cons)
         /\ (bad # {} => Say("@MIS", [id |-> Case.id, what |-> "unsatisfied constraints", run |-> r, which |-> ToString(bad)]))
         /\ Say("@DONE", [id |-> Case.id, witnesses |-> 1, constraints_evaluated |-> Len(Case.cons), run |-> r])
         /\ i' = -1 /\ UNCHANGED <<c, r, bad>>
Next == Open \/ (i >= 1 /\ (Check \/ Close))
Spec == Init /\ [][Next]_vars
=============================================================================
