----------------------------- MODULE TraceRuns ------------------------------
(* Recorded compilations of the same sources under different circumstances.  *)
(* The compiler is a function: the first run of a (source, options) pair     *)
(* fixes verdict and artifacts, every later one must repeat them.            *)
(* CASES: [id, runs: <<[how, rc, files: name |-> digest]>>]                  *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, r, known
vars == <<c, r, known>>
Say(tag, x) == PrintT(<<tag, ToJson(x)>>)
Init == c \in 1..Len(Cases) /\ r = 0 /\ known = <<>>
Runs == Cases[c].runs
Differ(a, b) == {f \in DOMAIN a.files \cup DOMAIN b.files : f \notin DOMAIN a.files \/ f \notin DOMAIN b.files \/ a.files[f] # b.files[f]}
Run == /\ r < Len(Runs) /\ r' = r + 1 /\ UNCHANGED c
       /\ known' = IF r = 0 THEN Runs[1] ELSE known
       /\ IF r = 0 THEN TRUE
          ELSE IF Runs[r + 1].rc # known.rc
          THEN Say("@MIS", [id |-> Cases[c].id, what |-> "verdict differs", how |-> Runs[r + 1].how, expected |-> known.rc, observed |-> Runs[r + 1].rc])
          ELSE IF Differ(known, Runs[r + 1]) # {}
          THEN Say("@MIS", [id |-> Cases[c].id, what |-> "artifacts differ", how |-> Runs[r + 1].how, which |-> ToString(Differ(known, Runs[r + 1]))])
          ELSE TRUE
       /\ (r' = Len(Runs) => Say("@DONE", [id |-> Cases[c].id, runs |-> r', artifacts |-> Len(Runs) * Cases[c].files]))
Next == Run
Spec == Init /\ [][Next]_vars
=============================================================================
