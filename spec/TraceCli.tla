------------------------------ MODULE TraceCli ------------------------------
(* Recorded runs of the real program against Cli: every file system operation it made, in order, with its result, and what was there afterwards.
   Outputs may be produced in any order; what binds is that a failed operation is never followed by success, that what is reported as
   written is complete and not touched again, and that the status is that of CliDefs. *)
EXTENDS CliDefs, Json, IOUtils, SequencesExt
Runs == JsonDeserialize(IOEnv.RUNS)
Set(s) == {s[i] : i \in 1..Len(s)}
C(r) == [want |-> Set(r.c.want), prime |-> r.c.prime, level |-> r.c.level, sanity |-> r.c.sanity, noasm |-> r.c.noasm, out |-> r.c.out, input |-> r.c.input,
         src |-> r.c.src, stem |-> r.c.stem, more |-> Set(r.c.more), block |-> r.c.block, stale |-> r.c.stale]
VARIABLES k, i, s
vars == <<k, i, s>>
Run == Runs[k]
Init == k \in 1..Len(Runs) /\ i = 0 /\ s = [fault |-> FALSE, hurt |-> {}, said |-> {}, okay |-> FALSE, msg |-> FALSE, bad |-> ""]
Bad(t, x) == IF t.bad = "" THEN [t EXCEPT !.bad = x] ELSE t
Step(t, e) ==
  CASE e.op \in {"create", "write", "rm", "mkdir"} ->
         LET u == IF e.ok THEN t ELSE [t EXCEPT !.fault = TRUE, !.hurt = @ \cup {e.file}]
         IN IF e.file \in t.said /\ e.op # "rm" THEN Bad(u, "changed after it was reported as written") ELSE u
    [] e.op = "read" -> IF e.ok THEN t ELSE [t EXCEPT !.fault = TRUE]
    [] e.op = "say" -> [t EXCEPT !.said = @ \cup {e.file}]
    [] e.op = "okay" -> [t EXCEPT !.okay = TRUE]
    [] e.op = "message" -> [t EXCEPT !.msg = TRUE]
    [] OTHER -> t
Final(r, f) == LET q == {j \in 1..Len(r.final) : r.final[j].file = f} IN IF q = {} THEN "absent" ELSE r.final[CHOOSE j \in q : TRUE].state
Judge(r, t) ==
  LET c == C(r) known == r.c.src # "any"
      missing == {f \in Required(c) : Final(r, f) # "same"}
      lies == {f \in t.said : Final(r, f) # "same"}
      strays == {r.final[j].file : j \in 1..Len(r.final)} \ Allowed(c)
  IN CASE t.bad # "" -> t.bad
       [] r.rc = "timeout" -> IF known THEN "does not end" ELSE ""
       [] r.rc \notin {"0", "1"} -> "crash"
       [] (r.rc = "0") # t.okay -> IF t.okay THEN "success reported with exit status 1" ELSE "exit status 0 without success"
       [] r.rc = "1" /\ ~t.msg -> "no error message"
       [] r.rc = "0" /\ missing # {} -> "exit status 0 but missing or incomplete: " \o ToString(missing)
       [] lies # {} -> "reported as written but missing or incomplete: " \o ToString(lies)
       [] r.rc = "0" /\ strays # {} -> "wrote files not asked for: " \o ToString(strays)
       [] r.damaged # <<>> -> "changed other files: " \o ToString(r.damaged)
       [] known /\ r.rc = "0" /\ ~Valid(c) -> "exit status 0 although the options, the input or the source are wrong"
       [] known /\ r.rc = "1" /\ Valid(c) /\ ~t.fault -> "exit status 1 although nothing is wrong"
       [] OTHER -> ""
Next == \/ i < Len(Run.events) /\ i' = i + 1 /\ s' = Step(s, Run.events[i + 1]) /\ k' = k
        \/ /\ i = Len(Run.events) /\ i' = i + 1 /\ UNCHANGED <<k, s>>
           /\ PrintT(<<"@RUN", ToJson([id |-> Run.id, bad |-> Judge(Run, s), fault |-> s.fault])>>)
Spec == Init /\ [][Next]_vars
=============================================================================
