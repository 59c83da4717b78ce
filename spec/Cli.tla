-------------------------------- MODULE Cli --------------------------------
(* The command line program as a machine over a file system in which one operation may fail at any point:
   it reads its options and its input, checks the source, writes each output asked for (in any order, in blocks), says so, and ends. *)
EXTENDS CliDefs, Json
Blocks == 2
VARIABLES c, phase, done, cur, st, said, msg, okay, rc, fault
vars == <<c, phase, done, cur, st, said, msg, okay, rc, fault>>
Init == /\ c \in Cases /\ phase = "options" /\ done = {} /\ cur = "" /\ st = [o \in Outs |-> 0] /\ said = {}
        /\ msg = FALSE /\ okay = FALSE /\ rc = 9 /\ fault = FALSE
Keep == UNCHANGED <<c, done, cur, st, said, okay, fault>>
Fail == msg' = TRUE /\ rc' = 1 /\ phase' = "end"
Options == phase = "options" /\ Keep /\ IF OptionsOk(c) /\ InputOk(c) THEN phase' = "read" /\ UNCHANGED <<msg, rc>> ELSE Fail
Read == phase = "read" /\ Keep /\ phase' = "check" /\ UNCHANGED <<msg, rc>>
Check == phase = "check" /\ Keep /\ IF SourceOk(c) THEN phase' = "write" /\ UNCHANGED <<msg, rc>> ELSE Fail
Start == /\ phase = "write" /\ cur = "" /\ \E o \in c.want \ done : cur' = o
         /\ UNCHANGED <<c, phase, done, st, said, msg, okay, rc, fault>>
\* a block goes to the file, unless its place is taken
Write == /\ phase = "write" /\ cur # "" /\ st[cur] < Blocks
         /\ IF Blocked(c) /\ (c.block = cur \/ {c.block, cur} = {"wasm", "wat"}) THEN Fail /\ UNCHANGED st
            ELSE st' = [st EXCEPT ![cur] = @ + 1] /\ UNCHANGED <<phase, msg, rc>>
         /\ UNCHANGED <<c, done, cur, said, okay, fault>>
Close == /\ phase = "write" /\ cur # "" /\ st[cur] = Blocks /\ done' = done \cup {cur} /\ said' = said \cup {cur} /\ cur' = ""
         /\ UNCHANGED <<c, phase, st, msg, okay, rc, fault>>
Disk == /\ ~fault /\ phase \in {"read", "write"} /\ (phase = "write" => cur # "") /\ fault' = TRUE /\ Fail /\ UNCHANGED <<c, done, cur, st, said, okay>>
End == /\ phase = "write" /\ cur = "" /\ done = c.want /\ rc' = 0 /\ okay' = TRUE /\ phase' = "end" /\ UNCHANGED <<c, done, cur, st, said, msg, fault>>
Tell == /\ phase = "end" /\ phase' = "told"
        /\ IF fault THEN TRUE ELSE PrintT(<<"@CLI", ToJson([c |-> c, rc |-> rc, canon |-> Canon(c), files |-> IF rc = 0 THEN Required(c) ELSE {}])>>)
        /\ UNCHANGED <<c, done, cur, st, said, msg, okay, rc, fault>>
Next == Options \/ Read \/ Check \/ Start \/ Write \/ Close \/ Disk \/ End \/ Tell
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(Next)
\* status 0, and the success message, exactly when every output asked for is complete; otherwise a message
Honest == phase \in {"end", "told"} => /\ (rc = 0) = okay
                                       /\ (rc = 0) => (\A o \in c.want : st[o] = Blocks) /\ Valid(c)
                                       /\ (rc = 1) => msg /\ (fault \/ ~Valid(c))
Said == \A o \in said : st[o] = Blocks
=============================================================================
