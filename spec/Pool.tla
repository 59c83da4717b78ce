-------------------------------- MODULE Pool --------------------------------
(* The thread pool of the simplifier: jobs (clusters) are taken by workers   *)
(* in any order, finish in any order and send their results through a        *)
(* channel; the collector takes what arrives and, once all have arrived,     *)
(* writes the results out.  The output must not depend on the schedule.      *)
(* ORDERED = TRUE is the rule the implementation follows (results are        *)
(* ordered by job); with FALSE (arrival order) TLC finds two schedules with  *)
(* different outputs, which is what the compiler did before commit 839be65.  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS JOBS, WORKERS, ORDERED
VARIABLES queue, running, channel, got, out
vars == <<queue, running, channel, got, out>>
Result(j) == <<j, 100 + j>>
Init == queue = [i \in 1..JOBS |-> i] /\ running = [w \in 1..WORKERS |-> 0] /\ channel = <<>> /\ got = <<>> /\ out = <<>>
Take(w) == running[w] = 0 /\ queue # <<>> /\ running' = [running EXCEPT ![w] = Head(queue)] /\ queue' = Tail(queue) /\ UNCHANGED <<channel, got, out>>
Send(w) == running[w] # 0 /\ channel' = Append(channel, Result(running[w])) /\ running' = [running EXCEPT ![w] = 0] /\ UNCHANGED <<queue, got, out>>
Idle == queue = <<>> /\ \A w \in 1..WORKERS : running[w] = 0      \* the pool is joined before collecting
Recv == Idle /\ channel # <<>> /\ got' = Append(got, Head(channel)) /\ channel' = Tail(channel) /\ UNCHANGED <<queue, running, out>>
ById == [i \in 1..JOBS |-> CHOOSE x \in {got[k] : k \in 1..JOBS} : x[1] = i]
Write == Idle /\ Len(got) = JOBS /\ out = <<>> /\ out' = (IF ORDERED THEN ById ELSE got) /\ UNCHANGED <<queue, running, channel, got>>
Next == (\E w \in 1..WORKERS : Take(w) \/ Send(w)) \/ Recv \/ Write
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Sequential == [i \in 1..JOBS |-> Result(i)]
Deterministic == out # <<>> => out = Sequential
NothingLost == Idle => Len(channel) + Len(got) = JOBS
Terminates == <>(out # <<>>)
=============================================================================
