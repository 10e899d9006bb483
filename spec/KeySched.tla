------------------------------ MODULE KeySched ------------------------------
(* All schedules of the steps of KeyGen without its lock: which thread goes  *)
(* next.  The real generator is driven through each of them; where its own   *)
(* lock does not let a thread go, the next one goes.                         *)
EXTENDS KeyGen, TLC, Json
CONSTANT MaxSched
VARIABLE sched
SInit == Init /\ sched = <<>>
SNext == \E t \in Threads : Step(t) /\ sched' = Append(sched, t)
Complete == Finished => PrintT(ToJson([sched |-> sched]))
=============================================================================
