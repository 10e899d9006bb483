------------------------------- MODULE KeyGen -------------------------------
(* Threads that draw keys from one counter.  A draw is: acquire, read the    *)
(* counter, write it back plus one, release, return.  With Locked = FALSE    *)
(* acquire and release do nothing (used to see that uniqueness is not        *)
(* trivially true).                                                          *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Threads, Draws, Locked
VARIABLES pc, counter, holder, reg, got
vars == <<pc, counter, holder, reg, got>>
Free == 0
Init == /\ pc = [t \in Threads |-> "idle"] /\ counter = 0 /\ holder = Free
        /\ reg = [t \in Threads |-> 0] /\ got = [t \in Threads |-> <<>>]
Acquire(t) == /\ pc[t] = "idle" /\ Len(got[t]) < Draws
              /\ IF Locked THEN holder = Free /\ holder' = t ELSE holder' = holder
              /\ pc' = [pc EXCEPT ![t] = "in"] /\ UNCHANGED <<counter, reg, got>>
Read(t)    == /\ pc[t] = "in" /\ reg' = [reg EXCEPT ![t] = counter] /\ pc' = [pc EXCEPT ![t] = "read"] /\ UNCHANGED <<counter, holder, got>>
Write(t)   == /\ pc[t] = "read" /\ counter' = reg[t] + 1 /\ pc' = [pc EXCEPT ![t] = "wrote"] /\ UNCHANGED <<holder, reg, got>>
Release(t) == /\ pc[t] = "wrote" /\ holder' = (IF Locked THEN Free ELSE holder) /\ pc' = [pc EXCEPT ![t] = "out"] /\ UNCHANGED <<counter, reg, got>>
Return(t)  == /\ pc[t] = "out" /\ got' = [got EXCEPT ![t] = Append(@, reg[t] + 1)] /\ pc' = [pc EXCEPT ![t] = "idle"] /\ UNCHANGED <<counter, holder, reg>>
Step(t) == Acquire(t) \/ Read(t) \/ Write(t) \/ Release(t) \/ Return(t)
Finished == \A t \in Threads : pc[t] = "idle" /\ Len(got[t]) = Draws
Next == (\E t \in Threads : Step(t)) \/ (Finished /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : SF_vars(Step(t))

All == UNION {{<<t, i>> : i \in 1..Len(got[t])} : t \in Threads}
Unique == \A a, b \in All : a # b => got[a[1]][a[2]] # got[b[1]][b[2]]
Exclusive == Locked => Cardinality({t \in Threads : pc[t] \in {"in", "read", "wrote"}}) <= 1
Progress == <>Finished
=============================================================================
