------------------------------ MODULE KeyTrace ------------------------------
(* Judges recorded runs.  A line is [new, keys, kept]: keys handed out by    *)
(* one step (new = 1 starts another process), keys of coefficients that the  *)
(* step only touched.                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, seen
Init == l = 1 /\ seen = {}
Set(s) == {s[i] : i \in 1..Len(s)}
Good(e, old) == Cardinality(Set(e.keys)) = Len(e.keys) /\ Set(e.keys) \cap old = {} /\ Set(e.kept) \subseteq old
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l]  old == IF e.new = 1 THEN {} ELSE seen IN
             /\ seen' = old \cup Set(e.keys)
             /\ (IF Good(e, old) THEN TRUE ELSE PrintT(ToJson([line |-> l]))) = TRUE
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
