--------------------------- MODULE SamplingTrace ----------------------------
(* Validates recorded runs: a line is [op, obs].  For Hermite curves the      *)
(* velocities are fractions, so they are printed to be compared by value.    *)
EXTENDS Sampling, TLC, Json
CONSTANT Class
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, s
St(op) == IF Class = "slerp" THEN EmptyS(op.r) ELSE EmptyH(op.r, 0)
After(op) == IF op.o = "ratio0" THEN St(op) ELSE IF Class = "slerp" THEN ApplyS(s, op) ELSE ApplyHS(s, op)
Legal(op) == IF op.o = "ratio0" THEN TRUE ELSE IF Class = "slerp" THEN LegalS(s, op) ELSE LegalHS(s, op)
Obs(x) == IF Class = "slerp" THEN ObsS(x) ELSE [i \in 1..Len(ObsHS(x)) |-> [t |-> ObsHS(x)[i].t, v |-> ObsHS(x)[i].v]]
Init == l = 1 /\ s = EmptyS(1)
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l]  n == After(e.op) IN
             /\ Assert(Legal(e.op), <<"illegal operation generated", l>>)
             /\ s' = n
             /\ (Class = "hermite" => PrintT(ToJson([line |-> l, full |-> ObsHS(n)]))) = TRUE
             /\ (IF Obs(n) = e.obs THEN TRUE ELSE PrintT(ToJson([line |-> l, want |-> Obs(n)]))) = TRUE
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
