---------------------------- MODULE MessageTrace -----------------------------
(* Judges recorded calls with larger messages.  got is what the curve holds   *)
(* after the call, as the times and values of its knots.                      *)
EXTENDS Message, TLC, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLE l
TInit == Init /\ l = 1
Good(e) == ret' = e.ret /\ e.got.ts = cur'.ts /\ e.got.vs = cur'.vs
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l] IN
              /\ (IF e.o = "clr" THEN Clear ELSE Read(e.names, e.n, e.ts, e.g))
              /\ (IF Good(e) THEN TRUE ELSE PrintT(ToJson([line |-> l]))) = TRUE
Complete == TLCGet("stats").diameter - 1 = Len(Trace)
==============================================================================
