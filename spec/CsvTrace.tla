------------------------------ MODULE CsvTrace -------------------------------
(* Judges recorded runs.  Fields and numbers are numbered: equal exactly when *)
(* they are the same text or the same bits.                                   *)
EXTENDS Csv, TLC, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, fs
Init == l = 1 /\ fs = <<>>
Good(e) == LET t == fs[e.f] IN
  CASE e.o = "load"  -> e.rows = t
    [] e.o = "load1" -> e.t1 = Times(t, 1) /\ e.v = Values(t, 1)
    [] e.o = "load2" -> e.t1 = Times(t, 1) /\ e.t2 = Times(t, 2) /\ e.v = Values(t, 2)
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l] IN
             IF e.o = "new" THEN fs' = [f \in 1..e.f |-> <<>>]
             ELSE IF e.o = "write" THEN fs' = [fs EXCEPT ![e.f] = e.rows]
             ELSE /\ fs' = fs
                  /\ (IF Good(e) THEN TRUE ELSE PrintT(ToJson([line |-> l]))) = TRUE
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
==============================================================================
