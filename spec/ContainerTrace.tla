--------------------------- MODULE ContainerTrace ---------------------------
(* Validates recorded runs of real spline containers.  Values are recorded   *)
(* times the denominator 1 (integer splines, lines with integer slopes).     *)
EXTENDS Container, TLC, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, C, n
Init == l = 1 /\ C = EmptyC /\ n = 1

Whole(v) == <<v[1] \div v[4], v[2] \div v[4], v[3] \div v[4]>>
Clock(c) == LET o == ObsClock(c) IN <<o.dur, o.time, o.empty, o.n, o.idx, Whole(o.cur)>>
AtTime(c, t) == LET o == ObsAt(c, t) IN <<Whole(o[1]), o[2], o[3]>>

Expect(e, got, want) ==
  IF got = want THEN TRUE ELSE PrintT(ToJson([line |-> l, op |-> e, want |-> want]))
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
       CASE e.o = "new"   -> C' = EmptyC /\ n' = e.t
         [] e.o = "q_at"  -> Expect(e, e.r, AtTime(C, e.t)) = TRUE /\ UNCHANGED <<C, n>>
         [] e.o = "q_end" -> Expect(e, e.r, Whole(EndValue(C.spl))) = TRUE /\ UNCHANGED <<C, n>>
         [] OTHER -> LET r == ApplyC(C, n, e) IN
              /\ Expect(e, e.r, <<r.ret, Clock(r.C)>>) = TRUE
              /\ C' = r.C /\ n' = n
InvClock == ClockOK(C)
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
