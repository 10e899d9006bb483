------------------------------ MODULE FitTrace ------------------------------
(* Validates recorded fits of real data.  Knot times are recorded as ranks,  *)
(* residuals of the conditions in units of the tolerance (0: met).           *)
EXTENDS Fit, TLC, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLE l
Init == l = 1
AllZero(s) == \A i \in 1..Len(s) : s[i] = 0
\* e.r: ret, n (splines), time, empty, dur, d, pos, vel, acc, v0, vT, a0, aT, line
Verdict(e) ==
  LET k == Len(e.ts) - 1
      m == Mode(e.n, e.ar, k)
  IN IF ~Accepts(e.ts)
     THEN [ret |-> e.r.ret = 0, empty |-> e.r.empty = 1 /\ e.r.n = 0, dur |-> e.r.dur0 = 1, time |-> e.r.time0 = 1]
     ELSE [ret |-> e.r.ret = 1, n |-> e.r.n = k, d |-> AllZero(e.r.d), dur |-> e.r.dur = 0, time |-> e.r.time0 = 1,
           pos |-> AllZero(e.r.pos),
           vel |-> m # "lin" => AllZero(e.r.vel),
           acc |-> m # "lin" => AllZero(e.r.acc),
           ends |-> m # "lin" => (e.r.v0 = 0 /\ e.r.vT = 0),
           enda |-> m = "acc" => (e.r.a0 = 0 /\ e.r.aT = 0),
           line |-> m = "lin" => AllZero(e.r.line)]
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l]  v == Verdict(e) IN
             (IF \A f \in DOMAIN v : v[f] THEN TRUE ELSE PrintT(ToJson([line |-> l, op |-> e, want |-> v]))) = TRUE
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
