--------------------------- MODULE PolyCurveTrace ---------------------------
(* Validates recorded fits of scalar and vector curves to real data.  The     *)
(* residual of each condition is recorded in units of the tolerance (0: met). *)
(* A sample is placed relative to the knots: at = 2i on the i-th knot, 2i + 1 *)
(* between knots i and i + 1, 1 before the first, 2k + 1 after the last.      *)
EXTENDS Integers, Sequences, TLC, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLE l
Init == l = 1
\* e: k (number of knots), dim, range: residuals of both ends of both curves,
\* smp: sequence of [at, comp, knot, first, last, same, scalar]
\*   knot: distance to the knot value, first/last: distances to the requested derivatives there,
\*   hold: distance to the value at the nearest end, same: distance to the splines at the time since the first knot,
\*   scalar: distance of the component of the vector curve to the scalar curve
Before(s) == s.at = 1
After(e, s) == s.at = 2 * e.k + 1
OnKnot(s) == s.at % 2 = 0
Good(e, s) ==
  /\ s.comp \in 1..e.dim /\ s.at \in 1..(2 * e.k + 1)
  /\ OnKnot(s) => s.knot = 0
  /\ s.at = 2 => s.ends = 0
  /\ s.at = 2 * e.k => s.ends = 0
  /\ (Before(s) \/ After(e, s)) => s.hold = 0
  /\ s.same = 0
  /\ s.scalar = 0
Verdict(e) == {i \in 1..Len(e.smp) : ~Good(e, e.smp[i])}
Covered(e) == {s.at : s \in {e.smp[i] : i \in 1..Len(e.smp)}} = 1..(2 * e.k + 1)
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l] IN
             (IF Covered(e) /\ \A i \in 1..Len(e.range) : e.range[i] = 0 /\ Verdict(e) = {}
              THEN TRUE ELSE PrintT(ToJson([line |-> l, bad |-> Verdict(e)]))) = TRUE
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
