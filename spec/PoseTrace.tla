----------------------------- MODULE PoseTrace ------------------------------
(* Judges recorded evaluations of pose curves.  Each record holds, in        *)
(* billionths of the magnitude of the data, how far the evaluation is from   *)
(* each promise of the design:                                               *)
(*   unit    length of the quaternion                                        *)
(*   dlin    reported linear velocity against the change of the position     *)
(*   dang    reported angular velocity against the change of the rotation    *)
(*   jump    change of the pose across a knot                                *)
(*   kink    change of the twist across a knot                               *)
(*   knotp, knott  pose and twist at a knot against the fitted ones          *)
(*   movep, movet  a moved curve against the motion of the curve             *)
(* A record has the fields that apply to it.                                 *)
EXTENDS Integers, Sequences, TLC, Json
Trace == ndJsonDeserialize("trace.ndjson")
Bound == [unit |-> 10, dlin |-> 200, dang |-> 200, jump |-> 2000, kink |-> 2000, knotp |-> 10, knott |-> 20, movep |-> 20, movet |-> 20]
VARIABLE l
Init == l = 1
Broken(r) == {f \in DOMAIN r : r[f] < 0 \/ r[f] > Bound[f]}
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ (IF Broken(Trace[l].r) = {} THEN TRUE ELSE PrintT(ToJson([line |-> l, broken |-> Broken(Trace[l].r)]))) = TRUE
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
