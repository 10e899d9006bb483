----------------------------- MODULE Container -----------------------------
(* Sequence of splines with a clock.  State C:                               *)
(*   spl: splines, time: clock, idx: active spline (Len+1: past the end),    *)
(*   off: start of the active spline.                                        *)
(* The clock advances incrementally; that it agrees with evaluation by time  *)
(* is an invariant, not an assumption.                                       *)
EXTENDS Poly

EmptyC == [spl |-> <<>>, time |-> 0, idx |-> 1, off |-> 0]

RECURSIVE Start(_, _)
Start(spl, i) == IF i <= 1 THEN 0 ELSE Start(spl, i - 1) + spl[i - 1].d
Total(spl) == Start(spl, Len(spl) + 1)

\* the spline in force at t: a junction belongs to the later one, the first
\* and the last are in force before and after
IndexAt(spl, t) ==
  LET later == {i \in 1..Len(spl) : t < Start(spl, i + 1)}
  IN IF later = {} THEN Len(spl) ELSE Min(later)

\* the spline in force just before t
IndexBefore(spl, t) ==
  LET later == {i \in 1..Len(spl) : t <= Start(spl, i + 1)}
  IN IF later = {} THEN Len(spl) ELSE Min(later)

ValueAt(spl, t) == IF spl = <<>> THEN <<0, 0, 0, 1>>
                   ELSE LET i == IndexAt(spl, t) IN Eval(spl[i], t - Start(spl, i))
ValueBefore(spl, t) == IF spl = <<>> THEN <<0, 0, 0, 1>>
                       ELSE LET i == IndexBefore(spl, t) IN Eval(spl[i], t - Start(spl, i))
EndValue(spl)   == IF spl = <<>> THEN <<0, 0, 0, 1>> ELSE Eval(spl[Len(spl)], spl[Len(spl)].d)

\* what the clock reports
Active(C)  == IF C.idx > Len(C.spl) THEN Len(C.spl) ELSE C.idx
Current(C) == IF C.spl = <<>> THEN <<0, 0, 0, 1>> ELSE Eval(C.spl[Active(C)], C.time - C.off)

B01(b) == IF b THEN 1 ELSE 0
Rr(C, ret) == [C |-> C, ret |-> ret]

Retime(C, t) == IF C.spl = <<>> THEN [C EXCEPT !.time = t]
                ELSE LET i == IndexAt(C.spl, t) IN [C EXCEPT !.time = t, !.idx = i, !.off = Start(C.spl, i)]

AddSpline(C, s) == Rr(Retime([C EXCEPT !.spl = Append(@, s)], C.time), 1)

RECURSIVE Catch(_)
Catch(C) == IF C.idx <= Len(C.spl) /\ C.time - C.off >= C.spl[IF C.idx > Len(C.spl) THEN Len(C.spl) ELSE C.idx].d
            THEN Catch([C EXCEPT !.off = IF C.idx < Len(C.spl) THEN @ + C.spl[C.idx].d ELSE @, !.idx = @ + 1])
            ELSE C
Advance(C, dt) ==
  IF C.spl = <<>> THEN Rr(C, 0)
  ELSE IF C.time >= Total(C.spl) THEN Rr(C, 0)
  ELSE Rr(Catch([C EXCEPT !.time = @ + dt]), 1)

\* fitting to knots with straight lines
GoodKnots(ts) == Len(ts) >= 2 /\ \A i \in 1..(Len(ts) - 1) : ts[i] < ts[i + 1]
FitLines(n, ts, ps) ==
  IF GoodKnots(ts)
  THEN Rr([EmptyC EXCEPT !.spl = [i \in 1..(Len(ts) - 1) |-> Line(n, ps[i], ps[i + 1], ts[i + 1] - ts[i])]], 1)
  ELSE Rr(EmptyC, 0)

ApplyC(C, n, op) ==
  CASE op.o = "add"  -> AddSpline(C, [n |-> n, c |-> op.c, T |-> 1, d |-> op.d])
    [] op.o = "adv"  -> Advance(C, op.t)
    [] op.o = "set"  -> Rr(Retime(C, op.t), 1)
    [] op.o = "rst"  -> Rr(EmptyC, 1)
    [] op.o = "rstT" -> Rr([C EXCEPT !.time = 0, !.idx = 1, !.off = 0], 1)
    [] op.o = "fit"  -> FitLines(n, op.ts, op.ps)

(* ---- properties of the design ------------------------------------------- *)
ClockOK(C) ==
  C.spl # <<>> =>
    /\ Current(C) = ValueAt(C.spl, C.time)
    /\ C.time < Total(C.spl) => C.idx = IndexAt(C.spl, C.time)
    /\ C.off = Start(C.spl, Active(C))
\* just before a time inside an interval is that interval; only at the end of
\* one of them do the two differ, and there by one
BeforeOK(C, t) == C.spl # <<>> =>
  LET i == IndexAt(C.spl, t) j == IndexBefore(C.spl, t)
  IN IF \E k \in 2..Len(C.spl) : Start(C.spl, k) = t THEN i = j + 1 ELSE i = j /\ ValueAt(C.spl, t) = ValueBefore(C.spl, t)
EndOK(C) == C.spl # <<>> => EndValue(C.spl) = ValueAt(C.spl, Total(C.spl))

\* the self check: the clock lies on the trajectory and every spline is sound
\* (bad: splines with a negative duration or a coefficient that is no number)
Sound(C, bad) == C.time >= 0 /\ C.time <= Total(C.spl) /\ bad = {}

(* ---- observations ---------------------------------------------------------- *)
ObsClock(C) == [ dur |-> Total(C.spl), time |-> C.time, empty |-> IF C.spl = <<>> THEN 1 ELSE 0,
                 n |-> Len(C.spl),
                 idx |-> Active(C) - 1,
                 chk |-> B01(Sound(C, {})),
                 cur |-> Current(C) ]
ObsAt(C, t) == LET i == IF C.spl = <<>> THEN 0 ELSE IndexAt(C.spl, t)
               IN <<ValueAt(C.spl, t), i - 1, Start(C.spl, i)>>
ObsBefore(C, t) == LET i == IF C.spl = <<>> THEN 0 ELSE IndexBefore(C.spl, t)
                   IN <<ValueBefore(C.spl, t), i - 1, Start(C.spl, i)>>
=============================================================================
