------------------------------ MODULE Hermite ------------------------------
(* Cubic Hermite curves in exact arithmetic.  One scalar coordinate:         *)
(* a knot is [t, p, n, d]: time, position, velocity n/d (d > 0).             *)
(* A curve is the sequence of its knots in the order of their times.         *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt

Knot(t, p, n, d) == [t |-> t, p |-> p, n |-> n, d |-> d]

(* slope between the neighbours of knot i *)
Inner(ts, ps, i) == Knot(ts[i], ps[i], ps[i + 1] - ps[i - 1], ts[i + 1] - ts[i - 1])
Fitted(ts, ps, v0, v1) ==       \* v0, v1: [n, d]
  [i \in 1..Len(ts) |-> IF i = 1 THEN Knot(ts[1], ps[1], v0.n, v0.d)
                        ELSE IF i = Len(ts) THEN Knot(ts[i], ps[i], v1.n, v1.d)
                        ELSE Inner(ts, ps, i)]
(* the seam of a periodic curve: the slope between the second knot and the   *)
(* last but one, moved back by one period                                    *)
Seam(ts, ps) == LET n == Len(ts) IN
  [n |-> ps[2] - ps[n - 1], d |-> ts[2] - (ts[n - 1] - (ts[n] - ts[1]))]
Whole(v) == [n |-> v, d |-> 1]

(* operations on a curve *)
ApplyH(K, op) ==
  CASE op.o = "fit"  -> Fitted(op.ts, op.ps, Whole(0), Whole(0))
    [] op.o = "fitd" -> Fitted(op.ts, op.ps, Whole(op.v0), Whole(op.v1))
    [] op.o = "per"  -> Fitted(op.ts, op.ps, Seam(op.ts, op.ps), Seam(op.ts, op.ps))
    [] op.o = "clr"  -> <<>>

(* the segment in force at t: at an inner knot the later one *)
Covered(K, t) == Len(K) >= 2 /\ K[1].t <= t /\ t <= K[Len(K)].t
Seg(K, t) == LET c == {i \in 1..(Len(K) - 1) : K[i].t <= t} IN Max(c)

(* value and derivatives of segment i at t, as numerators over the common    *)
(* denominator SegDen; D is the length of the segment, u the time since its  *)
(* start                                                                     *)
Cube(x) == x * x * x
SegDen(K, i) == Cube(K[i + 1].t - K[i].t) * K[i].d * K[i + 1].d
SegPos(K, i, t) ==
  LET a == K[i]  b == K[i + 1]  D == b.t - a.t  u == t - a.t
  IN (a.p * (2 * Cube(u) - 3 * u * u * D + Cube(D)) + b.p * (3 * u * u * D - 2 * Cube(u))) * a.d * b.d
     + D * (a.n * b.d * (Cube(u) - 2 * u * u * D + u * D * D) + b.n * a.d * (Cube(u) - u * u * D))
SegVel(K, i, t) ==
  LET a == K[i]  b == K[i + 1]  D == b.t - a.t  u == t - a.t
  IN (a.p - b.p) * (6 * u * u - 6 * u * D) * a.d * b.d
     + D * (a.n * b.d * (3 * u * u - 4 * u * D + D * D) + b.n * a.d * (3 * u * u - 2 * u * D))
SegAcc(K, i, t) ==
  LET a == K[i]  b == K[i + 1]  D == b.t - a.t  u == t - a.t
  IN (a.p - b.p) * (12 * u - 6 * D) * a.d * b.d
     + D * (a.n * b.d * (6 * u - 4 * D) + b.n * a.d * (6 * u - 2 * D))

(* what evaluation reports: <<success of value, velocity, acceleration,      *)
(*                            numerators, denominator>>                      *)
EvalH(K, t) ==
  IF Covered(K, t)
  THEN LET i == Seg(K, t) IN <<1, 1, 1, SegPos(K, i, t), SegVel(K, i, t), SegAcc(K, i, t), SegDen(K, i)>>
  ELSE IF Len(K) = 1 /\ K[1].t = t THEN <<1, 1, 0, K[1].p * K[1].d, K[1].n, 0, K[1].d>>
  ELSE <<0, 0, 0, 0, 0, 0, 1>>

(* at an inner knot the second derivative jumps: the one before the jump, over its own denominator *)
EarlierAcc(K, t) == IF Covered(K, t) /\ Seg(K, t) > 1 /\ K[Seg(K, t)].t = t
                    THEN LET i == Seg(K, t) - 1 IN <<SegAcc(K, i, t), SegDen(K, i)>> ELSE <<>>

(* ---- what the design promises ------------------------------------------- *)
Segs(K) == 1..(Len(K) - 1)
PassesKnots(K) == \A i \in Segs(K) :
  /\ SegPos(K, i, K[i].t) = K[i].p * SegDen(K, i) /\ SegPos(K, i, K[i + 1].t) = K[i + 1].p * SegDen(K, i)
  /\ SegVel(K, i, K[i].t) * K[i].d = K[i].n * SegDen(K, i)
  /\ SegVel(K, i, K[i + 1].t) * K[i + 1].d = K[i + 1].n * SegDen(K, i)
(* exact for cubics: the second difference is the second derivative, the     *)
(* difference of velocities likewise, and the first difference is twice the  *)
(* velocity plus a third of the third derivative                             *)
Derivatives(K) == \A i \in Segs(K) : \A t \in K[i].t..K[i + 1].t :
  LET P(x) == SegPos(K, i, x)  V(x) == SegVel(K, i, x)  A(x) == SegAcc(K, i, x)
  IN /\ P(t + 1) - 2 * P(t) + P(t - 1) = A(t)
     /\ V(t + 1) - V(t - 1) = 2 * A(t)
     /\ 3 * (P(t + 1) - P(t - 1)) = 6 * V(t) + (A(t + 1) - A(t))
=============================================================================
