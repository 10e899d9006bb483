-------------------------------- MODULE Pose --------------------------------
(* Rigid motions in exact arithmetic.  A rotation is an integer quaternion   *)
(* <<w, x, y, z>> of any length; two of them describe the same rotation if   *)
(* they are parallel.  A pose is [p, q].                                     *)
EXTENDS Hermite

QMul(a, b) == << a[1]*b[1] - a[2]*b[2] - a[3]*b[3] - a[4]*b[4],
                 a[1]*b[2] + a[2]*b[1] + a[3]*b[4] - a[4]*b[3],
                 a[1]*b[3] - a[2]*b[4] + a[3]*b[1] + a[4]*b[2],
                 a[1]*b[4] + a[2]*b[3] - a[3]*b[2] + a[4]*b[1] >>
QConj(a) == << a[1], 0 - a[2], 0 - a[3], 0 - a[4] >>
QNorm(a) == a[1]*a[1] + a[2]*a[2] + a[3]*a[3] + a[4]*a[4]
Unit == <<1, 0, 0, 0>>
\* N(q) times the rotated vector
RotN(q, v) == LET r == QMul(QMul(q, <<0, v[1], v[2], v[3]>>), QConj(q)) IN <<r[2], r[3], r[4]>>
\* rotations that keep the integer grid
OnGrid(q) == \A v \in {<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>} : \A i \in 1..3 : RotN(q, v)[i] % QNorm(q) = 0
Rot(q, v) == LET n == QNorm(q) r == RotN(q, v) IN <<r[1] \div n, r[2] \div n, r[3] \div n>>
SameRotation(a, b) == \A i, j \in 1..4 : a[i] * b[j] = a[j] * b[i]
Positive(q) == IF q[1] < 0 THEN <<0 - q[1], 0 - q[2], 0 - q[3], 0 - q[4]>> ELSE q

Vadd(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Vsub(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Compose(T, P) == [p |-> Vadd(T.p, Rot(T.q, P.p)), q |-> QMul(T.q, P.q)]

(* a knot of a pose curve: time, pose, linear velocity v/d, and the angular  *)
(* velocity, which is the vector w/d or the logarithm of the rotation r      *)
(* divided by d                                                              *)
Slope(tA, tB, A, B) == [v |-> Vsub(B.p, A.p), r |-> Positive(QMul(B.q, QConj(A.q))), w |-> <<0, 0, 0>>, d |-> tB - tA]
Given(v, w) == [v |-> v, r |-> Unit, w |-> w, d |-> 1]
PKnot(t, P, s) == [t |-> t, P |-> P, s |-> s]
PFitted(ts, Ps, s0, s1) ==
  [i \in 1..Len(ts) |-> IF i = 1 THEN PKnot(ts[1], Ps[1], s0) ELSE IF i = Len(ts) THEN PKnot(ts[i], Ps[i], s1)
                        ELSE PKnot(ts[i], Ps[i], Slope(ts[i - 1], ts[i + 1], Ps[i - 1], Ps[i + 1]))]
PSeam(ts, Ps) == LET n == Len(ts) IN Slope(ts[n - 1] - (ts[n] - ts[1]), ts[2], Ps[n - 1], Ps[2])
NoSlope == Given(<<0, 0, 0>>, <<0, 0, 0>>)
ApplyP(op) ==
  CASE op.o = "fit"  -> PFitted(op.ts, op.Ps, NoSlope, NoSlope)
    [] op.o = "fitd" -> PFitted(op.ts, op.Ps, Given(op.v0, op.w0), Given(op.v1, op.w1))
    [] op.o = "per"  -> PFitted(op.ts, op.Ps, PSeam(op.ts, op.Ps), PSeam(op.ts, op.Ps))
    [] op.o = "clr"  -> <<>>
(* no slope is a half turn, whose direction would be arbitrary *)
Definite(K) == \A i \in 1..Len(K) : K[i].s.r[1] # 0

(* coordinate j of the translation is a scalar curve *)
Coord(K, j) == [i \in 1..Len(K) |-> Knot(K[i].t, K[i].P.p[j], K[i].s.v[j], K[i].s.d)]

(* moving a curve *)
MoveSlope(T, s) == [s EXCEPT !.v = Rot(T.q, s.v), !.w = Rot(T.q, s.w), !.r = QMul(QMul(T.q, s.r), QConj(T.q))]
MoveOp(T, op) == [op EXCEPT !.Ps = [i \in 1..Len(@) |-> Compose(T, op.Ps[i])], !.v0 = Rot(T.q, @), !.v1 = Rot(T.q, @),
                            !.w0 = Rot(T.q, @), !.w1 = Rot(T.q, @)]
SameKnot(a, b) == /\ a.t = b.t /\ a.P.p = b.P.p /\ SameRotation(a.P.q, b.P.q)
                  /\ a.s.v = b.s.v /\ a.s.w = b.s.w /\ a.s.d = b.s.d /\ SameRotation(a.s.r, b.s.r)
Equivariant(T, op) == LET K == ApplyP(op) L == ApplyP(MoveOp(T, op)) IN
  /\ Len(K) = Len(L)
  /\ \A i \in 1..Len(K) : SameKnot(L[i], PKnot(K[i].t, Compose(T, K[i].P), MoveSlope(T, K[i].s)))
=============================================================================
