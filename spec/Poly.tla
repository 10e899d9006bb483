-------------------------------- MODULE Poly --------------------------------
(* Polynomial splines over the integers.  A spline is                        *)
(*   [n, c, T, d] : order, integer coefficients (highest power first) in the *)
(*   normalised time t/T, and duration d;  s(t) = sum c_i (t/T)^i.           *)
(* All values are returned as numerators over the common denominator T^n,    *)
(* so that nothing is rounded.                                                *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)

RECURSIVE SumTo(_, _)
SumTo(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumTo(f, k - 1)
Sum(f) == SumTo(f, Len(f))

Coef(s, i) == s.c[s.n + 1 - i]              \* coefficient of the i-th power
Den(s) == Pow(s.T, s.n)
\* value, first and second derivative at t (not clamped), times Den(s)
PosNum(s, t) == Sum([j \in 1..(s.n + 1) |-> LET i == j - 1 IN Coef(s, i) * Pow(t, i) * Pow(s.T, s.n - i)])
VelNum(s, t) == Sum([j \in 1..s.n |-> LET i == j IN i * Coef(s, i) * Pow(t, i - 1) * Pow(s.T, s.n - i)])
AccNum(s, t) == IF s.n < 2 THEN 0
                ELSE Sum([j \in 1..(s.n - 1) |-> LET i == j + 1 IN i * (i - 1) * Coef(s, i) * Pow(t, i - 2) * Pow(s.T, s.n - i)])

Clamp(s, t) == IF t < 0 THEN 0 ELSE IF t > s.d THEN s.d ELSE t
\* what evaluation reports: <<p, v, a, denominator>>; the ends are held
Eval(s, t) == LET u == Clamp(s, t) IN <<PosNum(s, u), VelNum(s, u), AccNum(s, u), Den(s)>>

(* time vectors of order n at t, highest power first *)
Tau(n, t)   == [j \in 1..(n + 1) |-> Pow(t, n + 1 - j)]
DTau(n, t)  == [j \in 1..(n + 1) |-> LET i == n + 1 - j IN IF i < 1 THEN 0 ELSE i * Pow(t, i - 1)]
DDTau(n, t) == [j \in 1..(n + 1) |-> LET i == n + 1 - j IN IF i < 2 THEN 0 ELSE i * (i - 1) * Pow(t, i - 2)]
Dot(a, b) == Sum([j \in 1..Len(a) |-> a[j] * b[j]])

(* the spline of order n with the given boundary conditions; b.a0 and b.aT even *)
FromBoundary(n, b) ==
  LET T == b.T
      P0 == b.p0  P1 == b.pT  V0 == b.v0 * T  V1 == b.vT * T
      H0 == (b.a0 * T * T) \div 2   A1 == b.aT * T * T
      X == P1 - P0 - V0 - H0   Y == V1 - V0 - 2 * H0   Z == A1 - 2 * H0
      c == CASE n = 1 -> <<P1 - P0, P0>>
             [] n = 2 -> <<P1 - P0 - V0, V0, P0>>
             [] n = 3 -> <<2 * P0 - 2 * P1 + V0 + V1, 3 * P1 - 3 * P0 - 2 * V0 - V1, V0, P0>>
             [] n = 4 -> <<Y - 3 * X, 4 * X - Y, H0, V0, P0>>
             [] n = 5 -> <<6 * X - 3 * Y + Z \div 2, 7 * Y - 15 * X - Z, 10 * X - 4 * Y + Z \div 2, H0, V0, P0>>
  IN [n |-> n, c |-> c, T |-> T, d |-> T]

(* the conditions an order supports, as <<position, velocity, acceleration>> at 0 and at T *)
Meets(s, b) ==
  /\ s.d = b.T
  /\ PosNum(s, 0) = b.p0 * Den(s) /\ PosNum(s, s.d) = b.pT * Den(s)
  /\ s.n >= 2 => VelNum(s, 0) = b.v0 * Den(s)
  /\ s.n >= 3 => VelNum(s, s.d) = b.vT * Den(s)
  /\ s.n >= 4 => AccNum(s, 0) = b.a0 * Den(s)
  /\ s.n >= 5 => AccNum(s, s.d) = b.aT * Den(s)

(* straight line from p to q in time d, as a spline of order n *)
Line(n, p, q, d) == [n |-> n, c |-> [j \in 1..(n + 1) |-> IF j = n + 1 THEN p ELSE IF j = n THEN q - p ELSE 0], T |-> d, d |-> d]
=============================================================================
