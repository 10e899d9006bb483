-------------------------------- MODULE Fit --------------------------------
(* Fitting a container of splines of order n to knots.                       *)
(* op: [ar: number of boundary pairs asked for (2, 4 or 6 argument form),    *)
(*      ts, ps: knots, v0, vT, a0, aT: boundary derivatives]                 *)
EXTENDS Container

\* which conditions k splines of order n can meet
Mode(n, ar, k) ==
  CASE ar = 6 /\ 4 * k + 2 <= (n + 1) * k -> "acc"
    [] ar >= 4 /\ 4 * k <= (n + 1) * k    -> "vel"
    [] OTHER -> "lin"

Accepts(ts) == GoodKnots(ts)

(* What a fit promises, as a list of conditions.                              *)
Promise(n, op) ==
  IF ~Accepts(op.ts)
  THEN [ok |-> 0, mode |-> "none", dur |-> 0, d |-> <<>>, p |-> <<>>, smooth |-> 0, ev |-> 0, ea |-> 0]
  ELSE LET k == Len(op.ts) - 1
           m == Mode(n, op.ar, k)
       IN [ ok |-> 1, mode |-> m, dur |-> op.ts[k + 1] - op.ts[1],
            d  |-> [i \in 1..k |-> op.ts[i + 1] - op.ts[i]],
            p  |-> [i \in 1..k |-> <<op.ps[i], op.ps[i + 1]>>],     \* both ends of every spline
            smooth |-> B01(m # "lin"),                                \* velocity and acceleration continuous
            ev |-> B01(m # "lin"),                                    \* end velocities met
            ea |-> B01(m = "acc") ]                                   \* end accelerations met

(* Where the conditions leave no freedom the whole trajectory is known        *)
Exact(n, op) ==
  IF ~Accepts(op.ts) THEN <<>>
  ELSE LET k == Len(op.ts) - 1
           m == Mode(n, op.ar, k)
           b == [T |-> op.ts[2] - op.ts[1], p0 |-> op.ps[1], pT |-> op.ps[2], v0 |-> op.v0, vT |-> op.vT, a0 |-> op.a0, aT |-> op.aT]
       IN IF m = "lin" THEN FitLines(n, op.ts, op.ps).C.spl
          ELSE IF k = 1 /\ ((m = "vel" /\ n = 3) \/ (m = "acc" /\ n = 5)) THEN <<FromBoundary(n, b)>>
          ELSE <<>>
=============================================================================
