----------------------------- MODULE PolyCurve -----------------------------
(* Scalar curve of quintic splines on its own time axis.                     *)
(* State: [spl: known splines (or <<>>), min, knots, b: end derivatives]     *)
EXTENDS Fit

NoData == [kind |-> "none", min |-> 0, max |-> 0, ts |-> <<>>, ps |-> <<>>, b |-> <<>>, spl |-> <<>>]
KnotOp(op) == [o |-> "fit", ar |-> 6, ts |-> op.ts, ps |-> op.ps, v0 |-> op.b[1], vT |-> op.b[2], a0 |-> op.b[3], aT |-> op.b[4]]
FromKnots(op) == [kind |-> "knots", min |-> op.ts[1], max |-> op.ts[Len(op.ts)], ts |-> op.ts, ps |-> op.ps, b |-> op.b,
                  spl |-> Exact(5, KnotOp(op))]
FromOptions(op) == LET s == [i \in 1..Len(op.opts) |-> FromBoundary(5, op.opts[i])]
                   IN [kind |-> "opts", min |-> 0, max |-> Total(s), ts |-> <<>>, ps |-> <<>>, b |-> <<>>, spl |-> s]
ApplyCurve(op) == CASE op.o = "fit"  -> FromKnots(op)       \* end derivatives zero
                    [] op.o = "fitb" -> FromKnots(op)
                    [] op.o = "opts" -> FromOptions(op)
                    [] op.o = "clr"  -> NoData
Shift(D, s) == [D EXCEPT !.min = @ + s, !.max = @ + s, !.ts = [i \in 1..Len(@) |-> @[i] + s]]
At(D, t) == ValueAt(D.spl, t - D.min)
=============================================================================
