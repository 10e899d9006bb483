---------------------------- MODULE PolyCurveMC ----------------------------
EXTENDS PolyCurve, TLC, Json
CONSTANTS KnotTimes, Knots, Bnds, Shifts, Opts, MaxLen, Margin
VARIABLES D, sh, hist
Zero == <<0, 0, 0, 0>>
Moved(ts, s) == [i \in 1..Len(ts) |-> ts[i] + s]
Ops == {[o |-> "fit", ts |-> Moved(ts, s), ps |-> SubSeq(Knots[j], 1, Len(ts)), b |-> Zero, opts |-> <<>>, s |-> s] : ts \in KnotTimes, j \in 1..Len(Knots), s \in Shifts}
       \cup {[o |-> "fitb", ts |-> Moved(ts, s), ps |-> SubSeq(Knots[j], 1, Len(ts)), b |-> b, opts |-> <<>>, s |-> s] : ts \in KnotTimes, j \in 1..Len(Knots), b \in Bnds, s \in Shifts}
       \cup {[o |-> "opts", ts |-> <<>>, ps |-> <<>>, b |-> Zero, opts |-> x, s |-> 0] : x \in Opts}
       \cup {[o |-> "clr", ts |-> <<>>, ps |-> <<>>, b |-> Zero, opts |-> <<>>, s |-> 0]}
Init == D = NoData /\ sh = 0 /\ hist = <<>>
Next == /\ Len(hist) < MaxLen
        /\ \E op \in Ops : D' = ApplyCurve(op) /\ hist' = Append(hist, op) /\ sh' = op.s
\* shifting the knots shifts the curve and nothing else
InvShift == D.kind = "knots" =>
   LET last == hist[Len(hist)]
       base == FromKnots([last EXCEPT !.ts = Moved(@, 0 - sh)])
   IN D = Shift(base, sh)
PrintCase == PrintT(ToJson([h |-> hist, kind |-> D.kind, min |-> D.min, max |-> D.max, ts |-> D.ts, ps |-> D.ps, b |-> D.b, sh |-> sh,
               at |-> IF D.spl = <<>> THEN <<>> ELSE [k \in 1..(D.max - D.min + 1 + 2 * Margin) |-> At(D, D.min - Margin + k - 1)]]))
=============================================================================
