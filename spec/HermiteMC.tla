----------------------------- MODULE HermiteMC -----------------------------
EXTENDS Hermite, TLC, Json
CONSTANTS KnotTimes,  \* set of strictly increasing sequences
          Knots,      \* sequence of position sequences
          Vels,       \* set of <<v0, v1>>
          Shifts, Kinds, MaxLen, Margin
VARIABLES K, hist
Moved(ts, s) == [i \in 1..Len(ts) |-> ts[i] + s]
Mk(o, ts, j, v) == [o |-> o, ts |-> ts, j |-> j, ps |-> SubSeq(Knots[j], 1, Len(ts)), v0 |-> v[1], v1 |-> v[2]]
Data == {Moved(ts, s) : ts \in KnotTimes, s \in Shifts}
Closed(op) == LET p == op.ps[1] n == Len(op.ps) IN [op EXCEPT !.ps = [i \in 1..n |-> IF i = n THEN p ELSE op.ps[i]]]  \* a periodic curve ends where it starts
Ops == {op \in {Mk("fit", ts, j, <<0, 0>>) : ts \in Data, j \in 1..Len(Knots)} : "fit" \in Kinds}
       \cup {op \in {Mk("fitd", ts, j, v) : ts \in Data, j \in 1..Len(Knots), v \in Vels} : "fitd" \in Kinds}
       \cup {op \in {Closed(Mk("per", ts, j, <<0, 0>>)) : ts \in {x \in Data : Len(x) >= 2}, j \in 1..Len(Knots)} : "per" \in Kinds}
       \cup {op \in {Mk("clr", <<>>, 1, <<0, 0>>)} : "clr" \in Kinds}
Init == K = <<>> /\ hist = <<>>
Next == /\ Len(hist) < MaxLen
        /\ \E op \in Ops : K' = ApplyH(K, op) /\ hist' = Append(hist, op)
InvPasses == PassesKnots(K)
InvDerivatives == Derivatives(K)
Lo == IF K = <<>> THEN 0 ELSE K[1].t
Hi == IF K = <<>> THEN 0 ELSE K[Len(K)].t
PrintCase == hist # <<>> => PrintT(ToJson([h |-> hist, K |-> K, lo |-> Lo - Margin, min |-> Lo, max |-> Hi,
                 ea |-> [k \in 1..(Hi - Lo + 1 + 2 * Margin) |-> EarlierAcc(K, Lo - Margin + k - 1)],
                 at |-> [k \in 1..(Hi - Lo + 1 + 2 * Margin) |-> EvalH(K, Lo - Margin + k - 1)]]))
=============================================================================
