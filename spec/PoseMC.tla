------------------------------- MODULE PoseMC -------------------------------
EXTENDS Pose, TLC, Json
CONSTANTS KnotTimes, Poses,   \* sequence of sequences of [p, q]
          Ends,               \* set of <<v0, w0, v1, w1>>
          Motions, Kinds, MaxLen
VARIABLES K, hist
Z3 == <<0, 0, 0>>
Mk(o, ts, j, e) == [o |-> o, ts |-> ts, Ps |-> SubSeq(Poses[j], 1, Len(ts)), v0 |-> e[1], w0 |-> e[2], v1 |-> e[3], w1 |-> e[4]]
Closed(op) == LET P == op.Ps[1] n == Len(op.Ps) IN [op EXCEPT !.Ps = [i \in 1..n |-> IF i = n THEN P ELSE op.Ps[i]]]
Zeros == <<Z3, Z3, Z3, Z3>>
All == {Mk("fit", ts, j, Zeros) : ts \in KnotTimes, j \in 1..Len(Poses)}
       \cup {Mk("fitd", ts, j, e) : ts \in KnotTimes, j \in 1..Len(Poses), e \in Ends}
       \cup {Closed(Mk("per", ts, j, Zeros)) : ts \in {x \in KnotTimes : Len(x) >= 2}, j \in 1..Len(Poses)}
       \cup {Mk("clr", <<>>, 1, Zeros)}
Ops == {op \in All : op.o \in Kinds /\ Definite(ApplyP(op))}
Init == K = <<>> /\ hist = <<>>
Next == /\ Len(hist) < MaxLen
        /\ \E op \in Ops : K' = ApplyP(op) /\ hist' = Append(hist, op)
InvMotions == \A T \in Motions : OnGrid(T.q)
InvEquivariant == hist # <<>> => \A T \in Motions : Equivariant(T, hist[Len(hist)])
InvCoords == \A j \in 1..3 : PassesKnots(Coord(K, j))
Lo == IF K = <<>> THEN 0 ELSE K[1].t
Hi == IF K = <<>> THEN 0 ELSE K[Len(K)].t
PrintCase == hist # <<>> => PrintT(ToJson([h |-> hist, K |-> K, lo |-> Lo - 1,
   moved |-> IF K = <<>> THEN <<>> ELSE [i \in 1..Cardinality(Motions) |-> LET T == SetToSeq(Motions)[i] IN [T |-> T, op |-> MoveOp(T, hist[Len(hist)])]],
   at |-> [k \in 1..(Hi - Lo + 3) |-> [j \in 1..3 |-> EvalH(Coord(K, j), Lo - 2 + k)]]]))
=============================================================================
