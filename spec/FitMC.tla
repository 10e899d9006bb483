------------------------------- MODULE FitMC -------------------------------
(* Histories that end in a fit: whatever a container went through before,    *)
(* only the last fit counts.                                                 *)
EXTENDS Fit, TLC, Json
CONSTANTS N, Ars, KnotTimes, Knots, Bnds, Pres, MaxLen
VARIABLES last, hist

\* Pres: operations before, as in Container
FitOps == {[o |-> "fit", ar |-> ar, ts |-> ts, ps |-> SubSeq(Knots[j], 1, Len(ts)),
            v0 |-> b.v0, vT |-> b.vT, a0 |-> b.a0, aT |-> b.aT]
            : ar \in Ars, ts \in KnotTimes, j \in 1..Len(Knots), b \in Bnds}
Init == hist = <<>> /\ last = [o |-> "none"]
DoPre == \E op \in Pres : last' = [o |-> "pre"] /\ hist' = Append(hist, op)
DoFit == \E op \in FitOps : last' = op /\ hist' = Append(hist, op)
Next == Len(hist) < MaxLen /\ (DoFit \/ (DoPre /\ Len(hist) < MaxLen - 1))

Pr == Promise(N, last)
Ex == Exact(N, last)
Total2 == IF Accepts(last.ts) THEN last.ts[Len(last.ts)] - last.ts[1] ELSE 0
\* the closed forms keep the promise
InvExact == (last.o = "fit" /\ Ex # <<>>) =>
   /\ Len(Ex) = Len(Pr.d) /\ \A i \in 1..Len(Ex) :
        /\ Ex[i].d = Pr.d[i]
        /\ PosNum(Ex[i], 0) = Pr.p[i][1] * Den(Ex[i]) /\ PosNum(Ex[i], Ex[i].d) = Pr.p[i][2] * Den(Ex[i])
   /\ Pr.ev = 1 => VelNum(Ex[1], 0) = last.v0 * Den(Ex[1])
   /\ Pr.ea = 1 => AccNum(Ex[Len(Ex)], Ex[Len(Ex)].d) = last.aT * Den(Ex[Len(Ex)])
PrintCase == last.o # "fit" \/ PrintT(ToJson([h |-> hist, pr |-> Pr, op |-> last,
               at |-> IF Ex = <<>> THEN <<>> ELSE [k \in 1..(Total2 + 3) |-> ValueAt(Ex, k - 2)]]))
=============================================================================
