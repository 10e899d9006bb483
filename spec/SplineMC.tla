------------------------------ MODULE SplineMC ------------------------------
(* Life of a single spline object: made from coefficients or from boundary  *)
(* conditions, overwritten, recomputed and copied.                          *)
EXTENDS Poly, TLC, Json
CONSTANTS Orders, CoefVals, Durs, PosVals, VelVals, AccVals, MaxLen, Kinds, Before, After
VARIABLES sp, bc, hist

Coefs(n) == [1..(n + 1) -> CoefVals]
Bcs == [T : Durs, p0 : PosVals, pT : PosVals, v0 : VelVals, vT : VelVals, a0 : AccVals, aT : AccVals]
NoBc == [T |-> 0, p0 |-> 0, pT |-> 0, v0 |-> 0, vT |-> 0, a0 |-> 0, aT |-> 0]

Init == /\ hist = <<>>
        /\ bc = NoBc
        /\ \E n \in Orders : sp = [n |-> n, c |-> [j \in 1..(n + 1) |-> 0], T |-> 1, d |-> 0]
Step(o, s, b) == /\ Len(hist) < MaxLen
                 /\ sp' = s /\ bc' = b
                 /\ hist' = Append(hist, [o |-> o, c |-> s.c, d |-> s.d, b |-> b])
\* constructor, setter and pointer access differ only in the code
FromCoefs == \E o \in Kinds \cap {"ctor", "set", "ptr"} : \E c \in Coefs(sp.n) : \E d \in Durs :
               Step(o, [n |-> sp.n, c |-> c, T |-> 1, d |-> IF o = "ptr" THEN sp.d ELSE d], NoBc)
FromBc    == \E o \in Kinds \cap {"bctor", "bmove", "comp"} : \E b \in Bcs : Step(o, FromBoundary(sp.n, b), b)
Copy      == \E o \in Kinds \cap {"copy", "assign", "move"} : hist # <<>> /\ Step(o, sp, bc)
Next == FromCoefs \/ FromBc \/ Copy

View == <<sp, bc, IF hist = <<>> THEN "" ELSE hist[Len(hist)].o>>

InvBoundary == bc.T # 0 => Meets(sp, bc)
\* multiplying a time vector with the coefficients evaluates the polynomial
InvTau == sp.T = 1 => \A t \in 0..sp.d :
             /\ Dot(Tau(sp.n, t), sp.c) = PosNum(sp, t)
             /\ Dot(DTau(sp.n, t), sp.c) = VelNum(sp, t)
             /\ Dot(DDTau(sp.n, t), sp.c) = AccNum(sp, t)
Far == 1000000
\* every transition, with a history that takes it and what the spline is afterwards
PrintEdge == PrintT(ToJson([n |-> sp.n, h |-> hist', lo |-> 0 - Before, d |-> sp'.d,
                     far |-> <<Eval(sp', 0 - Far), Eval(sp', Far)>>,
                     at |-> [k \in 1..(sp'.d + Before + After + 1) |-> Eval(sp', k - 1 - Before)]]))
=============================================================================
