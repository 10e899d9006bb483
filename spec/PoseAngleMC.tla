---------------------------- MODULE PoseAngleMC -----------------------------
(* Rotations about one axis: the angle is a scalar Hermite curve.            *)
EXTENDS HermiteMC
CONSTANT Half       \* a half turn in units of the angle
(* as long as no step is half a turn or more the angle can be read off       *)
NoWrap == /\ \A i \in Segs(K) :
               LET a == K[i] b == K[i + 1] D == b.t - a.t
                   x == 3 * (b.p - a.p) * a.d * b.d - D * (a.n * b.d + b.n * a.d)
               IN x < 3 * Half * a.d * b.d /\ x > 0 - 3 * Half * a.d * b.d
          /\ \A i \in 1..Len(K) : \A j \in 1..Len(K) : (j - i \in 1..2) => (K[j].p - K[i].p < Half /\ K[i].p - K[j].p < Half)
PrintAngle == NoWrap => PrintCase
=============================================================================
