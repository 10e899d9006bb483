----------------------------- MODULE TimeVecMC -----------------------------
(* The time vectors of every order, on their own and added to a vector.     *)
EXTENDS Poly, TLC, Json
CONSTANTS Ts, Bases
VARIABLES n, t, base
Init == n \in 1..5 /\ t \in Ts /\ base \in Bases
Next == FALSE /\ UNCHANGED <<n, t, base>>
Plus(v) == [j \in 1..(n + 1) |-> base * j + v[j]]
PrintCase == PrintT(ToJson([n |-> n, t |-> t, base |-> base,
   tau |-> Tau(n, t), d |-> DTau(n, t), dd |-> DDTau(n, t),
   ptau |-> Plus(Tau(n, t)), pd |-> Plus(DTau(n, t)), pdd |-> Plus(DDTau(n, t)),
   z |-> Tau(n, 0), dz |-> DTau(n, 0), ddz |-> DDTau(n, 0),
   pz |-> Plus(Tau(n, 0)), pdz |-> Plus(DTau(n, 0)), pddz |-> Plus(DDTau(n, 0))]))
=============================================================================
