------------------------------- MODULE WorldMC -------------------------------
(* Prints every transition between states (a history that takes it and the   *)
(* recipes afterwards); with Deep, prints histories of length MaxLen only.   *)
EXTENDS World, TLC, Json
CONSTANTS MaxLen, Deep
VARIABLE h
MInit == Init /\ h = <<>>
MNext == Len(h) < MaxLen /\ Next /\ h' = Append(h, op')
View == slot
Print1 == PrintT(ToJson([h |-> h', s |-> slot']))
PrintEdge == IF Deep THEN TRUE ELSE Print1
PrintDeep == IF Deep /\ Len(h) = MaxLen THEN PrintT(ToJson([h |-> h, s |-> slot])) ELSE TRUE
==============================================================================
