------------------------------ MODULE MessageMC ------------------------------
(* Prints every transition with a history that takes it, and what is expected *)
EXTENDS Message, TLC, Json
CONSTANTS MaxLen, Deep
VARIABLE h
MInit == Init /\ h = <<>>
MNext == Len(h) < MaxLen /\ Next /\ h' = Append(h, [op |-> op', ret |-> ret', cur |-> cur'])
View == cur
PrintEdge == IF Deep THEN TRUE ELSE PrintT(ToJson(h'))
PrintDeep == IF Deep /\ Len(h) = MaxLen THEN PrintT(ToJson(h)) ELSE TRUE
==============================================================================
