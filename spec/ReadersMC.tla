------------------------------ MODULE ReadersMC ------------------------------
(* Prints histories of MaxLen steps, open questions answered at the end. *)
EXTENDS Readers, TLC, Json
CONSTANT MaxLen
VARIABLE h
MInit == Init /\ h = <<>>
MNext == Len(h) < MaxLen /\ Next /\ h' = Append(h, op')
\* only histories in which something is read are of interest
RECURSIVE Rest(_, _)
Rest(b, n) == IF n = 0 THEN <<>> ELSE Rest(b, n - 1) \o (IF b[n] = 0 THEN <<>> ELSE <<Read("end", n, b[n], rec)>>)
Num == CHOOSE n \in 0..100 : Threads = 1..n
PrintDeep == IF Len(h) = MaxLen THEN PrintT(ToJson(h \o Rest(busy, Num))) ELSE TRUE
==============================================================================
