--------------------------------- MODULE Csv ---------------------------------
(* Files of comma separated values.  A table is a sequence of rows of fields, *)
(* a field a non-empty sequence of characters; a file is a sequence of        *)
(* characters.  The two functions are inverse on the tables that may be       *)
(* written, so a file stands for the last table written to it.                *)
EXTENDS Integers, Sequences
Comma == 0
Eol == -1
RECURSIVE EncRow(_), Enc(_), Split(_, _, _)
EncRow(r) == IF Len(r) = 1 THEN r[1] ELSE r[1] \o <<Comma>> \o EncRow(Tail(r))
Enc(t) == IF t = <<>> THEN <<>> ELSE EncRow(Head(t)) \o <<Eol>> \o Enc(Tail(t))
(* splits s at d; what follows the last d counts only if there is something   *)
Split(s, d, cur) == IF s = <<>> THEN IF cur = <<>> THEN <<>> ELSE <<cur>>
                    ELSE IF Head(s) = d THEN <<cur>> \o Split(Tail(s), d, <<>>)
                    ELSE Split(Tail(s), d, Append(cur, Head(s)))
Dec(f) == LET ls == Split(f, Eol, <<>>) IN [i \in 1..Len(ls) |-> Split(ls[i], Comma, <<>>)]
(* what has to be refused: tables and rows without entries, times and vectors  *)
(* of different number or dimension, files that are not there or too narrow    *)
BadTable(t) == t = <<>> \/ \E i \in 1..Len(t) : t[i] = <<>>
BadVectors(ts, vs) == Len(ts) # Len(vs) \/ ts = <<>> \/ \E i \in 1..Len(vs) : Len(vs[i]) # Len(vs[1])
BadLoad(o, known, t) == ~known \/ (o = "load1" /\ Len(t[1]) < 2) \/ (o = "load2" /\ Len(t[1]) < 3)
(* the columns of a table of numbers *)
Times(t, k) == [i \in 1..Len(t) |-> t[i][k]]
Values(t, k) == [i \in 1..Len(t) |-> SubSeq(t[i], k + 1, Len(t[i]))]
==============================================================================
