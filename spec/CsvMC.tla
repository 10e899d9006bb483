-------------------------------- MODULE CsvMC --------------------------------
(* Histories of writes and loads of files.  Fields are numbered; FieldChars   *)
(* gives the characters of a field.                                           *)
EXTENDS Csv, SequencesExt, TLC, Json
CONSTANTS F, Fields, FieldChars, Shapes, MaxLen, Kinds
VARIABLES fs, h
Chars(t) == [i \in 1..Len(t) |-> [j \in 1..Len(t[i]) |-> FieldChars[t[i][j]]]]
(* tables of a shape: a sequence of row lengths *)
Tables(sh) == {[i \in 1..Len(sh) |-> SubSeq(x[i], 1, sh[i])] :
                 x \in [1..Len(sh) -> [1..(CHOOSE m \in {sh[k] : k \in 1..Len(sh)} : \A k \in 1..Len(sh) : sh[k] <= m) -> Fields]]}
Rect(t) == \A i \in 1..Len(t) : Len(t[i]) = Len(t[1])
None == [k |-> "none", t |-> <<>>]
Init == fs = [f \in 1..F |-> None] /\ h = <<>>
Do(o, f, t) == h' = Append(h, [o |-> o, f |-> f, t |-> t])
Write(f) == \E sh \in Shapes : \E t \in Tables(sh) : \E k \in Kinds :
              /\ (k = "num" => Rect(t) /\ Len(t[1]) >= 2)
              /\ fs' = [fs EXCEPT ![f] = [k |-> k, t |-> t]] /\ Do("w" \o k, f, t)
Loads(f) == UNCHANGED fs /\ fs[f].k # "none" /\
            \/ Do("load", f, fs[f].t)
            \/ fs[f].k = "num" /\ Do("load1", f, fs[f].t)
            \/ fs[f].k = "num" /\ Len(fs[f].t[1]) >= 3 /\ Do("load2", f, fs[f].t)
Next == Len(h) < MaxLen /\ \E f \in 1..F : Write(f) \/ Loads(f)
RoundTrip == \A f \in 1..F : fs[f].k # "none" => Dec(Enc(Chars(fs[f].t))) = Chars(fs[f].t)
Exp(x) == CASE x.o = "load1" -> [t1 |-> Times(x.t, 1), v |-> Values(x.t, 1)]
            [] x.o = "load2" -> [t1 |-> Times(x.t, 1), t2 |-> Times(x.t, 2), v |-> Values(x.t, 2)]
            [] OTHER -> [rows |-> x.t]
View == <<fs, IF h = <<>> THEN "" ELSE h[Len(h)].o, Len(h)>>
PrintCase == IF h # <<>> /\ Len(h) = MaxLen /\ h[Len(h)].o \in {"load", "load1", "load2"}
             THEN PrintT(ToJson([h |-> h, exp |-> [i \in 1..Len(h) |-> Exp(h[i])]])) ELSE TRUE
(* operations to be refused in the present state *)
Refused == {[o |-> "wtab", f |-> f, t |-> t] : f \in 1..F, t \in {x \in {<<>>, << <<>> >>, << <<1>>, <<>> >>} : BadTable(x)}}
           \cup {[o |-> "wvec", f |-> f, ts |-> x[1], vs |-> x[2]] : f \in 1..F,
                   x \in {y \in {<<>>, <<1>>, <<1, 1>>} \X {<<>>, << <<1>> >>, << <<1>>, <<1>> >>, << <<1, 1>>, <<1>> >>, << <<1>>, <<1, 1>> >>} : BadVectors(y[1], y[2])}}
           \cup UNION {{[o |-> o, f |-> f] : o \in {p \in {"load", "load1", "load2"} : BadLoad(p, fs[f].k # "none", fs[f].t)}} : f \in 1..F}
PrintBad == PrintT(ToJson([h |-> h, bad |-> SetToSeq(Refused)]))
==============================================================================
