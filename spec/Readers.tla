------------------------------- MODULE Readers -------------------------------
(* One object, edited by its owner while nobody reads it, and read by several *)
(* threads at once.  A question begins and ends at different moments; the     *)
(* answer is a function of the content and of the question and of nothing     *)
(* else.  The content is what the object was built from (its recipe).         *)
EXTENDS Integers, Sequences
CONSTANTS Threads,    \* readers, 1..n
          Questions,  \* 1..m
          Data,       \* data sets that can be fitted; the last knot of set d is at 10 d
          Edits,      \* subset of {"fit", "clr", "ext"}
          MaxExt
VARIABLES rec,   \* content
          busy,  \* thread -> question it asks, or 0
          op     \* last step
vars == <<rec, busy, op>>
Idle == \A r \in Threads : busy[r] = 0
Top == IF rec = <<>> THEN 0 ELSE rec[Len(rec)].t
Nothing == [o |-> "clr", d |-> 0, t |-> 0]
Step(o, d, t) == [o |-> o, d |-> d, t |-> t]
Read(o, r, q, c) == [o |-> o, r |-> r, q |-> q, rec |-> c]
Init == rec = <<>> /\ busy = [r \in Threads |-> 0] /\ op = Nothing
Fit == "fit" \in Edits /\ Idle /\ \E d \in Data : LET s == Step("fit", d, 10 * d) IN rec' = <<s>> /\ op' = s /\ UNCHANGED busy
Clr == "clr" \in Edits /\ Idle /\ rec # <<>> /\ rec' = <<>> /\ op' = Nothing /\ UNCHANGED busy
Ext == /\ "ext" \in Edits /\ Idle /\ Len(rec) < MaxExt
       /\ \E d \in Data : LET s == Step("ext", d, Top + 2) IN rec' = Append(rec, s) /\ op' = s /\ UNCHANGED busy
Begin == \E r \in Threads, q \in Questions :
           /\ busy[r] = 0 /\ busy' = [busy EXCEPT ![r] = q] /\ op' = Read("begin", r, q, <<>>) /\ UNCHANGED rec
(* the answer is due: it is that of the content, whatever else was or is being asked *)
EndOf(r) == busy[r] # 0 /\ busy' = [busy EXCEPT ![r] = 0] /\ op' = Read("end", r, busy[r], rec) /\ UNCHANGED rec
End == \E r \in Threads : EndOf(r)
Next == Fit \/ Clr \/ Ext \/ Begin \/ End
Spec == Init /\ [][Next]_vars /\ \A r \in Threads : WF_vars(EndOf(r))

(* reading leaves the content alone, and content never changes under an open question *)
ReadsArePure == [][op'.o \in {"begin", "end"} => rec' = rec]_vars
NoEditUnderReader == [][rec' # rec => Idle]_vars
(* two answers to the same question with no edit between them are equal: both are answers of the same content *)
AnswerOfContent == op.o = "end" => op.rec = rec
(* every question that is asked is answered *)
Answered == \A r \in Threads : busy[r] # 0 ~> busy[r] = 0
==============================================================================
