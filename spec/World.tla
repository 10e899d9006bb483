-------------------------------- MODULE World --------------------------------
(* Curve objects under histories of fits, extensions, clears, copies and      *)
(* destruction.  What an object is, is only what it was built from since it   *)
(* was last made, cleared or fitted (its recipe): nothing of its earlier life *)
(* and nothing of the life of other objects.  The real objects are compared   *)
(* with new ones that are given the recipe and nothing else.                  *)
EXTENDS Integers, Sequences
CONSTANTS N,        \* objects
          Fits,     \* names of the ways to fit
          Bads,     \* fits that are rejected
          Data,     \* data sets; the last knot of set d is at 10 d
          Gaps,     \* distance in time of an extension to what is there
          Cfgs,     \* configurations (kept by a clear)
          Ops, MaxExt
VARIABLES slot, op
Slots == 1..N
New == [c |-> 0, b |-> <<>>]
Top(b) == IF b = <<>> THEN 0 ELSE b[Len(b)].t
Known(s) == IF s.b = <<>> THEN TRUE ELSE s.b[1].o \notin Bads
Exts(b) == Len(SelectSeq(b, LAMBDA x : x.o = "ext"))

Set(i, s) == slot' = [slot EXCEPT ![i] = s]
Do(o, i, j, d, t) == op' = [o |-> o, i |-> i, j |-> j, d |-> d, t |-> t]
Fit(i)  == \E o \in Fits, d \in Data : Set(i, [slot[i] EXCEPT !.b = <<[o |-> o, d |-> d, t |-> 10 * d]>>]) /\ Do(o, i, i, d, 10 * d)
Bad(i)  == \E o \in Bads : Set(i, [slot[i] EXCEPT !.b = <<[o |-> o, d |-> 0, t |-> 0]>>]) /\ Do(o, i, i, 0, 0)
Ext(i)  == \E g \in Gaps, d \in Data :
             /\ Exts(slot[i].b) < MaxExt /\ Known(slot[i])
             /\ LET t == Top(slot[i].b) + g IN Set(i, [slot[i] EXCEPT !.b = Append(@, [o |-> "ext", d |-> d, t |-> t])]) /\ Do("ext", i, i, d, t)
Cfg(i)  == \E c \in Cfgs : slot[i].b = <<>> /\ Set(i, [slot[i] EXCEPT !.c = c]) /\ Do("cfg", i, i, c, 0)
Clr(i)  == Set(i, [slot[i] EXCEPT !.b = <<>>]) /\ Do("clr", i, i, 0, 0)
Renew(i) == Set(i, New) /\ Do("new", i, i, 0, 0)
Look(i) == UNCHANGED slot /\ Do("look", i, i, 0, 0)     \* all observers are called
Vec(i)  == UNCHANGED slot /\ Do("vec", i, i, 0, 0)      \* the object goes through a growing vector
Copy(o, i, j) == Set(i, slot[j]) /\ Do(o, i, j, 0, 0)   \* cpa: assignment, cpc: the target is made by copying
Swap(i, j) == slot' = [slot EXCEPT ![i] = slot[j], ![j] = slot[i]] /\ Do("swp", i, j, 0, 0)
Step(i) == \/ Fit(i)
           \/ "bad" \in Ops /\ Bad(i)
           \/ "ext" \in Ops /\ Ext(i)
           \/ "cfg" \in Ops /\ Cfg(i)
           \/ "clr" \in Ops /\ Clr(i)
           \/ "new" \in Ops /\ Renew(i)
           \/ "look" \in Ops /\ Look(i)
           \/ "vec" \in Ops /\ Vec(i)
           \/ \E j \in Slots : \/ "cpa" \in Ops /\ Copy("cpa", i, j)
                               \/ "cpc" \in Ops /\ i # j /\ Copy("cpc", i, j)
                               \/ "swp" \in Ops /\ i < j /\ Swap(i, j)
Init == slot = [i \in Slots |-> New] /\ op = [o |-> "new", i |-> 1, j |-> 1, d |-> 0, t |-> 0]
Next == \E i \in Slots : Step(i)
Spec == Init /\ [][Next]_<<slot, op>>

(* C05 in the model: only the object that is written to changes; a copy equals its original *)
Independent == [][/\ \A k \in Slots : k \notin {op'.i, IF op'.o = "swp" THEN op'.j ELSE op'.i} => slot'[k] = slot[k]
                  /\ op'.o \in {"cpa", "cpc"} => slot'[op'.i] = slot[op'.j]]_<<slot, op>>
(* C20 in the model: the recipe after a clear or fit does not depend on what was before *)
Forgets == [][/\ op'.o \in {"clr", "new"} => slot'[op'.i].b = <<>>
              /\ op'.o \in Fits => Len(slot'[op'.i].b) = 1]_<<slot, op>>
WellFormed == \A i \in Slots : \A k \in 1..Len(slot[i].b) : k > 1 => slot[i].b[k].o = "ext"
==============================================================================
