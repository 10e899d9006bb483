------------------------------- MODULE Message -------------------------------
(* Curves filled from trajectory messages.  A message names its joints and    *)
(* gives, for each of its points, a time and one value for each joint.  The   *)
(* curve of a joint is the fit through the values of that joint; a message    *)
(* without the joint is refused and changes nothing.                          *)
EXTENDS Integers, Sequences
CONSTANTS Joints,     \* names that occur in messages
          Asked,      \* names that are asked for
          MaxJoints,
          TimeLists   \* lists of times of the points
VARIABLES cur,        \* the content of the curve: a fit through times and values, or none
          op, ret
None == [ts |-> <<>>, vs |-> <<>>]
NameLists == UNION {[1..n -> Joints] : n \in 0..MaxJoints}
(* the value of joint j at point k of the d-th time list: all different *)
Val(ts, k, j, g) == 100 * g + 10 * k + j
Has(names, n) == \E j \in DOMAIN names : names[j] = n
First(names, n) == CHOOSE j \in DOMAIN names : names[j] = n /\ \A i \in 1..(j - 1) : names[i] # n
Column(ts, j, g) == [k \in 1..Len(ts) |-> Val(ts, k, j, g)]
Read(names, n, ts, g) ==
  /\ ret' = Has(names, n)
  /\ cur' = IF Has(names, n) THEN [ts |-> ts, vs |-> Column(ts, First(names, n), g)] ELSE cur
  /\ op' = [o |-> "msg", names |-> names, n |-> n, ts |-> ts, g |-> g]
Clear == cur' = None /\ ret' = TRUE /\ op' = [o |-> "clr", names |-> <<>>, n |-> "", ts |-> <<>>, g |-> 0]
Init == cur = None /\ ret = TRUE /\ op = [o |-> "clr", names |-> <<>>, n |-> "", ts |-> <<>>, g |-> 0]
Next == (\E names \in NameLists, n \in Asked, ts \in TimeLists, g \in {0, 1} : Read(names, n, ts, g)) \/ Clear
(* in the model: refused means unchanged, accepted means one value per point and all of one joint *)
Refused == [][~ret' => cur' = cur]_<<cur, ret, op>>
Accepted == [][(op'.o = "msg" /\ ret') => /\ cur'.ts = op'.ts
                                          /\ Len(cur'.vs) = Len(cur'.ts)
                                          /\ \E j \in DOMAIN op'.names : op'.names[j] = op'.n /\ \A k \in DOMAIN cur'.vs : cur'.vs[k] = Val(op'.ts, k, j, op'.g)]_<<cur, ret, op>>
==============================================================================
