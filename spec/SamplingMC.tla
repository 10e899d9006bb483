---------------------------- MODULE SamplingMC ------------------------------
(* All histories up to MaxLen.  Measurements come at times 1, 2, ... or skip *)
(* some; the value of a measurement tells which one it was.                  *)
EXTENDS Sampling, TLC, Json
CONSTANTS Class, Ratios, Kinds, MaxLen, Gaps, Pers
VARIABLES s, hist, now, num
St(r) == IF Class = "slerp" THEN EmptyS(r) ELSE EmptyH(r, 0)
Init == \E r \in Ratios : s = St(r) /\ hist = <<[o |-> "ratio0", ts |-> <<>>, vs |-> <<>>, r |-> r]>> /\ now = 0 /\ num = 0
Val(i) == 1 + ((i * i) % 23)
Op(o, ts, vs, r) == [o |-> o, ts |-> ts, vs |-> vs, r |-> r]
SOps == {Op("one", <<now + g>>, <<Val(num + 1)>>, 0) : g \in Gaps}
        \cup {Op("many", <<now + 1, now + 2>>, <<Val(num + 1), Val(num + 2)>>, 0), Op("many", <<>>, <<>>, 0),
              Op("many", <<now + 3, now - 1, now>>, <<Val(num + 1), Val(num + 2), Val(num + 3)>>, 0)}
        \cup {Op("set", <<now + 1, now - 2>>, <<Val(num + 1), Val(num + 2)>>, 0), Op("set", <<now>>, <<Val(num + 1)>>, 0), Op("set", <<now + 2>>, <<Val(num + 1)>>, 0)}
        \cup {Op("fit", <<now + 2, now + 4, now + 5>>, <<Val(num + 1), Val(num + 2), Val(num + 3)>>, 0), Op("fit", <<>>, <<>>, 0), Op("fit", <<now>>, <<Val(num)>>, 0)}
        \cup {Op("ratio", <<>>, <<>>, r) : r \in Ratios \ {1}}
        \cup {Op("clr", <<>>, <<>>, 0)}
HOps == {Op("ext", <<now + g>>, <<Val(num + 1)>>, 0) : g \in Gaps}
        \cup {Op("ext", <<now + 1, now + 2, now + 4>>, <<Val(num + 1), Val(num + 2), Val(num + 3)>>, 0), Op("ext", <<>>, <<>>, 0)}
        \cup {Op("fit", <<now + 2, now + 4, now + 5>>, <<Val(num + 1), Val(num + 2), Val(num + 3)>>, 0), Op("fit", <<now>>, <<Val(num)>>, 0)}
        \cup {Op("min", <<>>, <<>>, r) : r \in Ratios} \cup {Op("per", <<>>, <<>>, p) : p \in Pers}
        \cup {Op("clr", <<>>, <<>>, 0)}
Ops == {op \in IF Class = "slerp" THEN SOps ELSE HOps : op.o \in Kinds /\ IF Class = "slerp" THEN LegalS(s, op) ELSE LegalHS(s, op)}
Top(op) == IF op.ts = <<>> THEN now ELSE Max(ToSet(op.ts) \cup {now})
Next == /\ Len(hist) <= MaxLen
        /\ \E op \in Ops : /\ s' = IF Class = "slerp" THEN ApplyS(s, op) ELSE ApplyHS(s, op)
                           /\ hist' = Append(hist, op) /\ now' = Top(op) /\ num' = num + Len(op.ts)
Inv == IF Class = "slerp" THEN SortedS(s) /\ KeysS(s) ELSE InnerSlopes(s) /\ Spaced(s)
\* only measurements, ratio fixed: the number of coefficients is known
Pure == \A i \in 2..Len(hist) : hist[i].o = "one"
Count == (Class = "slerp" /\ Pure) => LET m == Len(hist) - 1 IN
   Len(s.M) = IF m <= 2 THEN m ELSE 2 + ((m - 2) + s.ratio - 1) \div s.ratio
PrintCase == Len(hist) > 1 => PrintT(ToJson([h |-> hist, obs |-> IF Class = "slerp" THEN ObsS(s) ELSE ObsHS(s)]))
\* for the operations that have to be refused, in every state
SBad == LET ts == {x.t : x \in ToSet(s.M)} \cup {now}
        IN {Op("one", <<t>>, <<3>>, 0) : t \in ts \cup {t - 1 : t \in ts}}
           \cup {Op(o, <<now + 1, now + 2>>, <<3>>, 0) : o \in {"many", "set", "fit"}}
           \cup {Op(o, <<now + 1>>, <<3, 4>>, 0) : o \in {"one", "set", "fit"}}
           \cup {Op(o, <<>>, <<3>>, 0) : o \in {"many", "set", "fit"}}
           \cup {Op(o, <<now + 1>>, <<>>, 0) : o \in {"one", "set", "fit"}}
HBad == LET ts == {x.t : x \in ToSet(ObsHS(s))} \cup {now}
        IN {Op("ext", <<t>>, <<3>>, 0) : t \in ts \cup {t - 1 : t \in ts}}
           \cup {Op("ext", <<now + 1, now + 1>>, <<3, 4>>, 0), Op("ext", <<now + 3, now + 2>>, <<3, 4>>, 0)}
           \cup {Op("fit", <<now + 1, now + 2>>, <<3>>, 0), Op("fit", <<now + 1>>, <<3, 4>>, 0)}
Bad == IF Class = "slerp" THEN {op \in SBad : FatalS(s, op)} ELSE {op \in HBad : FatalHS(s, op)}
\* what may be asked for is never among them
Split == \A op \in Ops : IF Class = "slerp" THEN ~FatalS(s, op) ELSE ~FatalHS(s, op)
\* what is refused depends on times, counters and parameters only
BadView == <<[i \in 1..Len(IF Class = "slerp" THEN s.M ELSE ObsHS(s)) |-> (IF Class = "slerp" THEN s.M ELSE ObsHS(s))[i].t],
             s.cnt, IF Class = "slerp" THEN s.ratio ELSE s.min, now>>
PrintBad == PrintT(ToJson([h |-> hist, obs |-> IF Class = "slerp" THEN ObsS(s) ELSE ObsHS(s), bad |-> SetToSeq(Bad)]))
=============================================================================
