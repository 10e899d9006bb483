---------------------------- MODULE ContainerMC ----------------------------
EXTENDS Container, TLC, Json
CONSTANTS N, Lib, Steps, Jumps, Fits, MaxSpl, MaxLen, MaxTime, Lo, Hi
VARIABLES C, ret, hist

Op(o, c, d, t, ts, ps) == [o |-> o, c |-> c, d |-> d, t |-> t, ts |-> ts, ps |-> ps]
Ops == {Op("add", s.c, s.d, 0, <<>>, <<>>) : s \in IF Len(C.spl) < MaxSpl THEN Lib ELSE {}}
       \cup {Op("adv", <<>>, 0, t, <<>>, <<>>) : t \in Steps}
       \cup {Op("set", <<>>, 0, t, <<>>, <<>>) : t \in Jumps}
       \cup {Op("rst", <<>>, 0, 0, <<>>, <<>>), Op("rstT", <<>>, 0, 0, <<>>, <<>>)}
       \cup {Op("fit", <<>>, 0, 0, f.ts, f.ps) : f \in Fits}

Init == C = EmptyC /\ ret = 1 /\ hist = <<>>
Next == /\ Len(hist) < MaxLen
        /\ \E op \in Ops : LET r == ApplyC(C, N, op) IN
              /\ r.C.time <= MaxTime
              /\ C' = r.C /\ ret' = r.ret
              /\ hist' = Append(hist, [op |-> op, ret |-> r.ret])
View == C

InvClock == ClockOK(C)
InvEnd   == EndOK(C)
InvBefore == \A t \in Lo..Hi : BeforeOK(C, t)
\* advancing moves the clock by the step, or reports the end and changes nothing
AdvOK == LET e == hist'[Len(hist')] IN
         e.op.o = "adv" => IF ret' = 1 THEN C'.time = C.time + e.op.t /\ C'.spl = C.spl ELSE C' = C
InvAdvance == [][hist' # hist => AdvOK]_<<C, ret, hist>>

Far == 1000000
Obs == [ cl |-> ObsClock(C), at |-> [k \in 1..(Hi - Lo + 1) |-> ObsAt(C, Lo + k - 1)], end |-> EndValue(C.spl),
         far |-> <<ObsAt(C, 0 - Far), ObsAt(C, Far)>>,
         bef |-> [k \in 1..(Hi - Lo + 1) |-> ObsBefore(C, Lo + k - 1)] ]
\* the model state, to join transitions with states
Id(c) == <<[i \in 1..Len(c.spl) |-> <<c.spl[i].c, c.spl[i].T, c.spl[i].d>>], c.time, c.idx, c.off>>
PrintState == PrintT(ToJson([s |-> Id(C), obs |-> Obs, h |-> hist]))
PrintEdge  == PrintT(ToJson([h |-> hist', d |-> Id(C')]))
=============================================================================
