---------------------------- MODULE SelfCheckMC ----------------------------
(* The self check of a container: every list of up to MaxSpl splines, each   *)
(* sound or with one flaw (a coefficient that is no number, or a negative    *)
(* duration), with the clock set anywhere around the trajectory.             *)
EXTENDS Container, TLC, Json
CONSTANTS N, Durs, Times, MaxSpl
VARIABLES C, bad, hist, stage

Zero == [i \in 1..(N + 1) |-> 0]
\* flaw: 0 none, k in 1..N+1 coefficient k, N+2 the duration
Flaws == 0..(N + 2)
Init == C = EmptyC /\ bad = {} /\ hist = <<>> /\ stage = "add"
Add == /\ stage = "add" /\ Len(C.spl) < MaxSpl
       /\ \E d \in Durs, f \in Flaws :
            /\ C' = [C EXCEPT !.spl = Append(@, [n |-> N, c |-> Zero, T |-> 1, d |-> IF f = N + 2 THEN -d ELSE d])]
            /\ bad' = IF f = 0 THEN bad ELSE bad \cup {Len(C.spl) + 1}
            /\ hist' = Append(hist, [d |-> d, f |-> f])
       /\ UNCHANGED stage
SetTime == /\ stage = "add" /\ C.spl # <<>>
           /\ \E t \in Times : C' = [C EXCEPT !.time = t]
           /\ stage' = "done" /\ UNCHANGED <<bad, hist>>
Next == Add \/ SetTime
Verdict == B01(Sound(C, bad))
\* a flawed container is never accepted, and a sound one exactly on its trajectory
InvFlaw  == bad # {} => Verdict = 0
InvSound == bad = {} => (Verdict = 1 <=> C.time \in 0..Total(C.spl))
PrintCase == stage = "done" => PrintT(ToJson([n |-> N, h |-> hist, t |-> C.time, chk |-> Verdict]))
=============================================================================
