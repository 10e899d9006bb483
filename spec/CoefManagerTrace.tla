-------------------------- MODULE CoefManagerTrace --------------------------
(* Validates recorded runs of real coefficient managers, one call per line: *)
(* the model takes the same step and must report the same result.           *)
EXTENDS CoefManager, TLC, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, M, nk, Q

Init == l = 1 /\ M = <<>> /\ nk = 0 /\ Q = 0

Query(e) ==
  CASE e.o = "q_st" -> ObsStore(M[e.i], nk, Q)
    [] e.o = "q_br" -> Bracket(M[e.i], e.ts[1])
    [] e.o = "q_wi" -> Window(M[e.i], e.ts[1])
    [] e.o = "q_rg" -> RangeKeys(M[e.i], e.ts[1], e.ts[2])
    [] e.o = "q_eq" -> B(M[e.i] = M[e.j])
    [] e.o = "try" -> IF Legal(M, e.op) THEN "ret" ELSE "fatal"   \* tried in a child process
IsQuery(e) == e.o \in {"q_st", "q_br", "q_wi", "q_rg", "q_eq", "try"}

Expect(e, got, want) ==
  IF got = want THEN TRUE ELSE PrintT(ToJson([line |-> l, op |-> e, want |-> want]))

Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
       IF e.o = "rst" THEN /\ M' = [i \in 1..e.n |-> Empty] /\ nk' = 0 /\ Q' = e.q
       ELSE IF IsQuery(e) THEN /\ Expect(e, e.r, Query(e)) = TRUE /\ UNCHANGED <<M, nk, Q>>
       ELSE /\ Assert(Legal(M, e), <<"illegal step in trace", l, e>>)
            /\ LET r == Apply(M, nk, e) IN
                 /\ Expect(e, e.r, r.out) = TRUE
                 /\ M' = r.M /\ nk' = r.nk /\ Q' = Q

InvStore == StoreOK(M, nk)
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
