------------------------------ MODULE Sampling ------------------------------
(* How curves grow when measurements arrive one after the other.             *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt

(* ---- linear pose curve: one coefficient per run of `ratio` measurements - *)
(* S: M coefficients [t, v, k] by time, cnt measurements of the current run, *)
(*    ratio, next key; out: keys handed back by the last operation            *)
EmptyS(r) == [M |-> <<>>, cnt |-> 0, ratio |-> r, nk |-> 1, out |-> <<>>]
EndS(S) == S.M[Len(S.M)].t
AddEnd(S, t, v) == [S EXCEPT !.M = Append(@, [t |-> t, v |-> v, k |-> S.nk]), !.nk = @ + 1, !.out = Append(@, S.nk)]
InsertS(S, t, v) ==
  LET same == {i \in 1..Len(S.M) : S.M[i].t = t}
      low == {i \in 1..Len(S.M) : S.M[i].t < t}
  IN IF same # {} THEN LET i == Max(same) IN [S EXCEPT !.M[i].v = v, !.out = Append(@, S.M[i].k)]
     ELSE [S EXCEPT !.M = InsertAt(@, Cardinality(low) + 1, [t |-> t, v |-> v, k |-> S.nk]), !.nk = @ + 1, !.out = Append(@, S.nk)]
RECURSIVE InsertAll(_, _, _, _)
InsertAll(S, ts, vs, i) == IF i > Len(ts) THEN S ELSE InsertAll(InsertS(S, ts[i], vs[i]), ts, vs, i + 1)
Quiet(S) == [S EXCEPT !.out = <<>>]
Single(S, t, v) ==
  IF Len(S.M) < 2 \/ S.ratio = 1 THEN AddEnd(S, t, v)
  ELSE LET n == S.cnt + 1
           A == IF S.cnt = 0 THEN AddEnd(S, t, v) ELSE [S EXCEPT !.M[Len(S.M)].t = t, !.M[Len(S.M)].v = v]
       IN [A EXCEPT !.cnt = IF n >= S.ratio THEN 0 ELSE n]
LegalS(S, op) ==
  CASE op.o = "one"   -> S.M = <<>> \/ op.ts[1] > IF S.M = <<>> THEN 0 ELSE EndS(S)
    [] op.o = "many"  -> Len(op.ts) # 1 /\ S.cnt = 0      \* not in the middle of a run
    [] op.o = "set"   -> S.cnt = 0
    [] op.o = "ratio" -> op.r > 1 /\ S.ratio > 1
    [] OTHER -> TRUE
ApplyS(S0, op) == LET S == Quiet(S0) IN
  CASE op.o = "one"   -> Single(S, op.ts[1], op.vs[1])
    [] op.o = "many"  -> InsertAll(S, op.ts, op.vs, 1)
    [] op.o = "set"   -> Quiet(InsertAll(S, op.ts, op.vs, 1))
    [] op.o = "fit"   -> IF op.ts = <<>> THEN S ELSE InsertAll([S EXCEPT !.M = <<>>, !.cnt = 0], op.ts, op.vs, 1)
    [] op.o = "ratio" -> [S EXCEPT !.ratio = op.r]
    [] op.o = "clr"   -> [S EXCEPT !.M = <<>>, !.cnt = 0]
\* operations that have to end in a fatal check: lists of different lengths, a
\* measurement that starts a run and is not later than the end, one that would
\* move the last coefficient onto another one
Uneven(op) == Len(op.ts) # Len(op.vs)
FatalS(S, op) ==
  CASE op.o \in {"one", "many", "set", "fit"} /\ Uneven(op) -> TRUE
    [] op.o = "one" /\ Len(S.M) >= 2 /\ (S.ratio = 1 \/ S.cnt = 0) -> op.ts[1] <= EndS(S)
    [] op.o = "one" /\ Len(S.M) >= 2 -> \E i \in 1..(Len(S.M) - 1) : S.M[i].t = op.ts[1]
    [] OTHER -> FALSE
ObsS(S) == [M |-> S.M, n |-> Len(S.M), out |-> S.out]

(* ---- Hermite pose curve: lasting coefficients and a provisional last one - *)
(* H: L lasting [t, v, n, d] with velocity n/d, prov sequence of at most one,  *)
(*    cnt measurements since the last lasting one, last its time              *)
EmptyH(m, p) == [L |-> <<>>, prov |-> <<>>, cnt |-> 0, last |-> 0, min |-> m, per |-> p]
HMax(H) == IF H.prov # <<>> THEN H.prov[1].t ELSE H.L[Len(H.L)].t
Co(t, v, n, d) == [t |-> t, v |-> v, n |-> n, d |-> d]
Slope(a, t, v) == [n |-> v - a.v, d |-> t - a.t]
WithVel(a, s) == Co(a.t, a.v, s.n, s.d)
Lasting(H, t, v) ==
  LET L == H.L  m == Len(L)
      N == IF m = 0 THEN <<Co(t, v, 0, 1)>>
           ELSE IF m = 1 THEN LET s == Slope(L[1], t, v) IN <<WithVel(L[1], s), Co(t, v, s.n, s.d)>>
           ELSE LET s == Slope(L[m], t, v) IN Append([L EXCEPT ![m] = WithVel(L[m], Slope(L[m - 1], t, v))], Co(t, v, s.n, s.d))
  IN [H EXCEPT !.L = N, !.prov = <<>>, !.cnt = 0, !.last = t]
Provisional(H, t, v) ==
  LET b == H.L[Len(H.L)]
      s == IF H.prov = <<>> THEN [n |-> b.n, d |-> b.d] ELSE Slope(b, t, v)
  IN [H EXCEPT !.prov = <<Co(t, v, s.n, s.d)>>, !.cnt = @ + 1]
Measure(H, t, v) == IF H.L = <<>> \/ (H.cnt >= H.min /\ t > H.last + H.per) THEN Lasting(H, t, v) ELSE Provisional(H, t, v)
RECURSIVE Measures(_, _, _, _)
Measures(H, ts, vs, i) == IF i > Len(ts) THEN H ELSE Measures(Measure(H, ts[i], vs[i]), ts, vs, i + 1)
FitH(H, ts, vs) == [H EXCEPT !.L = [i \in 1..Len(ts) |-> IF i = 1 \/ i = Len(ts) THEN Co(ts[i], vs[i], 0, 1)
                                       ELSE Co(ts[i], vs[i], vs[i + 1] - vs[i - 1], ts[i + 1] - ts[i - 1])],
                             !.prov = <<>>, !.cnt = 0, !.last = ts[Len(ts)]]
ApplyHS(H, op) ==
  CASE op.o = "ext" -> Measures(H, op.ts, op.vs, 1)
    [] op.o = "min" -> [H EXCEPT !.min = op.r]
    [] op.o = "per" -> [H EXCEPT !.per = op.r]
    [] op.o = "fit" -> FitH(H, op.ts, op.vs)     \* and the policy told to start from there
    [] op.o = "clr" -> [H EXCEPT !.L = <<>>, !.prov = <<>>]
LegalHS(H, op) == IF op.o = "ext" /\ H.L # <<>> /\ op.ts # <<>> THEN op.ts[1] > HMax(H) ELSE TRUE
\* a measurement at or before the end of the curve it meets
RECURSIVE NotLater(_, _, _)
NotLater(empty, end, ts) == IF ts = <<>> THEN FALSE
                            ELSE (~empty /\ Head(ts) <= end) \/ NotLater(FALSE, Head(ts), Tail(ts))
FatalHS(H, op) ==
  CASE op.o = "fit" -> Uneven(op)
    [] op.o = "ext" -> ~Uneven(op) /\ NotLater(H.L = <<>>, IF H.L = <<>> THEN 0 ELSE HMax(H), op.ts)
    [] OTHER -> FALSE
ObsHS(H) == H.L \o H.prov

(* ---- properties of the design --------------------------------------------- *)
\* every run but the current one is complete, so coefficients are few
SortedS(S) == \A i \in 1..(Len(S.M) - 1) : S.M[i].t < S.M[i + 1].t
KeysS(S) == \A i, j \in 1..Len(S.M) : i # j => S.M[i].k # S.M[j].k
InnerSlopes(H) == \A i \in 2..(Len(H.L) - 1) :
   H.L[i].n * (H.L[i + 1].t - H.L[i - 1].t) = (H.L[i + 1].v - H.L[i - 1].v) * H.L[i].d
Spaced(H) == \A i \in 1..(Len(H.L) - 1) : H.L[i + 1].t > H.L[i].t
=============================================================================
