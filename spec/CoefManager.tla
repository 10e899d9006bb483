---------------------------- MODULE CoefManager ----------------------------
(* Coefficient store of a curve: an ordered map from time to (key, value)   *)
(* with keys that are handed out once and stay with their coefficient.      *)
(* Pure operators only: state is passed in and results are returned, so the *)
(* generator (CoefManagerMC) and the trace checker (CoefManagerTrace) share *)
(* exactly the same transition and observation functions.                   *)
(* Times are ranks: the conformance layer maps them to increasing reals.    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

NoTime == -1            \* reported first/last time of an empty store
NoKey  == -1

Empty == [t \in {} |-> [k |-> 0, v |-> 0]]

Times(m)    == DOMAIN m
SortedTimes(m) == SetToSortSeq(DOMAIN m, <)
Keys(m)     == { m[t].k : t \in DOMAIN m }
HasT(m, t)  == t \in DOMAIN m
HasK(m, k)  == \E t \in DOMAIN m : m[t].k = k
TimeOf(m,k) == CHOOSE t \in DOMAIN m : m[t].k = k
MinT(m)     == Min(DOMAIN m)
MaxT(m)     == Max(DOMAIN m)

Put(m, t, k, v) == [x \in DOMAIN m \cup {t} |-> IF x = t THEN [k |-> k, v |-> v] ELSE m[x]]
Drop(m, t)      == [x \in DOMAIN m \ {t} |-> m[x]]
SetV(m, t, v)   == [m EXCEPT ![t].v = v]

(* ---- transitions: each returns [m, nk, out] (out: keys reported) -------- *)
R(m, nk, out) == [m |-> m, nk |-> nk, out |-> out]

Insert(m, nk, t, v) ==
  IF HasT(m, t) THEN R(SetV(m, t, v), nk, <<m[t].k>>)
  ELSE R(Put(m, t, nk + 1, v), nk + 1, <<nk + 1>>)

RECURSIVE InsertMany(_, _, _, _, _)
InsertMany(m, nk, ts, vs, out) ==
  IF ts = <<>> THEN R(m, nk, out)
  ELSE LET r == Insert(m, nk, Head(ts), Head(vs))
       IN InsertMany(r.m, r.nk, Tail(ts), Tail(vs), out \o r.out)

CanAppend(m, t) == IF Times(m) = {} THEN TRUE ELSE t > MaxT(m)
AppendEnd(m, nk, t, v) == R(Put(m, t, nk + 1, v), nk + 1, <<nk + 1>>)

CanMove(m, t, t2) == HasT(m, t) /\ (t2 = t \/ ~HasT(m, t2))
Move(m, nk, t, t2, v) == R(Put(Drop(m, t), t2, m[t].k, v), nk, <<>>)

RemoveT(m, nk, t) == R(Drop(m, t), nk, <<>>)
RemoveK(m, nk, k) == R(Drop(m, TimeOf(m, k)), nk, <<>>)
UpdateK(m, nk, k, v) == R(SetV(m, TimeOf(m, k), v), nk, <<>>)

RECURSIVE UpdateMany(_, _, _)
UpdateMany(m, ks, vs) ==
  IF ks = <<>> THEN m
  ELSE UpdateMany(SetV(m, TimeOf(m, Head(ks)), Head(vs)), Tail(ks), Tail(vs))

(* A batch names consecutive coefficients starting at its first time *)
CanBatch(m, ts) ==
  \/ ts = <<>>
  \/ /\ HasT(m, ts[1])
     /\ LET s == SortedTimes(m)
            i == CHOOSE j \in 1..Len(s) : s[j] = ts[1]
        IN Len(ts) <= Len(s) - i + 1 /\ \A j \in 1..Len(ts) : s[i + j - 1] = ts[j]
RECURSIVE Batch(_, _, _)
Batch(m, ts, vs) ==
  IF ts = <<>> THEN m ELSE Batch(SetV(m, Head(ts), Head(vs)), Tail(ts), Tail(vs))

(* ---- one operation on a vector of stores -------------------------------- *)
(* op.o: name, op.i: which store, op.ts, op.vs, op.ks: arguments             *)
Legal(M, op) ==
  LET m == M[op.i] IN
  CASE op.o = "ins"    -> TRUE
    [] op.o = "insm"   -> Len(op.ts) = Len(op.vs)
    [] op.o = "insn"   -> Len(op.ts) = Len(op.vs)
    [] op.o = "app"    -> CanAppend(m, op.ts[1])
    [] op.o = "appn"   -> CanAppend(m, op.ts[1])
    [] op.o = "mov"    -> CanMove(m, op.ts[1], op.ts[2])
    [] op.o = "rmt"    -> HasT(m, op.ts[1])
    [] op.o = "rmk"    -> HasK(m, op.ks[1])
    [] op.o = "upd"    -> HasK(m, op.ks[1])
    [] op.o = "updm"   -> \A i \in 1..Len(op.ks) : HasK(m, op.ks[i])
    [] op.o = "bat"    -> Len(op.ts) = Len(op.vs) /\ CanBatch(m, op.ts)
    [] op.o = "clr"    -> TRUE
    [] op.o = "cpa"    -> TRUE     \* store op.i := copy of store op.j (assignment)
    [] op.o = "cpc"    -> TRUE     \* same through the copy constructor
    [] op.o = "new"    -> TRUE     \* store op.i destroyed and replaced by a new one
    [] op.o = "getk"   -> HasK(m, op.ks[1])
    [] op.o = "gett"   -> HasK(m, op.ks[1])

Apply(M, nk, op) ==
  LET m == M[op.i]
      r == CASE op.o = "ins"  -> Insert(m, nk, op.ts[1], op.vs[1])
             [] op.o = "insm" -> InsertMany(m, nk, op.ts, op.vs, <<>>)
             [] op.o = "insn" -> [InsertMany(m, nk, op.ts, op.vs, <<>>) EXCEPT !.out = <<>>]
             [] op.o = "app"  -> AppendEnd(m, nk, op.ts[1], op.vs[1])
             [] op.o = "appn" -> [AppendEnd(m, nk, op.ts[1], op.vs[1]) EXCEPT !.out = <<>>]
             [] op.o = "mov"  -> Move(m, nk, op.ts[1], op.ts[2], op.vs[1])
             [] op.o = "rmt"  -> RemoveT(m, nk, op.ts[1])
             [] op.o = "rmk"  -> RemoveK(m, nk, op.ks[1])
             [] op.o = "upd"  -> UpdateK(m, nk, op.ks[1], op.vs[1])
             [] op.o = "updm" -> R(UpdateMany(m, op.ks, op.vs), nk, <<>>)
             [] op.o = "bat"  -> R(Batch(m, op.ts, op.vs), nk, <<>>)
             [] op.o = "clr"  -> R(Empty, nk, <<>>)
             [] op.o = "new"  -> R(Empty, nk, <<>>)
             [] op.o = "cpa"  -> R(M[op.j], nk, <<>>)
             [] op.o = "cpc"  -> R(M[op.j], nk, <<>>)
  IN [M |-> [M EXCEPT ![op.i] = r.m], nk |-> r.nk, out |-> r.out]

(* ---- observations --------------------------------------------------------- *)
(* Bracketing lookup: <<>> on failure, else the two neighbouring times        *)
Bracket(m, t) ==
  IF Cardinality(Times(m)) < 2 \/ t < MinT(m) \/ t > MaxT(m) THEN <<>>
  ELSE IF t = MaxT(m) THEN <<Max({x \in Times(m) : x < t}), t>>
  ELSE <<Max({x \in Times(m) : x <= t}), Min({x \in Times(m) : x > t})>>

(* Times from b to the end of the curve *)
Window(m, b) == SetToSortSeq({x \in Times(m) : x >= b}, <)

(* Keys of the coefficients needed to evaluate on [s, e] *)
RangeTimes(m, s, e) ==
  IF Times(m) = {} \/ s > e \/ s > MaxT(m) \/ e < MinT(m) THEN {}
  ELSE LET lo == Max({x \in Times(m) : x <= Max({s, MinT(m)})})
           hi == Min({x \in Times(m) : x >= Min({e, MaxT(m)})})
       IN {x \in Times(m) : lo <= x /\ x <= hi}
RangeKeys(m, s, e) == SetToSortSeq({m[x].k : x \in RangeTimes(m, s, e)}, <)

B(b) == IF b THEN 1 ELSE 0

(* grid: every rank that may be asked for, 1..Q; keys ever handed out: 1..nk  *)
ObsStore(m, nk, Q) ==
  LET s == SortedTimes(m) IN
  [ agree |-> 1,          \* all ways of listing the contents agree
    size  |-> Cardinality(Times(m)),
    empty |-> B(Times(m) = {}),
    times |-> s,
    keys  |-> [i \in 1..Len(s) |-> m[s[i]].k],
    vals  |-> [i \in 1..Len(s) |-> m[s[i]].v],
    min   |-> IF s = <<>> THEN NoTime ELSE s[1],
    max   |-> IF s = <<>> THEN NoTime ELSE s[Len(s)],
    hast  |-> [t \in 1..Q |-> B(HasT(m, t))],
    hask  |-> [k \in 1..nk |-> B(HasK(m, k))],
    byk   |-> [k \in 1..nk |-> IF HasK(m, k) THEN <<TimeOf(m, k), m[TimeOf(m, k)].v>> ELSE <<>>] ]
ObsBracket(m, Q) == [t \in 1..Q |-> Bracket(m, t)]
ObsWindow(m, Q)  == [b \in 1..Q |-> IF Times(m) # {} /\ b >= MinT(m) THEN Window(m, b) ELSE <<>>]
ObsRange(m, Q)   == [s \in 1..Q |-> [e \in 1..Q |-> RangeKeys(m, s, e)]]
ObsEquals(M)     == [i \in 1..Len(M) |-> [j \in 1..Len(M) |-> B(M[i] = M[j])]]

(* ---- properties of the design ----------------------------------------------- *)
KeysUnique(m)    == \A a, b \in DOMAIN m : m[a].k = m[b].k => a = b
KeysIssued(m,nk) == \A t \in DOMAIN m : m[t].k \in 1..nk
StoreOK(M, nk)   == \A i \in 1..Len(M) : KeysUnique(M[i]) /\ KeysIssued(M[i], nk)

(* an edit changes only what it names *)
Named(M, op) ==   \* times of store op.i an edit may touch
  CASE op.o \in {"ins", "insm", "insn", "app", "appn", "mov", "rmt", "bat"} -> {op.ts[j] : j \in 1..Len(op.ts)}
    [] op.o \in {"rmk", "upd", "updm"} -> {TimeOf(M[op.i], op.ks[j]) : j \in 1..Len(op.ks)}
    [] OTHER -> Times(M[op.i]) \cup (IF op.o \in {"cpa", "cpc"} THEN Times(M[op.j]) ELSE {})
Frame(M, op, M2) ==
  /\ \A i \in 1..Len(M) : i # op.i => M2[i] = M[i]
  /\ \A t \in Times(M[op.i]) \ Named(M, op) : t \in Times(M2[op.i]) /\ M2[op.i][t] = M[op.i][t]
=============================================================================
