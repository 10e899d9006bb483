--------------------------- MODULE CoefManagerMC ---------------------------
(* Generates behaviours of one or two coefficient stores within bounds.     *)
EXTENDS CoefManager, TLC, Json
CONSTANTS N,          \* number of stores
          Ranks,      \* times that may be stored
          Q,          \* observation grid 1..Q
          MaxKeys,    \* keys handed out at most
          MaxVal,     \* values 1..MaxVal
          MaxLen,     \* length of histories
          OpNames,    \* operations used
          Sections,   \* observations printed
          Fatal       \* print illegal operations of every state
VARIABLES M, nk, hist

Op(o, i, ts, vs, ks) == [o |-> o, i |-> i, ts |-> ts, vs |-> vs, ks |-> ks, j |-> i]
CopyOp(o, i, j) == [o |-> o, i |-> i, ts |-> <<>>, vs |-> <<>>, ks |-> <<>>, j |-> j]

(* argument values: a fresh value per step keeps stale data visible *)
V == 1 + (Len(hist) % MaxVal)
V2 == 1 + ((Len(hist) + 1) % MaxVal)

Args(o, i) ==
  LET m == M[i]  s == SortedTimes(m) IN
  CASE o = "ins"  -> {Op(o, i, <<t>>, <<V>>, <<>>) : t \in Ranks}
    [] o \in {"insm", "insn"} -> {Op(o, i, <<t, u>>, <<V, V2>>, <<>>) : t \in Ranks, u \in Ranks}
    [] o \in {"app", "appn"}  -> {Op(o, i, <<t>>, <<V>>, <<>>) : t \in Ranks}
    [] o = "mov"  -> {Op(o, i, <<t, u>>, <<V>>, <<>>) : t \in Times(m), u \in Ranks}
    [] o = "rmt"  -> {Op(o, i, <<t>>, <<>>, <<>>) : t \in Ranks}
    [] o = "rmk"  -> {Op(o, i, <<>>, <<>>, <<k>>) : k \in 1..nk}
    [] o = "upd"  -> {Op(o, i, <<>>, <<V>>, <<k>>) : k \in 1..nk}
    [] o = "updm" -> {Op(o, i, <<>>, <<V, V2>>, <<k, l>>) : k \in Keys(m), l \in Keys(m) } \cup
                     {Op(o, i, <<>>, <<>>, <<>>)}
    [] o = "bat"  -> {Op(o, i, SubSeq(s, a, b), [x \in 1..(b - a + 1) |-> 1 + ((Len(hist) + x) % MaxVal)], <<>>)
                        : a \in 1..Len(s), b \in 0..Len(s)}
    [] o = "clr"  -> {Op(o, i, <<>>, <<>>, <<>>)}
    [] o = "new"  -> {Op(o, i, <<>>, <<>>, <<>>)}
    [] o \in {"cpa", "cpc"} -> {CopyOp(o, i, j) : j \in 1..N}

GoodArgs(op) == /\ op.o = "updm" => (Len(op.ks) = 0 \/ op.ks[1] # op.ks[2])
                /\ op.o = "bat" => Len(op.ts) = Len(op.vs)
Ops == {op \in UNION {Args(o, i) : o \in OpNames, i \in 1..N} : GoodArgs(op)}

Init == M = [i \in 1..N |-> Empty] /\ nk = 0 /\ hist = <<>>
Next ==
  /\ Len(hist) < MaxLen
  /\ \E op \in {o \in Ops : Legal(M, o)} :
       /\ LET r == Apply(M, nk, op) IN
            /\ r.nk <= MaxKeys
            /\ M' = r.M /\ nk' = r.nk
            /\ hist' = Append(hist, [op |-> op, out |-> r.out])

View == <<M, nk>>

(* ---- design properties, checked by TLC in the same run ------------------- *)
InvStore == StoreOK(M, nk)
FrameOK  == hist' # hist => Frame(M, hist'[Len(hist')].op, M')
InvFrame == [][FrameOK]_<<M, nk, hist>>
KeyMono  == [][nk' >= nk]_<<M, nk, hist>>

(* ---- output ------------------------------------------------------------------ *)
Id(mm, n) == <<[i \in 1..N |-> LET s == SortedTimes(mm[i]) IN [x \in 1..Len(s) |-> <<s[x], mm[i][s[x]].k, mm[i][s[x]].v>>]], n>>
Obs == [ st |-> IF "st" \in Sections THEN [i \in 1..N |-> ObsStore(M[i], nk, Q)] ELSE <<>>,
         br |-> IF "br" \in Sections THEN [i \in 1..N |-> ObsBracket(M[i], Q)] ELSE <<>>,
         wi |-> IF "wi" \in Sections THEN [i \in 1..N |-> ObsWindow(M[i], Q)] ELSE <<>>,
         rg |-> IF "rg" \in Sections THEN [i \in 1..N |-> ObsRange(M[i], Q)] ELSE <<>>,
         eq |-> IF "eq" \in Sections THEN ObsEquals(M) ELSE <<>> ]

(* Illegal operations of this state: the missing times and keys, taken times,  *)
(* out-of-order appends, mismatched lengths                                      *)
BadOps ==
  LET cand == UNION {
        UNION {{Op("rmt", i, <<t>>, <<>>, <<>>) : t \in 1..Q},
               {Op("rmk", i, <<>>, <<>>, <<k>>) : k \in 1..(nk + 1)},
               {Op("upd", i, <<>>, <<V>>, <<k>>) : k \in 1..(nk + 1)},
               {Op("getk", i, <<>>, <<>>, <<k>>) : k \in 1..(nk + 1)},
               {Op("gett", i, <<>>, <<>>, <<k>>) : k \in 1..(nk + 1)},
               {Op("app", i, <<t>>, <<V>>, <<>>) : t \in Ranks},
               {Op("mov", i, <<t, u>>, <<V>>, <<>>) : t \in Times(M[i]), u \in Ranks},
               {Op("insm", i, <<t>>, <<>>, <<>>) : t \in Ranks},
               {Op("insm", i, <<t>>, <<V, V2>>, <<>>) : t \in Ranks},
               {Op("bat", i, <<t>>, <<V>>, <<>>) : t \in Ranks},
               {Op("bat", i, <<t, u>>, <<V, V2>>, <<>>) : t \in Ranks, u \in Ranks},
               {Op("bat", i, <<t>>, <<>>, <<>>) : t \in Ranks},
               {Op("updm", i, <<>>, <<V, V2>>, <<k, nk + 1>>) : k \in 1..nk}}
        : i \in 1..N}
  IN {op \in cand : ~Legal(M, op)}

PrintState == PrintT(ToJson([s |-> Id(M, nk), obs |-> Obs, h |-> hist, bad |-> IF Fatal THEN SetToSeq(BadOps) ELSE <<>>]))
PrintEdge  == PrintT(ToJson([h |-> hist', d |-> Id(M', nk')]))
=============================================================================
