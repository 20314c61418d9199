------------------------------- MODULE GenLine -------------------------------
(***************************************************************************)
(* Generates client histories by walking the specification at random       *)
(* (TLC -simulate).  Every step draws an operation and arguments relative  *)
(* to the current abstract lines and prints the command for the harness.   *)
(***************************************************************************)
EXTENDS TransmissionLine, LineCatalog, TLC, Json, IOUtils, Randomization

Slots == 0..2
VARIABLES line, n
vars == <<line, n>>
Gone == [gone |-> TRUE]
Live(o) == line[o] # Gone
Depth == atoi(IOEnv.DEPTH)
\* "query" histories mix many coordinate queries in; "edit" ones are mostly edits
Mode == IOEnv.MODE

Stations == {0, 80, 160, 240, 333, 400, 520, 800, 1000, 1200, 1607, 2000}
Rotations == {0, 0, 80, -120, 360, -720, 77, 1}
Elevs == {0, 800, 1000, 1203, -40}
Pick(S) == RandomElement(S)
Chance(k) == RandomElement(1..100) <= k
Idx(q) == IF Chance(88) /\ Len(q) > 0 THEN Pick(0..Len(q)-1) ELSE Pick({-1, Len(q), Len(q)+3})
Origins == {<<0,0,0>>, <<8000,-4000,1600>>, <<-100,37,5>>}

\* hardware patterns by attachment
HwFor(ty, pat) ==
  [a \in 1..NAtt(ty) |->
     CASE pat = 1 -> DeadEnd [] pat = 2 -> Suspension
       [] pat = 3 -> (IF a % 2 = 1 THEN DeadEnd ELSE Suspension)
       [] pat = 4 -> (IF a % 2 = 0 THEN DeadEnd ELSE Suspension)
       [] pat = 5 -> Pick(0..2)]

Emit(c) == PrintT(ToJson(c))
Base(op, o) == [op |-> op, o |-> o]

\* singleton binders: draw once, use many times
B(x) == {x}

Weights == IF Mode = "query" THEN
   << <<"addAP", 10>>, <<"addLS", 12>>, <<"addLC", 12>>, <<"modAP", 5>>,
      <<"delAP", 4>>, <<"modLS", 8>>, <<"delLS", 4>>, <<"modLC", 3>>,
      <<"delLC", 2>>, <<"origin", 3>>, <<"copy", 3>>, <<"assign", 3>>,
      <<"destroy", 2>>, <<"new", 1>>,
      <<"qAl", 6>>, <<"qLS", 8>>, <<"qSta", 8>>, <<"qLSi", 8>>, <<"qAtt", 14>>,
      <<"qHas", 2>>, <<"qIdx", 2>>, <<"qVal", 3>> >>
 ELSE
   << <<"addAP", 10>>, <<"addLS", 16>>, <<"addLC", 26>>, <<"modAP", 7>>,
      <<"delAP", 5>>, <<"modLS", 13>>, <<"delLS", 6>>, <<"modLC", 8>>,
      <<"delLC", 3>>, <<"origin", 1>>, <<"copy", 3>>, <<"assign", 2>>,
      <<"destroy", 1>>, <<"new", 1>>, <<"modAPa", 2>>, <<"modLSa", 2>>,
      <<"modLCa", 3>>, <<"addLCa", 1>>,
      <<"qHas", 4>>, <<"qIdx", 2>>, <<"qVal", 2>>, <<"qLSi", 2>> >>

RECURSIVE PickW(_, _)
PickW(w, r) == IF r <= w[1][2] \/ Len(w) = 1 THEN w[1][1] ELSE PickW(Tail(w), r - w[1][2])
RECURSIVE SumW(_)
SumW(w) == IF w = <<>> THEN 0 ELSE w[1][2] + SumW(Tail(w))
TotalW == SumW(Weights)

\* the first steps of a history lay out a line, so that later edits matter
OpAt(k) == IF k <= 2 THEN "addAP"
           ELSE IF k \in 3..7 /\ Chance(75) THEN "addLS"
           ELSE IF k \in 8..11 /\ Chance(75) THEN "addLC"
           ELSE PickW(Weights, Pick(1..TotalW))

\* connection lists: mostly well-formed candidates, sometimes noise
GoodEnds(L, a) == {i \in 1..Len(L.st) : NAtt(L.st[i].ty) > a /\ L.st[i].hw[a+1] = DeadEnd}
GoodMids(L, a) == {i \in 1..Len(L.st) : NAtt(L.st[i].ty) > a /\ L.st[i].hw[a+1] = Suspension}
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y
                                      IN <<m>> \o SetSeq(S \ {m})
\* any structures, each with an attachment that carries the right hardware there
HwAtts(L, i, k) == {a \in 0..NAtt(L.st[i].ty)-1 : L.st[i].hw[a+1] = k}
\* prefer free attachments
FreeOf(L, i, k) == LET S == HwAtts(L, i, k) F == {a \in S : ~Occupied(L, L.st[i].id, a)}
                   IN IF F # {} /\ Chance(70) THEN F ELSE S
SmartConns(o) ==
  LET L == line[o]
      ends == {i \in 1..Len(L.st) : HwAtts(L, i, DeadEnd) # {}}
  IN IF Card(ends) < 2 THEN <<>>
     ELSE LET two == CHOOSE T \in B({Pick(ends), Pick(ends)}) : TRUE IN
          LET lo == CHOOSE x \in two : \A y \in two : x <= y
              hi == CHOOSE x \in two : \A y \in two : x >= y
              mids == {i \in lo+1..hi-1 : HwAtts(L, i, Suspension) # {} /\ Chance(60)}
              m == SetSeq(mids)
              mid == [k \in 1..Len(m) |-> <<o, m[k]-1, Pick(FreeOf(L, m[k], Suspension))>>]
          IN << <<o, lo-1, Pick(FreeOf(L, lo, DeadEnd))>> >> \o mid
             \o << <<o, hi-1, Pick(FreeOf(L, hi, DeadEnd))>> >>
NoiseConns(o) ==
  [k \in 1..Pick(0..4) |-> <<IF Chance(90) THEN o ELSE Pick(Slots),
                             Pick(-1..Len(line[o].st)), Pick(-1..4)>>]
Shuffle(q) == IF Len(q) >= 2 /\ Chance(40) THEN Tail(q) \o <<q[1]>> ELSE q
ConnsFor(o) == IF Chance(80) THEN Shuffle(SmartConns(o)) ELSE NoiseConns(o)

RandStruct(x) == [s |-> x[1], h |-> x[2], o |-> x[3], r |-> x[4], ty |-> x[5]]
StructFields(o) == <<Pick(Stations), Pick({0, 16, 40}), Pick({0, 0, 24, -36}),
                     Pick(Rotations), IF Chance(95) THEN Pick(1..Len(Types)) ELSE 0>>
PointFields(o) == <<Pick(Stations), Pick(Elevs), Pick(Rotations)>>

\* abstract successor, with the same argument conventions as TraceLine
RawConn(o, x) == LET L == line[x[1]] IN
  [id |-> IF x[1] = o THEN L.st[x[2]+1].id ELSE -5 - x[2], s |-> L.st[x[2]+1].s, at |-> x[3]]
ConnArg(o, q) ==
  LET v == SelectSeq(q, LAMBDA x : Live(x[1]) /\ ValidIndex(line[x[1]].st, x[2]))
  IN Conns([k \in 1..Len(v) |-> RawConn(o, v[k])])

Do(o, r) == line' = [line EXCEPT ![o] = r.line]
Keep == UNCHANGED line

PointOp(op, o) ==
  \E p \in B(PointFields(o)), i \in B(Idx(line[o].al)) :
    LET pt == [s |-> p[1], e |-> p[2], r |-> p[3]] IN
    IF op = "addAP"
    THEN Emit(Base(op, o) @@ [p |-> p]) /\ Do(o, AddAlignmentPoint(line[o], pt))
    ELSE Emit(Base(op, o) @@ [p |-> p, i |-> i]) /\ Do(o, ModifyAlignmentPoint(line[o], i, pt))
StructOp(op, o) ==
  \* a modification usually moves the structure a little or changes its type in place
  \E i \in B(Idx(line[o].st)) : \E keep \in B(Chance(60)) :
  \E x \in B(LET f == StructFields(o) IN
             IF op = "modLS" /\ keep /\ ValidIndex(line[o].st, i)
             THEN <<line[o].st[i+1].s>> \o Tail(f) ELSE f) :
  \E hw \in B(HwFor(x[5], Pick(1..5))) :
    LET st == RandStruct(x) @@ [hw |-> hw] IN
    IF op = "addLS"
    THEN Emit(Base(op, o) @@ [x |-> x, hw |-> hw]) /\ Do(o, AddLineStructure(line[o], st))
    ELSE Emit(Base(op, o) @@ [x |-> x, hw |-> hw, i |-> i])
         /\ Do(o, ModifyLineStructure(line[o], i, st))
CableOp(op, o) ==
  \E cn \in B(ConnsFor(o)), i \in B(Idx(line[o].cb)), tag \in B(Pick(1..999)) :
    LET c == [tag |-> tag, cn |-> ConnArg(o, cn)] IN
    IF op = "addLC"
    THEN Emit(Base(op, o) @@ [tag |-> tag, cn |-> cn]) /\ Do(o, AddLineCable(line[o], c))
    ELSE Emit(Base(op, o) @@ [tag |-> tag, cn |-> cn, i |-> i])
         /\ Do(o, ModifyLineCable(line[o], i, c))
DelOp(op, o) ==
  LET q == CASE op = "delAP" -> line[o].al [] op = "delLS" -> line[o].st [] op = "delLC" -> line[o].cb
  IN \E i \in B(Idx(q)) :
       /\ Emit(Base(op, o) @@ [i |-> i])
       /\ Do(o, CASE op = "delAP" -> DeleteAlignmentPoint(line[o], i)
                  [] op = "delLS" -> DeleteLineStructure(line[o], i)
                  [] op = "delLC" -> DeleteLineCable(line[o], i))
\* arguments that are references into the line itself
AliasOp(op, o) ==
  LET L == line[o]
      q == CASE op = "modAPa" -> L.al [] op = "modLSa" -> L.st [] OTHER -> L.cb
      x(j) == [f \in {"s","h","o","r","ty","hw"} |-> L.st[j+1][f]]
  IN IF q = <<>> THEN Keep ELSE
     \E i \in B(Idx(q)), j \in B(Pick(0..Len(q)-1)) :
       /\ Emit(Base(op, o) @@ [i |-> i, j |-> j])
       /\ Do(o, CASE op = "modAPa" -> ModifyAlignmentPoint(L, i, L.al[j+1])
                  [] op = "modLSa" -> ModifyLineStructure(L, i, x(j))
                  [] op = "modLCa" -> ModifyLineCable(L, i, L.cb[j+1])
                  [] op = "addLCa" -> AddLineCable(L, L.cb[j+1]))
SlotOp(op, o) ==
  CASE op = "origin" ->
         \E p \in B(Pick(Origins)) : /\ Emit(Base(op, o) @@ [p |-> p])
                                     /\ Do(o, SetOrigin(line[o], p))
    [] op \in {"copy", "assign"} ->
         \E to \in B(Pick(Slots)) :
           IF (op = "assign" /\ ~Live(to)) \/ (op = "copy" /\ to = o) THEN Keep
           ELSE /\ Emit(Base(op, to) @@ [from |-> o])
                /\ line' = [line EXCEPT ![to] = line[o]]
    [] op = "destroy" ->
         IF Card({s \in Slots : Live(s)}) < 2 THEN Keep
         ELSE Emit(Base(op, o)) /\ line' = [line EXCEPT ![o] = Gone]
    [] op = "new" -> \E to \in B(Pick(Slots)) :
           IF Live(to) THEN Keep
           ELSE Emit(Base(op, to)) /\ line' = [line EXCEPT ![to] = EmptyLine]
QueryOp(op, o) ==
  LET L == line[o] IN
  \E i \in B(Idx(L.st)), a \in B(Pick({-1, 0, 0, 1, 2, 3, 4})), from \in B(Pick(Slots)),
     s \in B(IF Chance(40) THEN Pick(Stations) ELSE Pick(-40..2040)) :
  /\ Keep
  /\ CASE op \in {"qAl", "qLS", "qVal"} -> Emit(Base(op, o))
       [] op = "qSta" -> Emit(Base(op, o) @@ [s |-> s])
       [] op = "qLSi" -> Emit(Base(op, o) @@ [i |-> i])
       [] op = "qAtt" -> Emit(Base(op, o) @@ [i |-> i, a |-> a])
       [] op = "qHas" -> Emit(Base(op, o) @@ [i |-> i, a |-> a])
       [] op = "qIdx" -> IF Live(from) THEN Emit(Base(op, o) @@ [i |-> i, from |-> from]) ELSE TRUE

Act(op, o) ==
  CASE op \in {"addAP", "modAP"} -> PointOp(op, o)
    [] op \in {"addLS", "modLS"} -> StructOp(op, o)
    [] op \in {"addLC", "modLC"} -> CableOp(op, o)
    [] op \in {"delAP", "delLS", "delLC"} -> DelOp(op, o)
    [] op \in {"modAPa", "modLSa", "modLCa", "addLCa"} -> AliasOp(op, o)
    [] op \in {"origin", "copy", "assign", "destroy", "new"} -> SlotOp(op, o)
    [] OTHER -> QueryOp(op, o)

Init == /\ n = 0
        /\ line = [s \in Slots |-> IF s = 0 THEN EmptyLine ELSE Gone]
Next == /\ n < Depth
        /\ n' = n + 1
        /\ n = 0 => Emit([op |-> "reset", comp |-> "line", types |-> Types])
        /\ \E op \in B(OpAt(n+1)),
              o \in B(IF n < 14 \/ Chance(60) THEN 0 ELSE Pick({s \in Slots : Live(s)})) :
             IF Live(o) THEN Act(op, o) ELSE Keep
=============================================================================
