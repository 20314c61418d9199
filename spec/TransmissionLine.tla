-------------------------- MODULE TransmissionLine --------------------------
(***************************************************************************)
(* Abstract transmission line: what a client can observe, and what every   *)
(* public edit does to it.  One operator per API call; each returns        *)
(* [line |-> successor, ret |-> value returned to the caller].             *)
(* All quantities are integers in 1/8 units (feet or degrees); indexes are *)
(* 0-based as in the API, sequences 1-based as in TLA+.                    *)
(*                                                                         *)
(* line = [al : Seq([s,e,r])            alignment: station/elev/rotation   *)
(*         st : Seq([id,s,h,o,r,ty,hw]) structures: identity, station,     *)
(*                 height adj., offset, rotation, type (0 = no structure), *)
(*                 hw : Seq(0..2) none / dead-end / suspension             *)
(*         cb : Seq([tag,cn:Seq([id,at])]) cables and their connections    *)
(*         org : <<x,y,z>>              origin                             *)
(*         nid : Nat]                   next fresh structure identity      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT Types        \* Types[ty] = [height, atts : Seq([v,l,t])]; ty in 1..n

DeadEnd == 1
Suspension == 2

EmptyLine == [al |-> <<>>, st |-> <<>>, cb |-> <<>>,
              org |-> <<-7999992, -7999992, -7999992>>, nid |-> 1]

NAtt(ty) == IF ty = 0 THEN 0 ELSE Len(Types[ty].atts)

RemAt(q, i) == SubSeq(q, 1, i-1) \o SubSeq(q, i+1, Len(q))
InsAt(q, i, x) == SubSeq(q, 1, i-1) \o <<x>> \o SubSeq(q, i, Len(q))
\* keeps the elements satisfying Keep(_)
Filter(q, Keep(_)) == SelectSeq(q, Keep)
Card(S) == Cardinality(S)
ValidIndex(q, i) == i \in 0 .. Len(q)-1

(* ----- helpers on a line ------------------------------------------------ *)
StIndex(L, id) == IF \E i \in 1..Len(L.st) : L.st[i].id = id
                  THEN CHOOSE i \in 1..Len(L.st) : L.st[i].id = id ELSE 0
InAlignment(L, s) == /\ Len(L.al) > 0
                     /\ L.al[1].s <= s
                     /\ s <= L.al[Len(L.al)].s

\* a connection list that may exist on the line
ValidConns(L, cn) ==
  /\ Len(cn) >= 2
  /\ \A k \in 1..Len(cn) :
       LET i == StIndex(L, cn[k].id) IN
       /\ i > 0
       /\ cn[k].at \in 0 .. NAtt(L.st[i].ty)-1
       /\ L.st[i].hw[cn[k].at + 1]
            = IF k \in {1, Len(cn)} THEN DeadEnd ELSE Suspension

Occupied(L, id, at) ==
  \E c \in 1..Len(L.cb) : \E k \in 1..Len(L.cb[c].cn) :
      L.cb[c].cn[k].id = id /\ L.cb[c].cn[k].at = at

\* cables are ordered by (starting structure, starting attachment)
StartKey(L, cn) == <<StIndex(L, cn[1].id), cn[1].at>>
KeyLess(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])

\* what an edit of alignment or structures forces: structures outside the
\* alignment go, connections that lost structure or attachment go, and cables
\* whose remaining connections are not a valid cable go
Cascade(L) ==
  LET st2 == Filter(L.st, LAMBDA t : InAlignment(L, t.s))
      L2  == [L EXCEPT !.st = st2]
      KeepConn(c) == LET i == StIndex(L2, c.id) IN
                     i > 0 /\ c.at \in 0 .. NAtt(st2[i].ty)-1
      cb2 == [k \in 1..Len(L.cb) |->
                [L.cb[k] EXCEPT !.cn = Filter(@, KeepConn)]]
      KeepCable(c) == ValidConns(L2, c.cn)
  IN [L2 EXCEPT !.cb = Filter(cb2, KeepCable)]

Ok(L, r)   == [line |-> L, ret |-> r]
Refuse(L, r) == [line |-> L, ret |-> r]

(* ----- alignment points -------------------------------------------------- *)
AddAlignmentPoint(L, p) ==
  IF \E i \in 1..Len(L.al) : L.al[i].s = p.s THEN Refuse(L, -1)
  ELSE LET n == Card({i \in 1..Len(L.al) : L.al[i].s < p.s})
       IN Ok([L EXCEPT !.al = InsAt(@, n+1, p)], n)

DeleteAlignmentPoint(L, i) ==
  IF ~ValidIndex(L.al, i) THEN Refuse(L, FALSE)
  ELSE Ok(Cascade([L EXCEPT !.al = RemAt(@, i+1)]), TRUE)

ModifyAlignmentPoint(L, i, p) ==
  IF ~ValidIndex(L.al, i) THEN Refuse(L, -1)
  ELSE LET L1 == [L EXCEPT !.al = RemAt(@, i+1)]
           r  == AddAlignmentPoint(L1, p)
       IN IF r.ret = -1 THEN Refuse(L, -1) ELSE Ok(Cascade(r.line), r.ret)

(* ----- structures -------------------------------------------------------- *)
\* x = [s,h,o,r,ty,hw]
AddLineStructure(L, x) ==
  IF ~InAlignment(L, x.s) \/ \E i \in 1..Len(L.st) : L.st[i].s = x.s
  THEN Refuse(L, -1)
  ELSE LET n == Card({i \in 1..Len(L.st) : L.st[i].s < x.s})
       IN Ok([L EXCEPT !.st = InsAt(@, n+1, [id |-> L.nid] @@ x),
                       !.nid = @ + 1], n)

DeleteLineStructure(L, i) ==
  IF ~ValidIndex(L.st, i) THEN Refuse(L, FALSE)
  ELSE Ok(Cascade([L EXCEPT !.st = RemAt(@, i+1)]), TRUE)

ModifyLineStructure(L, i, x) ==
  IF \/ ~ValidIndex(L.st, i)
     \/ ~InAlignment(L, x.s)
     \/ i > 0 /\ x.s <= L.st[i].s
     \/ i < Len(L.st)-1 /\ L.st[i+2].s <= x.s
  THEN Refuse(L, FALSE)
  ELSE Ok(Cascade([L EXCEPT !.st[i+1] = [id |-> L.st[i+1].id] @@ x]), TRUE)

(* ----- cables ------------------------------------------------------------ *)
\* c = [tag, cn]; connections already ordered by station (LineCable's job);
\* a foreign structure is given an id no structure of the line has
AddLineCable(L, c) ==
  IF \/ ~ValidConns(L, c.cn)
     \/ \E k \in 1..Len(c.cn) : Occupied(L, c.cn[k].id, c.cn[k].at)
  THEN Refuse(L, -1)
  ELSE LET n == Card({k \in 1..Len(L.cb) :
                        KeyLess(StartKey(L, L.cb[k].cn), StartKey(L, c.cn))})
       IN Ok([L EXCEPT !.cb = InsAt(@, n+1, c)], n)

DeleteLineCable(L, i) ==
  IF ~ValidIndex(L.cb, i) THEN Refuse(L, FALSE)
  ELSE Ok([L EXCEPT !.cb = RemAt(@, i+1)], TRUE)

ModifyLineCable(L, i, c) ==
  IF ~ValidIndex(L.cb, i) THEN Refuse(L, -1)
  ELSE LET r == AddLineCable([L EXCEPT !.cb = RemAt(@, i+1)], c)
       IN IF r.ret = -1 THEN Refuse(L, -1) ELSE r

SetOrigin(L, o) == Ok([L EXCEPT !.org = o], 0)

(* ----- simple queries ---------------------------------------------------- *)
HasConnection(L, i, a) == ValidIndex(L.st, i) /\ Occupied(L, L.st[i+1].id, a)

\* connections as a client sees them: structure index and attachment
ConnView(L, cn) == [k \in 1..Len(cn) |-> <<StIndex(L, cn[k].id) - 1, cn[k].at>>]
View(L) == [al |-> [k \in 1..Len(L.al) |-> <<L.al[k].s, L.al[k].e, L.al[k].r>>],
            st |-> [k \in 1..Len(L.st) |->
                      <<L.st[k].s, L.st[k].h, L.st[k].o, L.st[k].r,
                        L.st[k].ty, L.st[k].hw>>],
            cb |-> [k \in 1..Len(L.cb) |->
                      <<L.cb[k].tag, ConnView(L, L.cb[k].cn)>>],
            org |-> L.org]

(* ----- structural soundness, on what the client sees --------------------- *)
\* V is a View; used on the model (as an invariant) and on the recorded line
AlignmentSorted(V) == \A k \in 1..Len(V.al)-1 : V.al[k][1] < V.al[k+1][1]
StructuresSorted(V) == \A k \in 1..Len(V.st)-1 : V.st[k][1] < V.st[k+1][1]
StructuresInside(V) ==
  \A k \in 1..Len(V.st) : /\ Len(V.al) > 0
                          /\ V.al[1][1] <= V.st[k][1]
                          /\ V.st[k][1] <= V.al[Len(V.al)][1]
HardwareSized(V) == \A k \in 1..Len(V.st) : Len(V.st[k][6]) = NAtt(V.st[k][5])
CablesSound(V) ==
  \A c \in 1..Len(V.cb) :
    LET cn == V.cb[c][2] IN
    /\ Len(cn) >= 2
    /\ \A k \in 1..Len(cn) :
         /\ cn[k][1] \in 0 .. Len(V.st)-1
         /\ cn[k][2] \in 0 .. Len(V.st[cn[k][1]+1][6])-1
         /\ V.st[cn[k][1]+1][6][cn[k][2]+1]
              = IF k \in {1, Len(cn)} THEN DeadEnd ELSE Suspension
         /\ k > 1 => cn[k-1][1] < cn[k][1]
OneCablePerAttachment(V) ==
  \A c, d \in 1..Len(V.cb) : c # d =>
    \A k \in 1..Len(V.cb[c][2]), m \in 1..Len(V.cb[d][2]) :
       V.cb[c][2][k] # V.cb[d][2][m]
CablesSorted(V) ==
  \A k \in 1..Len(V.cb)-1 : KeyLess(V.cb[k][2][1], V.cb[k+1][2][1])

Sound(V) == /\ AlignmentSorted(V) /\ StructuresSorted(V) /\ StructuresInside(V)
            /\ HardwareSized(V) /\ CablesSound(V)
            /\ OneCablePerAttachment(V) /\ CablesSorted(V)

(* ----- client-side construction of a LineCable argument ------------------ *)
\* raw = Seq([id, s, at]); LineCable::AddConnection keeps them by station and
\* drops duplicates
RECURSIVE BuildConns(_, _)
BuildConns(raw, acc) ==
  IF raw = <<>> THEN acc
  ELSE LET x == Head(raw)
           n == Card({k \in 1..Len(acc) : acc[k].s < x.s})
           dup == \E k \in 1..Len(acc) : acc[k].s = x.s
       IN BuildConns(Tail(raw), IF dup THEN acc ELSE InsAt(acc, n+1, x))
Conns(raw) == LET b == BuildConns(raw, <<>>)
              IN [k \in 1..Len(b) |-> [id |-> b[k].id, at |-> b[k].at]]
=============================================================================
