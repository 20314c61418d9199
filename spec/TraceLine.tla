------------------------------ MODULE TraceLine ------------------------------
(***************************************************************************)
(* Trace validation of recorded TransmissionLine executions.               *)
(* Several line objects (slots) live at once; every mutating event records *)
(* the return value and the view of EVERY live line after the call.        *)
(* FOCUS selects which obligations are judged:                             *)
(*   "sound"  the recorded views satisfy the structural invariants (C01)   *)
(*   "edit"   return values and views equal the specified step      (C02)  *)
(*   "copy"   copies answer alike; other lines never change         (C03)  *)
(*   "coord"  coordinates equal LineGeometry of the current line    (C04)  *)
(***************************************************************************)
EXTENDS LineGeometry, LineCatalog, TraceKit

Focus == IOEnv.FOCUS
Slots == 0..2

VARIABLES l,      \* next trace line
          line,   \* slot -> abstract line, or "gone"
          ok      \* FALSE once this history left the specification

vars == <<l, line, ok>>
E == Events[l]

Gone == [gone |-> TRUE]
Live(o) == line[o] # Gone
ForeignId == -5

\* argument connections <<slot, structure index, attachment>>; a structure of
\* another line is foreign
RawConn(o, x) ==
  LET L == line[x[1]] IN
  [id |-> IF x[1] = o THEN L.st[x[2]+1].id ELSE ForeignId - x[2],
   s |-> L.st[x[2]+1].s, at |-> x[3]]
ConnArg(o, q) ==
  LET v == SelectSeq(q, LAMBDA x : /\ x[1] \in Slots
                                   /\ Live(x[1])
                                   /\ ValidIndex(line[x[1]].st, x[2]))
  IN Conns([k \in 1..Len(v) |-> RawConn(o, v[k])])
CableArg(o, e) == [tag |-> e.tag, cn |-> ConnArg(o, e.cn)]
PointArg(e) == [s |-> e.p[1], e |-> e.p[2], r |-> e.p[3]]
StructArg(e) == [s |-> e.x[1], h |-> e.x[2], o |-> e.x[3], r |-> e.x[4],
                 ty |-> e.x[5], hw |-> e.hw]
OldStructArg(L, j) == [f \in {"s","h","o","r","ty","hw"} |-> L.st[j+1][f]]

Mutators == {"addAP","modAP","delAP","addLS","modLS","delLS",
             "addLC","modLC","delLC","origin","modAPa","modLSa","modLCa","addLCa"}

Step(o, e) ==
  LET L == line[o] IN
  CASE e.op = "addAP"  -> AddAlignmentPoint(L, PointArg(e))
    [] e.op = "modAP"  -> ModifyAlignmentPoint(L, e.i, PointArg(e))
    [] e.op = "delAP"  -> DeleteAlignmentPoint(L, e.i)
    [] e.op = "addLS"  -> AddLineStructure(L, StructArg(e))
    [] e.op = "modLS"  -> ModifyLineStructure(L, e.i, StructArg(e))
    [] e.op = "delLS"  -> DeleteLineStructure(L, e.i)
    [] e.op = "addLC"  -> AddLineCable(L, CableArg(o, e))
    [] e.op = "modLC"  -> ModifyLineCable(L, e.i, CableArg(o, e))
    [] e.op = "delLC"  -> DeleteLineCable(L, e.i)
    [] e.op = "origin" -> SetOrigin(L, <<e.p[1], e.p[2], e.p[3]>>)
    \* the argument is a reference to element j of the line itself
    [] e.op = "modAPa" -> ModifyAlignmentPoint(L, e.i, L.al[e.j+1])
    [] e.op = "modLSa" -> ModifyLineStructure(L, e.i, OldStructArg(L, e.j))
    [] e.op = "modLCa" -> ModifyLineCable(L, e.i, L.cb[e.j+1])
    [] e.op = "addLCa" -> AddLineCable(L, L.cb[e.j+1])

ViewOf(o) == IF Live(o) THEN View(line[o]) ELSE Gone
RecView(o) == IF Has(E.views[o+1], "al")
              THEN [f \in {"al","st","cb","org"} |-> E.views[o+1][f]]
              ELSE Gone
LineEmptyView == View(EmptyLine)

IsReset == /\ E.op = "reset"
           /\ line' = [s \in Slots |-> IF s = 0 THEN EmptyLine ELSE Gone]
           /\ ok' = TRUE

Crashed == Has(E, "exc")
Lost(what) == /\ Report(l, what, E)
              /\ ok' = FALSE
              /\ UNCHANGED line

\* judge one mutating call on slot o whose specified result is r
IsMutation ==
  /\ E.op \in Mutators
  /\ IF Crashed THEN Lost("call raised an exception") ELSE
     LET o == E.o
         r == Step(o, E)
         stepOk == E.ret = r.ret /\ RecView(o) = View(r.line)
         othersOk == \A s \in Slots \ {o} : RecView(s) = ViewOf(s)
     IN /\ Focus = "sound" =>
             Judge(Sound(RecView(o)), l, "line is not structurally sound", E)
        /\ Focus = "edit" =>
             Judge(stepOk, l, "edit does not match its specification",
                   [event |-> E, specified |-> [ret |-> r.ret, view |-> View(r.line)]])
        /\ Focus = "copy" =>
             Judge(othersOk, l, "an edit of one line changed another", E)
        /\ line' = [line EXCEPT ![o] = r.line]
        /\ ok' = (stepOk /\ othersOk)

IsCopy ==
  /\ E.op \in {"copy", "assign"}
  /\ IF Crashed THEN Lost("call raised an exception") ELSE
     LET L2 == line[E.from]
         good == \A s \in Slots :
                   RecView(s) = IF s = E.o THEN View(L2) ELSE ViewOf(s)
     IN /\ Focus \in {"copy", "edit"} =>
             Judge(good, l, "copy differs from its source, or changed another line", E)
        /\ Focus = "sound" =>
             Judge(Sound(RecView(E.o)), l, "copied line is not structurally sound", E)
        /\ line' = [line EXCEPT ![E.o] = L2]
        /\ ok' = good

IsNew == /\ E.op = "new"
         /\ line' = [line EXCEPT ![E.o] = EmptyLine]
         /\ ok' = ok
IsDestroy ==
  /\ E.op = "destroy"
  /\ LET good == \A s \in Slots : RecView(s) = IF s = E.o THEN Gone ELSE ViewOf(s)
     IN /\ Focus = "copy" =>
             Judge(good, l, "destroying a line changed another", E)
        /\ ok' = (ok /\ good)
  /\ line' = [line EXCEPT ![E.o] = Gone]

(* ----- queries ---------------------------------------------------------- *)
P3(x) == <<x[1], x[2], x[3]>>
SeqNear(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : PNear(a[k], b[k])

AlPoints(L) == [k \in 1..Len(L.al) |-> AlignPoint(L, k)]
StPoints(L) == [k \in 1..Len(L.st) |-> PointAtStation(L, L.st[k].s)]

CoordOk(L, e) ==
  CASE e.op = "qAl"  -> SeqNear(e.r, AlPoints(L))
    [] e.op = "qLS"  -> SeqNear(e.r, StPoints(L))
    [] e.op = "qSta" -> PNear(e.r, PointAtStation(L, e.s))
    [] e.op = "qLSi" -> PNear(e.r, IF ValidIndex(L.st, e.i)
                                   THEN PointAtStation(L, L.st[e.i+1].s) ELSE NoPoint)
    [] e.op = "qAtt" -> \/ PNear(e.r, AttachmentPoint(L, e.i, e.a))
                        \/ /\ ValidIndex(L.st, e.i)
                           /\ ~DirDefined(L, L.st[e.i+1].s)
CoordSpec(L, e) ==
  CASE e.op = "qAl"  -> [k \in 1..Len(L.al) |-> [j \in 1..3 |-> RShow(AlPoints(L)[k][j])]]
    [] e.op = "qLS"  -> [k \in 1..Len(L.st) |-> [j \in 1..3 |-> RShow(StPoints(L)[k][j])]]
    [] e.op = "qSta" -> [j \in 1..3 |-> RShow(PointAtStation(L, e.s)[j])]
    [] e.op = "qLSi" -> "structure point"
    [] e.op = "qAtt" -> [j \in 1..3 |-> RShow(AttachmentPoint(L, e.i, e.a)[j])]

IsCoordQuery ==
  /\ E.op \in {"qAl", "qLS", "qSta", "qLSi", "qAtt"}
  /\ Focus \in {"coord", "copy"} =>
        IF Crashed THEN Report(l, "query raised an exception", E)
        ELSE Judge(CoordOk(line[E.o], E), l, "coordinates do not match the current line",
                   [event |-> E, specified |-> CoordSpec(line[E.o], E)])
  /\ UNCHANGED <<line, ok>>

SimpleOk(L, e) ==
  CASE e.op = "qHas" -> e.r = HasConnection(L, e.i, e.a)
    [] e.op = "qIdx" -> e.r = (IF e.from = e.o /\ ValidIndex(L.st, e.i) THEN e.i ELSE -1)
    [] e.op = "qVal" -> e.r \in BOOLEAN   \* what it reports is property C28's
IsSimpleQuery ==
  /\ E.op \in {"qHas", "qIdx", "qVal"}
  /\ Focus \in {"edit", "copy"} =>
        IF Crashed THEN Report(l, "query raised an exception", E)
        ELSE Judge(SimpleOk(line[E.o], E), l, "query does not match the current line", E)
  /\ UNCHANGED <<line, ok>>

\* once a history has left the specification, the rest of it says nothing new
\* (except that the line must still be structurally sound)
IsSkipped ==
  /\ (Focus = "sound" /\ E.op \in Mutators /\ ~Crashed) =>
        Judge(Sound(RecView(E.o)), l, "line is not structurally sound", E)
  /\ UNCHANGED <<line, ok>>

Init == l = 1 /\ line = [s \in Slots |-> Gone] /\ ok = FALSE
Next == /\ l <= Len(Events)
        /\ l' = l + 1
        /\ IF E.op = "reset" THEN IsReset
           ELSE IF ~ok THEN IsSkipped
           ELSE \/ IsMutation \/ IsCopy \/ IsNew \/ IsDestroy
                \/ IsCoordQuery \/ IsSimpleQuery
=============================================================================
