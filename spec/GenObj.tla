------------------------------- MODULE GenObj -------------------------------
(***************************************************************************)
(* Generator of client histories for classes of the form "set inputs, ask  *)
(* for results".  The abstract object is just its current inputs; every    *)
(* history is a walk over create / set / query / validate / copy / assign  *)
(* / destroy, printed as commands for the harness.                         *)
(*  MODE  calc   objects fully set before the first query, then mixed      *)
(*        fresh  as calc; each query is also asked of a fresh object       *)
(*        copy   as fresh, with copies, assignments and destructions       *)
(*        early  as fresh, and asked before all inputs are set, and with   *)
(*               invalid ones                                            *)
(*        wild   as fresh, with invalid inputs                             *)
(*        part   partial and invalid inputs, validation only               *)
(***************************************************************************)
EXTENDS ObjModels, Json, IOUtils

Depth == atoi(IOEnv.DEPTH)
Mode == IOEnv.MODE
ClassNames == Families[IOEnv.FAMILY]
NObj == 3
Objs == 0 .. NObj-1

VARIABLES n, live, todo, cur
vars == <<n, live, todo, cur>>

Pick(S) == RandomElement(S)
Chance(k) == RandomElement(1..100) <= k
B(x) == {x}
Emit(c) == PrintT(ToJson(c))

PickSeq(q) == q[Pick(1..Len(q))]
Comp(c) == IF Len(c.odd) > 0 /\ Chance(30) THEN PickSeq(c.odd) ELSE Pick(c.lo .. c.hi)
\* values outside the ordinary range and at the limits of ranges, for validation
Limits == <<-2001, -2000, -100, -91, -90, -1, 1, 2, 3, 4, 23, 24, 90, 91, 100, 101, 180, 181, 360, 361, 365, 366, 500, 501, 2000, 2001>>
Wild(c) == CASE Chance(55) -> Comp(c)
             [] Chance(40) -> 0
             [] Chance(40) -> -Pick(1..5)
             [] Chance(30) -> -999999
             [] Chance(60) -> PickSeq(Limits) * c.d
             [] OTHER -> c.hi * 1000
ValueOf(s, len) == IF (Mode = "part" /\ Chance(40)) \/ (Mode \in {"early","wild"} /\ Chance(12))
                   THEN [k \in 1..len |-> Wild(s.v[k])]
                   ELSE [k \in 1..len |-> Comp(s.v[k])]
Dens(s, len) == [k \in 1..len |-> s.v[k].d]

\* in: changed in place (same pointers), when the input was set before
Re(o) == IF todo[o] = <<>> /\ Chance(50) THEN [in |-> 1] ELSE <<>>
\* A new value is often a small change of the current one: one component drawn
\* again, moved by little, negated, exchanged with or set to another component.
InRange(c, x) == c.lo <= x /\ x <= c.hi
Change(s, old) ==
  LET i == Pick(1..Len(old))  j == Pick(1..Len(old))
      Ch(i_, j_, r, x) ==
        CASE r <= 35 -> [old EXCEPT ![i_] = Comp(s.v[i_])]
          [] r <= 60 -> IF InRange(s.v[i_], old[i_] + x) THEN [old EXCEPT ![i_] = @ + x] ELSE old
          [] r <= 70 -> IF InRange(s.v[i_], -old[i_]) THEN [old EXCEPT ![i_] = -@] ELSE old
          [] r <= 85 -> IF s.v[i_].d = s.v[j_].d /\ InRange(s.v[i_], old[j_]) /\ InRange(s.v[j_], old[i_])
                        THEN [old EXCEPT ![i_] = old[j_], ![j_] = old[i_]] ELSE old
          [] OTHER -> IF s.v[i_].d = s.v[j_].d /\ InRange(s.v[i_], old[j_]) THEN [old EXCEPT ![i_] = old[j_]] ELSE old
  IN Ch(i, j, Pick(1..100), Pick({-3,-2,-1,1,2,3}))
Drawn(s, len) == IF len > 0 /\ Mode # "part" /\ Chance(25) THEN Change(s, ValueOf(s, len)) ELSE ValueOf(s, len)
NewValue(o, i, s) ==
  IF Len(cur[o]) >= i /\ Len(cur[o][i]) > 0 /\ Chance(45) THEN Change(s, cur[o][i])
  ELSE IF s.unset > 0 /\ Chance(s.unset) THEN <<>>
  ELSE IF Mode = "part" /\ Chance(10) THEN <<>>
  ELSE Drawn(s, Pick(s.min .. Len(s.v)))
\* i : number of the input
EmitSet(o, i) == LET s == Classes[live[o]].slots[i] IN \E v \in B(NewValue(o, i, s)) :
  /\ Emit([op |-> "set", o |-> o, s |-> s.n, d |-> Dens(s, Len(v)), v |-> v] @@ Re(o))
  /\ cur' = [cur EXCEPT ![o][i] = v]
EmitQuery(o, q) == \E len \in B(Pick(q.min .. Len(q.v))) :
  Emit([op |-> "q", o |-> o, q |-> q.n, d |-> Dens(q, len), a |-> [k \in 1..len |-> Comp(q.v[k])]]
       @@ (IF Mode = "calc" THEN <<>> ELSE [fresh |-> TRUE]))
ClassOf(o) == Classes[live[o]]
Dead == "-"

RECURSIVE Perm(_)
Perm(S) == IF S = {} THEN <<>> ELSE LET P(x) == <<x>> \o Perm(S \ {x}) IN P(Pick(S))

NewAct(o) == \E c \in B(PickSeq(ClassNames)) :
  \E all \in B(Perm(1..Len(Classes[c].slots))) :
  \E p \in B(IF Mode = "part" THEN SubSeq(all, 1, Pick(0 .. Len(all))) ELSE all) :
  /\ Emit([op |-> "new", o |-> o, cls |-> c])
  /\ live' = [live EXCEPT ![o] = c]
  /\ todo' = [todo EXCEPT ![o] = p]
  /\ cur' = [cur EXCEPT ![o] = [k \in 1..Len(Classes[c].slots) |-> <<>>]]
SetAct(o) == \/ Len(ClassOf(o).slots) = 0 /\ UNCHANGED <<live, todo, cur>>
             \/ Len(ClassOf(o).slots) > 0 /\ \E i \in B(Pick(1..Len(ClassOf(o).slots))) :
                  EmitSet(o, i) /\ UNCHANGED <<live, todo>>
QueryAct(o) == /\ EmitQuery(o, PickSeq(ClassOf(o).qs))
               /\ UNCHANGED <<live, todo, cur>>
ValAct(o) == /\ Emit([op |-> "val", o |-> o, w |-> Pick(0..1), m |-> Pick(0..1)])
             /\ UNCHANGED <<live, todo, cur>>
CopyAct(o) == \E to \in B(Pick(Objs \ {o})) :
  \E asg \in B(live[to] = live[o] /\ todo[to] = <<>> /\ Chance(50)) :
  /\ Emit([op |-> IF asg THEN "assign" ELSE "copy", o |-> to, from |-> o])
  /\ live' = [live EXCEPT ![to] = live[o]]
  /\ todo' = [todo EXCEPT ![to] = todo[o]]
  /\ cur' = [cur EXCEPT ![to] = cur[o]]
SelfAct(o) == Emit([op |-> "assign", o |-> o, from |-> o]) /\ UNCHANGED <<live, todo, cur>>
DestroyAct(o) == /\ Emit([op |-> "destroy", o |-> o])
                 /\ live' = [live EXCEPT ![o] = Dead]
                 /\ todo' = [todo EXCEPT ![o] = <<>>]
                 /\ cur' = [cur EXCEPT ![o] = <<>>]

Alive == {o \in Objs : live[o] # Dead}
Copying == Mode = "copy"
Choose(o, r) ==
  CASE r <= 34 -> SetAct(o)
    [] r <= 80 -> QueryAct(o)
    [] r <= 86 -> IF ClassOf(o).val THEN ValAct(o) ELSE QueryAct(o)
    [] r <= 95 -> IF Copying /\ ClassOf(o).copy THEN CopyAct(o) ELSE QueryAct(o)
    [] r <= 96 -> IF Copying /\ ClassOf(o).copy THEN SelfAct(o) ELSE QueryAct(o)
    [] r <= 98 -> IF Copying /\ Cardinality(Alive) > 1 THEN DestroyAct(o) ELSE QueryAct(o)
    [] OTHER -> IF Cardinality(Alive) < NObj THEN NewAct(Pick(Objs \ Alive)) ELSE QueryAct(o)
\* partially set objects are only validated
ChoosePart(o, r) ==
  CASE r <= 35 -> SetAct(o)
    [] r <= 90 -> ValAct(o)
    [] OTHER -> DestroyAct(o)

Init == n = 0 /\ live = [o \in Objs |-> Dead] /\ todo = [o \in Objs |-> <<>>] /\ cur = [o \in Objs |-> <<>>]
Next ==
  /\ n < Depth
  /\ n' = n + 1
  /\ n = 0 => Emit([op |-> "reset", comp |-> "obj"])
  /\ IF Alive = {} THEN NewAct(0)
     ELSE \E o \in B(Pick(Alive)) :
       IF todo[o] # <<>> /\ Mode = "early" /\ Chance(25) THEN QueryAct(o)
       ELSE IF todo[o] # <<>>
       THEN /\ EmitSet(o, todo[o][1])
            /\ todo' = [todo EXCEPT ![o] = Tail(@)]
            /\ UNCHANGED live
       ELSE \E r \in B(Pick(1..100)) :
            IF Mode = "part" THEN ChoosePart(o, r) ELSE Choose(o, r)
=============================================================================
