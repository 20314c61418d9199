------------------------------ MODULE LineParts ------------------------------
(***************************************************************************)
(* The ordered containers a line is made of, each on its own: alignments   *)
(* (points by station), line cables (connections by the station of their   *)
(* structure) and line structures (one hardware position per attachment).  *)
(* Stations and the like are integers; indexes are 0-based as in the API.  *)
(*                                                                         *)
(* world = [st : Seq([s, ty, hw])   ty = number of attachments, -1 without *)
(*                                  a structure                            *)
(*          cb : Seq(Seq([k, at]))  connections: structure number (0-based)*)
(*          al : Seq(Seq(<<station, elevation, rotation>>))]               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

DeadEnd == 1
Suspension == 2
Dropped(q, i) == SubSeq(q, 1, i-1) \o SubSeq(q, i+1, Len(q))
Placed(q, i, x) == SubSeq(q, 1, i-1) \o <<x>> \o SubSeq(q, i, Len(q))
IsIndex(q, i) == i \in 0 .. Len(q)-1

\* sorted sequences keyed by Key(_): insert unless the key is taken
Below(q, x, Key(_)) == Cardinality({j \in 1..Len(q) : Key(q[j]) < Key(x)})
Insert(q, x, Key(_)) ==
  IF \E j \in 1..Len(q) : Key(q[j]) = Key(x) THEN [q |-> q, ret |-> -1]
  ELSE [q |-> Placed(q, Below(q, x, Key) + 1, x), ret |-> Below(q, x, Key)]
Replace(q, i, x, Key(_)) ==
  IF ~IsIndex(q, i) THEN [q |-> q, ret |-> -1]
  ELSE LET r == Insert(Dropped(q, i+1), x, Key) IN
       IF r.ret = -1 THEN [q |-> q, ret |-> -1] ELSE r
Delete(q, i) == IF IsIndex(q, i) THEN [q |-> Dropped(q, i+1), ret |-> 1] ELSE [q |-> q, ret |-> 0]
Increasing(q, Key(_)) == \A j \in 1..Len(q)-1 : Key(q[j]) < Key(q[j+1])

\* ------------------------------------------------------------ alignments
PointKey(p) == p[1]
InRange(q, s) == Len(q) > 0 /\ q[1][1] <= s /\ s <= q[Len(q)][1]
Segment(q, s) == IF ~InRange(q, s) THEN -1
                 ELSE IF s = q[1][1] THEN 0
                 ELSE Cardinality({j \in 1..Len(q) : q[j][1] < s}) - 1

\* ----------------------------------------------------------- structures
Resized(hw, n) == [j \in 1..n |-> IF j <= Len(hw) THEN hw[j] ELSE 0]
SetStructure(s, ty) == [s EXCEPT !.ty = ty, !.hw = IF ty < 0 THEN <<>> ELSE Resized(@, ty)]
Attach(s, i, h) == IF s.ty >= 0 /\ i \in 0 .. s.ty-1 THEN [s EXCEPT !.hw[i+1] = h] ELSE s

\* --------------------------------------------------------------- cables
ConnKey(st, c) == st[c.k + 1].s
AddConn(w, q, c) == IF c.k < 0 THEN [q |-> q, ret |-> -1]
                    ELSE LET Key(x) == ConnKey(w.st, x) IN Insert(q, c, Key)
ModConn(w, q, i, c) == IF ~IsIndex(q, i) \/ c.k < 0 THEN [q |-> q, ret |-> -1]
                       ELSE LET Key(x) == ConnKey(w.st, x) IN Replace(q, i, c, Key)
ConnsOk(w, q) ==
  /\ Len(q) >= 2
  /\ \A j \in 1..Len(q) :
       LET hw == w.st[q[j].k + 1].hw IN
       /\ q[j].at \in 0 .. Len(hw)-1
       /\ hw[q[j].at + 1] = IF j \in {1, Len(q)} THEN DeadEnd ELSE Suspension

\* ----------------------------------------------------------- transitions
\* event e -> [w |-> successor, ret |-> value returned (0 when none)]
Num(b) == IF b THEN 1 ELSE 0
OnAl(w, a, r) == [w |-> [w EXCEPT !.al[a+1] = r.q], ret |-> r.ret]
OnCb(w, c, r) == [w |-> [w EXCEPT !.cb[c+1] = r.q], ret |-> r.ret]
Conn(e) == [k |-> e.k, at |-> e.at]
PartStep(w, e) ==
  CASE e.op = "addA" -> OnAl(w, e.o, Insert(w.al[e.o+1], e.p, PointKey))
    [] e.op = "modA" -> OnAl(w, e.o, Replace(w.al[e.o+1], e.i, e.p, PointKey))
    \* the argument is a reference to point j of the alignment itself
    [] e.op = "modAa" -> OnAl(w, e.o, Replace(w.al[e.o+1], e.i, w.al[e.o+1][e.j+1], PointKey))
    [] e.op = "delA" -> OnAl(w, e.o, Delete(w.al[e.o+1], e.i))
    [] e.op = "copyA" -> [w |-> [w EXCEPT !.al[e.o+1] = w.al[e.from+1]], ret |-> 0]
    [] e.op = "seg" -> [w |-> w, ret |-> Segment(w.al[e.o+1], e.s)]
    [] e.op = "inr" -> [w |-> w, ret |-> Num(InRange(w.al[e.o+1], e.s))]
    [] e.op = "setS" -> [w |-> [w EXCEPT !.st[e.o+1] = SetStructure(@, e.ty)], ret |-> 0]
    [] e.op = "att" -> [w |-> [w EXCEPT !.st[e.o+1] = Attach(@, e.i, e.h)], ret |-> 0]
    [] e.op = "det" -> [w |-> [w EXCEPT !.st[e.o+1] = Attach(@, e.i, 0)], ret |-> 0]
    [] e.op = "addC" -> OnCb(w, e.o, AddConn(w, w.cb[e.o+1], Conn(e)))
    [] e.op = "modC" -> OnCb(w, e.o, ModConn(w, w.cb[e.o+1], e.i, Conn(e)))
    [] e.op = "modCa" -> OnCb(w, e.o, ModConn(w, w.cb[e.o+1], e.i, w.cb[e.o+1][e.j+1]))
    [] e.op = "delC" -> OnCb(w, e.o, Delete(w.cb[e.o+1], e.i))
    [] e.op = "clrC" -> [w |-> [w EXCEPT !.cb[e.o+1] = <<>>], ret |-> 0]
    [] e.op = "copyC" -> [w |-> [w EXCEPT !.cb[e.o+1] = w.cb[e.from+1]], ret |-> 0]
    [] e.op = "okC" -> [w |-> w, ret |-> Num(ConnsOk(w, w.cb[e.o+1]))]

\* ------------------------------------------------------------ invariants
PartsSound(w) ==
  /\ \A a \in 1..Len(w.al) : Increasing(w.al[a], PointKey)
  /\ \A c \in 1..Len(w.cb) : LET Key(x) == ConnKey(w.st, x) IN Increasing(w.cb[c], Key)
  /\ \A s \in 1..Len(w.st) : Len(w.st[s].hw) = IF w.st[s].ty < 0 THEN 0 ELSE w.st[s].ty
=============================================================================
