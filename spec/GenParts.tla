------------------------------ MODULE GenParts ------------------------------
(* Random histories over alignments, cables and structures.                  *)
EXTENDS LineParts, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
VARIABLES n, w
Pick(S) == RandomElement(S)
Chance(k) == RandomElement(1..100) <= k
B(x) == {x}
Stations == <<2, 5, 5, 9, 14>>
World(x) == [st |-> [k \in 1..5 |-> [s |-> Stations[Pick({k})], ty |-> -1, hw |-> <<>>]], cb |-> << <<>>, <<>> >>, al |-> << <<>>, <<>> >>]
Idx(q) == IF Len(q) > 0 /\ Chance(80) THEN Pick(0 .. Len(q)-1) ELSE Pick(-2 .. Len(q)+1)
Point(x) == <<Pick(-2..8), Pick(0..50), Pick(-90..90)>>
Cmd(r, o, s, al, cb) ==
  CASE r <= 12 -> [op |-> "addA", o |-> o, p |-> Point(r)]
    [] r <= 18 -> [op |-> "modA", o |-> o, i |-> Idx(al), p |-> Point(r)]
    [] r <= 20 /\ Len(al) > 0 -> [op |-> "modAa", o |-> o, i |-> Idx(al), j |-> Pick(0..Len(al)-1)]
    [] r <= 24 -> [op |-> "delA", o |-> o, i |-> Idx(al)]
    [] r <= 25 -> [op |-> "copyA", o |-> o, from |-> 1-o]
    [] r <= 30 -> [op |-> "seg", o |-> o, s |-> Pick(-3..9)]
    [] r <= 34 -> [op |-> "inr", o |-> o, s |-> Pick(-3..9)]
    [] r <= 44 -> [op |-> "setS", o |-> s, ty |-> IF Chance(15) THEN -1 ELSE Pick(0..4)]
    [] r <= 59 -> [op |-> "att", o |-> s, i |-> Pick(-1..4), h |-> Pick(1..2)]
    [] r <= 63 -> [op |-> "det", o |-> s, i |-> Pick(-1..4)]
    [] r <= 78 -> [op |-> "addC", o |-> o, k |-> IF Chance(6) THEN -1 ELSE s, at |-> Pick(0..2)]
    [] r <= 85 -> [op |-> "modC", o |-> o, i |-> Idx(cb), k |-> IF Chance(6) THEN -1 ELSE s, at |-> Pick(-1..4)]
    [] r <= 88 /\ Len(cb) > 0 -> [op |-> "modCa", o |-> o, i |-> Idx(cb), j |-> Pick(0..Len(cb)-1)]
    [] r <= 91 -> [op |-> "delC", o |-> o, i |-> Idx(cb)]
    [] r <= 92 -> [op |-> "clrC", o |-> o]
    [] r <= 93 -> [op |-> "copyC", o |-> o, from |-> 1-o]
    [] OTHER -> [op |-> "okC", o |-> o]
Init == n = 0 /\ w = World(1)
Next ==
  /\ n < Depth
  /\ n' = n + 1
  /\ n = 0 => PrintT(ToJson([op |-> "reset", comp |-> "parts", s |-> Stations]))
  /\ \E r \in B(Pick(1..100)) : \E o \in B(Pick(0..1)) : \E s \in B(Pick(0..4)) :
     \E c \in B(Cmd(r, o, s, w.al[o+1], w.cb[o+1])) :
       /\ PrintT(ToJson(c))
       /\ w' = PartStep(w, c).w
=============================================================================
