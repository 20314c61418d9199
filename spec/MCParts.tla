------------------------------- MODULE MCParts -------------------------------
(***************************************************************************)
(* Exhaustive model of the containers in a small universe.  Invariant      *)
(* PartsSound; invariant EmitState prints, for every reachable state,      *)
(* histories that build it on the real code and then apply every call with *)
(* every argument, each to a freshly built state.                          *)
(***************************************************************************)
EXTENDS LineParts, Json, SequencesExt

Kinds == {"alignment", "structure", "cable"}
VARIABLES kind, w
Stations == <<2, 5, 5, 9>>
Blank == [st |-> [k \in 1..4 |-> [s |-> Stations[k], ty |-> -1, hw |-> <<>>]], cb |-> << <<>>, <<>> >>, al |-> << <<>>, <<>> >>]
Points == {<<s, 7, 0>> : s \in {0, 3, 4, 8}} \cup {<<3, 1, 45>>}
I(q) == -1 .. Len(q)
Calls(t, x) ==
  CASE t = "alignment" ->
         LET q == x.al[1] IN
         {[op |-> "addA", o |-> 0, p |-> p] : p \in Points}
         \cup {[op |-> "modA", o |-> 0, i |-> i, p |-> p] : i \in I(q), p \in Points}
         \cup {[op |-> "modAa", o |-> 0, i |-> i, j |-> j] : i \in I(q), j \in 0..Len(q)-1}
         \cup {[op |-> "delA", o |-> 0, i |-> i] : i \in I(q)}
         \cup {[op |-> f, o |-> 0, s |-> s] : f \in {"seg", "inr"}, s \in -1..9}
         \cup {[op |-> "copyA", o |-> 1, from |-> 0]}
    [] t = "structure" ->
         {[op |-> "setS", o |-> 0, ty |-> ty] : ty \in -1..3}
         \cup {[op |-> "att", o |-> 0, i |-> i, h |-> h] : i \in -1..3, h \in 1..2}
         \cup {[op |-> "det", o |-> 0, i |-> i] : i \in -1..3}
    [] t = "cable" ->
         LET q == x.cb[1] IN
         {[op |-> "addC", o |-> 0, k |-> k, at |-> a] : k \in -1..3, a \in 0..1}
         \cup {[op |-> "modC", o |-> 0, i |-> i, k |-> k, at |-> a] : i \in I(q), k \in -1..3, a \in 0..1}
         \cup {[op |-> "modCa", o |-> 0, i |-> i, j |-> j] : i \in I(q), j \in 0..Len(q)-1}
         \cup {[op |-> "delC", o |-> 0, i |-> i] : i \in I(q)}
         \cup {[op |-> "clrC", o |-> 0], [op |-> "okC", o |-> 0], [op |-> "copyC", o |-> 1, from |-> 0]}
Init == kind \in Kinds /\ w = Blank
Next == kind' = kind /\ \E c \in Calls(kind, w) : w' = PartStep(w, c).w
Sound == PartsSound(w)
\* a second structure for hardware on cables: the first carries a dead end
\* and a suspension, the second the same the other way round
Prelude == IF kind # "cable" THEN <<>>
           ELSE << [op |-> "setS", o |-> 0, ty |-> 2], [op |-> "att", o |-> 0, i |-> 0, h |-> 1],
                   [op |-> "setS", o |-> 1, ty |-> 2], [op |-> "att", o |-> 1, i |-> 0, h |-> 2], [op |-> "att", o |-> 1, i |-> 1, h |-> 1],
                   [op |-> "setS", o |-> 2, ty |-> 1], [op |-> "att", o |-> 2, i |-> 0, h |-> 2],
                   [op |-> "setS", o |-> 3, ty |-> 2], [op |-> "att", o |-> 3, i |-> 0, h |-> 1], [op |-> "att", o |-> 3, i |-> 1, h |-> 1] >>
Build(t, x) == <<[op |-> "reset", comp |-> "parts", s |-> Stations]>> \o Prelude \o
  CASE t = "alignment" -> [k \in 1..Len(x.al[1]) |-> [op |-> "addA", o |-> 0, p |-> x.al[1][Len(x.al[1])+1-k]]]
    [] t = "structure" -> <<[op |-> "setS", o |-> 0, ty |-> x.st[1].ty]>>
                          \o [k \in 1..Len(x.st[1].hw) |-> IF x.st[1].hw[k] = 0 THEN [op |-> "det", o |-> 0, i |-> k-1]
                                                           ELSE [op |-> "att", o |-> 0, i |-> k-1, h |-> x.st[1].hw[k]]]
    [] t = "cable" -> [k \in 1..Len(x.cb[1]) |-> [op |-> "addC", o |-> 0, k |-> x.cb[1][Len(x.cb[1])+1-k].k, at |-> x.cb[1][Len(x.cb[1])+1-k].at]]
EmitState == \/ w.al[2] # <<>> \/ w.cb[2] # <<>>
             \/ PrintT(ToJson(FlattenSeq([k \in 1..Cardinality(Calls(kind, w)) |-> Build(kind, w) \o <<SetToSeq(Calls(kind, w))[k]>>])))
=============================================================================
