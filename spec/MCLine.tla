------------------------------- MODULE MCLine -------------------------------
(***************************************************************************)
(* Exhaustive exploration of the transmission line specification on a      *)
(* small universe: every reachable line, every edit with every argument.   *)
(* Checked: soundness of every reachable line, and for every step the edit *)
(* contract (Contract) stated independently of how the edit is computed.   *)
(***************************************************************************)
EXTENDS TransmissionLine, LineCatalog

CONSTANTS StationSet, MaxCables, HwSet
VARIABLE line

\* identities renumbered by position, so that the state space is finite
Normalize(L) ==
  LET new(id) == StIndex(L, id) IN
  [L EXCEPT !.st = [k \in 1..Len(L.st) |-> [L.st[k] EXCEPT !.id = k]],
            !.cb = [c \in 1..Len(L.cb) |->
                      [L.cb[c] EXCEPT !.cn = [k \in 1..Len(@) |->
                         [id |-> new(@[k].id), at |-> @[k].at]]]],
            !.nid = Len(L.st) + 1]

Points == {[s |-> s, e |-> 0, r |-> 0] : s \in StationSet}
Structs == {[s |-> s, h |-> 0, o |-> 0, r |-> 0, ty |-> ty, hw |-> hw] :
              s \in StationSet, ty \in {1}, hw \in [1..1 -> HwSet]}
           \cup {[s |-> s, h |-> 0, o |-> 0, r |-> 0, ty |-> ty, hw |-> hw] :
              s \in StationSet, ty \in {2}, hw \in [1..2 -> HwSet]}
           \cup {[s |-> s, h |-> 0, o |-> 0, r |-> 0, ty |-> 0, hw |-> <<>>] : s \in StationSet}
\* connection arguments: station-ordered lists over the line's structures and
\* one foreign structure
ConnLists(L) ==
  LET ids == [k \in 1..Len(L.st) |-> L.st[k].id]
      C == {[id |-> ids[k], at |-> a] : k \in 1..Len(L.st), a \in 0..2}
      F == [id |-> -1, at |-> 0]
      Before(x, y) == StIndex(L, x.id) < StIndex(L, y.id)
  IN {<<>>} \cup {<<c>> : c \in C}
     \cup {q \in C \X C : Before(q[1], q[2])}
     \cup {<<c, F>> : c \in C}
     \cup {q \in C \X C \X C : Before(q[1], q[2]) /\ Before(q[2], q[3])}
Cables(L) == {[tag |-> 1, cn |-> q] : q \in ConnLists(L)}
Indexes(q) == -1 .. Len(q)

Attachments(L) == {<<L.st[i].id, a>> : i \in 1..Len(L.st), a \in 0..2}
ConnSet(cn) == {cn[k] : k \in 1..Len(cn)}
\* a connection that still has its structure and attachment
Alive(L, c) == \E i \in 1..Len(L.st) : L.st[i].id = c.id /\ c.at < NAtt(L.st[i].ty)

\* the edit contract, for a step of L to r by an edit of kind k ("al","st","cb")
Failed(ret) == ToString(ret) \in {"-1", "FALSE"}
Contract(L, r, kind) ==
  LET M == r.line IN
  /\ Sound(View(M))
  /\ Failed(r.ret) => M = L
  \* cables are only ever removed, or lose dead connections, by other edits
  /\ kind # "cb" =>
       /\ \A c \in 1..Len(M.cb) : \E d \in 1..Len(L.cb) :
             ConnSet(M.cb[c].cn) = {x \in ConnSet(L.cb[d].cn) : Alive(M, x)}
       /\ \A d \in 1..Len(L.cb) :
             LET left == SelectSeq(L.cb[d].cn, LAMBDA x : Alive(M, x)) IN
             (\E c \in 1..Len(M.cb) : M.cb[c].cn = left) <=> ValidConns(M, left)
  /\ kind = "cb" => M.st = L.st
  \* structures survive exactly when they are still on the alignment
  /\ kind = "al" =>
       \A i \in 1..Len(L.st) :
          (\E j \in 1..Len(M.st) : M.st[j] = L.st[i]) <=> InAlignment(M, L.st[i].s)
  /\ kind # "al" => M.al = L.al

Step(r, kind) == /\ Assert(Contract(line, r, kind), <<"contract broken", line, r>>)
                 /\ line' = Normalize(r.line)

Init == line = EmptyLine
Next ==
  \/ \E p \in Points : Step(AddAlignmentPoint(line, p), "al")
  \/ \E i \in Indexes(line.al) : Step(DeleteAlignmentPoint(line, i), "al")
  \/ \E i \in Indexes(line.al), p \in Points : Step(ModifyAlignmentPoint(line, i, p), "al")
  \/ \E x \in Structs : Step(AddLineStructure(line, x), "st")
  \/ \E i \in Indexes(line.st) : Step(DeleteLineStructure(line, i), "st")
  \/ \E i \in Indexes(line.st), x \in Structs : Step(ModifyLineStructure(line, i, x), "st")
  \/ \E c \in Cables(line) : Len(line.cb) < MaxCables /\ Step(AddLineCable(line, c), "cb")
  \/ \E i \in Indexes(line.cb) : Step(DeleteLineCable(line, i), "cb")
  \/ \E i \in Indexes(line.cb), c \in Cables(line) : Step(ModifyLineCable(line, i, c), "cb")

SoundAlways == Sound(View(line))
=============================================================================
