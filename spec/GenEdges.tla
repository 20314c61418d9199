------------------------------ MODULE GenEdges ------------------------------
(***************************************************************************)
(* Exhaustive test generation from MCLine: for every reachable abstract    *)
(* line, commands that build it on the real code, followed by every edit   *)
(* with every argument, each applied to a fresh copy.  The invariant       *)
(* EmitState prints them (one JSON array per state) as TLC visits states.  *)
(* SHARD/SHARDS selects a subset of the states.                            *)
(***************************************************************************)
EXTENDS MCLine, Json, IOUtils, SequencesExt

Shard == atoi(IOEnv.SHARD)
Shards == atoi(IOEnv.SHARDS)
FlatMap(Op(_), q) == FlattenSeq([k \in 1..Len(q) |-> Op(q[k])])

P(p) == <<p.s, p.e, p.r>>
X(x) == <<x.s, x.h, x.o, x.r, x.ty>>
CnArg(L, o, cn) == [k \in 1..Len(cn) |->
   LET i == StIndex(L, cn[k].id) IN
   \* the foreign structure is the first one of line 0, while editing line 1
   IF i = 0 THEN <<0, 0, cn[k].at>> ELSE <<o, i-1, cn[k].at>>]

Build(L) ==
  <<[op |-> "reset", comp |-> "line", types |-> Types]>>
  \o [k \in 1..Len(L.al) |-> [op |-> "addAP", o |-> 0, p |-> P(L.al[k])]]
  \o [k \in 1..Len(L.st) |-> [op |-> "addLS", o |-> 0, x |-> X(L.st[k]), hw |-> L.st[k].hw]]
  \o [k \in 1..Len(L.cb) |-> [op |-> "addLC", o |-> 0, tag |-> L.cb[k].tag, cn |-> CnArg(L, 0, L.cb[k].cn)]]

IdxSeq(q) == [k \in 1..Len(q)+2 |-> k-2]
Edits(L) ==
  [k \in 1..Card(Points) |-> [op |-> "addAP", o |-> 1, p |-> P(SetToSeq(Points)[k])]]
  \o FlatMap(LAMBDA i : <<[op |-> "delAP", o |-> 1, i |-> i]>> \o
       [k \in 1..Card(Points) |-> [op |-> "modAP", o |-> 1, i |-> i, p |-> P(SetToSeq(Points)[k])]], IdxSeq(L.al))
  \o LET S == SetToSeq(Structs) IN
     [k \in 1..Len(S) |-> [op |-> "addLS", o |-> 1, x |-> X(S[k]), hw |-> S[k].hw]]
     \o FlatMap(LAMBDA i : <<[op |-> "delLS", o |-> 1, i |-> i]>> \o
          [k \in 1..Len(S) |-> [op |-> "modLS", o |-> 1, i |-> i, x |-> X(S[k]), hw |-> S[k].hw]], IdxSeq(L.st))
  \o LET C == SetToSeq(Cables(L)) IN
     [k \in 1..Len(C) |-> [op |-> "addLC", o |-> 1, tag |-> 2, cn |-> CnArg(L, 1, C[k].cn)]]
     \o FlatMap(LAMBDA i : <<[op |-> "delLC", o |-> 1, i |-> i]>> \o
          [k \in 1..Len(C) |-> [op |-> "modLC", o |-> 1, i |-> i, tag |-> 2, cn |-> CnArg(L, 1, C[k].cn)]], IdxSeq(L.cb))

CopyCmd == [op |-> "copy", o |-> 1, from |-> 0]
Commands(L) == Build(L) \o FlatMap(LAMBDA e : <<CopyCmd, e>>, Edits(L))

RECURSIVE SumHw(_, _)
SumHw(st, k) == IF st = <<>> THEN 0
  ELSE k * (3 * st[1].s + 5 * st[1].ty + (IF Len(st[1].hw) > 0 THEN st[1].hw[1] ELSE 0)
            + (IF Len(st[1].hw) > 1 THEN 2 * st[1].hw[2] ELSE 0)) + SumHw(Tail(st), k + 4)
RECURSIVE SumConn(_, _)
SumConn(cb, k) == IF cb = <<>> THEN 0
  ELSE k * (cb[1].cn[1].id + 3 * cb[1].cn[1].at + 7 * Len(cb[1].cn)) + SumConn(Tail(cb), k + 2)
Hash(L) == (7 * Len(L.al) + 13 * Len(L.st) + 31 * Len(L.cb)
            + 17 * SumHw(L.st, 1) + 29 * SumConn(L.cb, 1)) % Shards
EmitState == Hash(line) # Shard \/ PrintT(ToJson(Commands(line)))
=============================================================================
