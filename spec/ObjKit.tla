------------------------------- MODULE ObjKit -------------------------------
(* Vocabulary for describing "set inputs, ask for results" classes.          *)
EXTENDS R64, FiniteSets

\* one component of a value: integers lo..hi (and the odd ones), over d
R(lo, hi, d) == [lo |-> lo, hi |-> hi, d |-> d, odd |-> <<>>]
RO(lo, hi, d, odd) == [lo |-> lo, hi |-> hi, d |-> d, odd |-> odd]
K(x, d) == R(x, x, d)
\* an input or a query: name, components, least number of components,
\* percentage of "unset" (empty) values
Slot(n, v) == [n |-> n, v |-> v, min |-> Len(v), unset |-> 0]
SlotN(n, v, min) == [n |-> n, v |-> v, min |-> min, unset |-> 0]
Q(n, v) == Slot(n, v)
\* a class: inputs, queries, validation offered, copies meaningful
Class(slots, qs, val, copy) == [slots |-> slots, qs |-> qs, val |-> val, copy |-> copy]

\* current inputs c: slot name -> [v, d]
Val(c, s, k) == RQ(c[s].v[k], c[s].d[k])
IVal(c, s, k) == c[s].v[k]
Vec(c, s) == [k \in 1..Len(c[s].v) |-> Val(c, s, k)]
IsSet(c, s) == s \in DOMAIN c /\ Len(c[s].v) > 0
Arg(e, k) == RQ(e.a[k], e.d[k])
IArg(e, k) == e.a[k]
Res(e, k) == e.r[k]

\* verdicts on a recorded answer
Shown(xs) == [k \in 1..Len(xs) |-> RShow(xs[k])]
Tol(e, xs, rel, abs) ==
  [ok |-> Len(e.r) = Len(xs) /\ \A k \in 1..Len(xs) : NearBy(e.r[k], xs[k], rel, abs),
   exp |-> Shown(xs)]
Within(e, xs, tol) ==
  [ok |-> Len(e.r) = Len(xs) /\ \A k \in 1..Len(xs) : RAbs(e.r[k] \ominus xs[k]) \preceq tol, exp |-> Shown(xs)]
Eq(e, xs) == Tol(e, xs, "1e-9", "1e-9")
\* conds : sequence of <<text, boolean>>
Holds(conds) == [ok |-> \A k \in 1..Len(conds) : conds[k][2],
                 exp |-> {conds[k][1] : k \in {j \in 1..Len(conds) : ~conds[j][2]}}]
Both(a, b) == [ok |-> a.ok /\ b.ok, exp |-> <<a.exp, b.exp>>]
Free == [ok |-> TRUE, exp |-> "anything"]
Failed(e) == \A k \in 1..Len(e.r) : REq(e.r[k], NoVal)
FailedVerdict(e) == [ok |-> Failed(e), exp |-> "the failure value"]
=============================================================================
