------------------------------ MODULE GenPairs ------------------------------
(***************************************************************************)
(* Exhaustive generator: for every class of a family, every question (or   *)
(* validation) q1, every input s and every question q2, the history        *)
(*     set everything; ask q1; change s; ask q2; restore s; ask q2         *)
(* (changed first in place, behind the same pointers, then by new ones)    *)
(* so that every way a remembered result could outlive the input it was    *)
(* computed from is exercised.  A state is one such combination.           *)
(***************************************************************************)
EXTENDS ObjModels, Json, IOUtils

Seed == atoi(IOEnv.SEED)
Fresh == IOEnv.MODE = "fresh"
ClassNames == Families[IOEnv.FAMILY]

\* deterministic values that differ between variants
Mix(a, b, c, d) == ((((((a * 131) + b * 37 + 7) % 9973) * 89 + c * 53 + 11) % 9973) * 97 + d * 29 + 3) % 9973
Comp(x, h) == IF Len(x.odd) > 0 /\ (h \div 100) % 100 < 30 THEN x.odd[1 + (h % Len(x.odd))]
              ELSE IF x.hi - x.lo < 9973 THEN x.lo + (h % (x.hi - x.lo + 1))
              ELSE x.lo + (h * ((x.hi - x.lo) \div 9973))
Value(s, i, var) == [k \in 1..Len(s.v) |-> Comp(s.v[k], Mix(Seed, i, k, var))]
Dens(s) == [k \in 1..Len(s.v) |-> s.v[k].d]
SetTo(c, i, v) == LET s == Classes[c].slots[i] IN
  [op |-> "set", o |-> 0, s |-> s.n, d |-> SubSeq(Dens(s), 1, Len(v)), v |-> v]
SetCmd(c, i, var) == SetTo(c, i, Value(Classes[c].slots[i], i, var))
\* a changed value: drawn again, or one component drawn again, moved by little,
\* negated, exchanged with or set to another component
InRange(c, x) == c.lo <= x /\ x <= c.hi
Changed(s, i, var) ==
  LET old == Value(s, i, var)  new == Value(s, i, var + 1)
      n == Len(old)
      h == Mix(Seed, i, 77, var)  g == Mix(Seed, i, 78, var)
      a == 1 + (h % n)  b == 1 + ((h \div 16) % n)
      step == IF g % 2 = 0 THEN 1 + ((g \div 2) % 3) ELSE -1 - ((g \div 2) % 3)
      v == CASE (h \div 256) % 8 \in {0,1} -> new
             [] (h \div 256) % 8 = 2 -> SubSeq(new, 1, s.min)
             [] (h \div 256) % 8 \in {3,4} -> [old EXCEPT ![a] = new[a]]
             [] (h \div 256) % 8 = 5 -> IF InRange(s.v[a], old[a] + step) THEN [old EXCEPT ![a] = @ + step] ELSE new
             [] (h \div 256) % 8 = 6 -> IF InRange(s.v[a], -old[a]) THEN [old EXCEPT ![a] = -@] ELSE new
             [] OTHER -> IF s.v[a].d = s.v[b].d /\ InRange(s.v[a], old[b]) /\ InRange(s.v[b], old[a])
                         THEN [old EXCEPT ![a] = old[b], ![b] = old[a]] ELSE new IN
  IF v = old THEN new ELSE v
ChangeCmd(c, i, var) == SetTo(c, i, Changed(Classes[c].slots[i], i, var))
QCmd(c, j, var) ==
  LET q == Classes[c].qs[j] IN
  [op |-> "q", o |-> 0, q |-> q.n, d |-> Dens(q), a |-> Value(q, 100 + j, var)]
   @@ (IF Fresh THEN [fresh |-> TRUE] ELSE <<>>)
Ask(c, j, var) == IF j = 0 THEN [op |-> "val", o |-> 0, w |-> 1, m |-> 1] ELSE QCmd(c, j, var)

VARIABLES cls, q1, s, q2
vars == <<cls, q1, s, q2>>
NQ(c) == Len(Classes[c].qs)
NS(c) == Len(Classes[c].slots)
History(c, a, i, b) ==
  LET v == Mix(a, i, b, 1) IN
  << [op |-> "reset", comp |-> "obj"], [op |-> "new", o |-> 0, cls |-> c] >>
  \o [k \in 1..NS(c) |-> SetCmd(c, k, v)]
  \o << Ask(c, a, v), ChangeCmd(c, i, v) @@ [in |-> 1], Ask(c, b, v), SetCmd(c, i, v), Ask(c, b, v + 2) >>

Init == /\ cls \in {ClassNames[k] : k \in 1..Len(ClassNames)}
        /\ q1 = 0 /\ s = 0 /\ q2 = 0
Next == /\ s = 0
        /\ cls' = cls
        /\ s' \in 1..NS(cls)
        /\ q1' \in (IF Classes[cls].val THEN 0 ELSE 1) .. NQ(cls)
        /\ q2' \in 1..NQ(cls)
        /\ PrintT(ToJson(History(cls, q1', s', q2')))
=============================================================================
