------------------------------ MODULE GenFaults ------------------------------
(***************************************************************************)
(* Exhaustive generator for validation: every class of a family, complete  *)
(* and with valid inputs but for a single one, which is missing, or of     *)
(* which one component has one of a list of suspicious values; with and    *)
(* without warnings and message list; then corrected, and validated again. *)
(* A state is one such combination.                                        *)
(***************************************************************************)
EXTENDS ObjModels, Json, IOUtils

Seed == atoi(IOEnv.SEED)
ClassNames == Families[IOEnv.FAMILY]

Mix(a, b, c, d) == ((((((a * 131) + b * 37 + 7) % 9973) * 89 + c * 53 + 11) % 9973) * 97 + d * 29 + 3) % 9973
Comp(x, h) == IF x.hi - x.lo < 9973 THEN x.lo + (h % (x.hi - x.lo + 1)) ELSE x.lo + (h * ((x.hi - x.lo) \div 9973))
Value(s, i, var) == [k \in 1..Len(s.v) |-> Comp(s.v[k], Mix(Seed, i, k, var))]
SetTo(s, v) == [op |-> "set", o |-> 0, s |-> s.n, d |-> [k \in 1..Len(v) |-> s.v[k].d], v |-> v]

\* the limits of the ranges, from either side, and usual marks of missing values
Marks == <<0, -1, 1, 2, 3, 5, 6>>
Limits == <<50, -50, -51, 90, 91, -90, -91, 100, 101, -100, -101, 180, 181, 360, 361, -361, 23, 24, 365, 366, 500, 501, 2000, 2001, -2001>>
Fault(x, f) == IF f <= Len(Marks) THEN Marks[f]
               ELSE IF f <= Len(Marks) + Len(Limits) THEN Limits[f - Len(Marks)] * x.d
               ELSE IF f = Len(Marks) + Len(Limits) + 1 THEN -999999
               ELSE IF f = Len(Marks) + Len(Limits) + 2 THEN (IF x.d <= 2000 THEN -999999 * x.d ELSE -999999)
               ELSE x.odd[f - Len(Marks) - Len(Limits) - 2]
Faults(x) == 1 .. (Len(Marks) + Len(Limits) + 2 + Len(x.odd))

VARIABLES cls, s, k, f
vars == <<cls, s, k, f>>
Slots(c) == Classes[c].slots
V(w, m) == [op |-> "val", o |-> 0, w |-> w, m |-> m]
History(c, i, kk, ff) ==
  LET var == Mix(i, kk, ff, 1) % 7
      S == Slots(c)
      sets == [j \in 1..Len(S) |-> SetTo(S[j], Value(S[j], j, var))]
      others == SelectSeq(sets, LAMBDA x : i = 0 \/ x.s # S[i].n)
      right == Value(S[i], i, var)
      wrong == IF kk = 0 THEN <<>> ELSE [right EXCEPT ![kk] = Fault(S[i].v[kk], ff)]
      new == << [op |-> "reset", comp |-> "obj"], [op |-> "new", o |-> 0, cls |-> c] >> IN
  CASE i = 0 -> new \o <<V(1,1), V(0,1), V(0,0)>> \o sets \o <<V(1,1), V(0,1), V(1,0)>>
    \* never set
    [] i > 0 /\ kk = 0 /\ ff = 1 -> new \o others \o <<V(1,1), V(0,1), V(1,0)>>
    \* set to nothing; and the only thing set
    [] i > 0 /\ kk = 0 /\ ff = 2 -> new \o <<SetTo(S[i], right), V(1,1), V(0,0)>> \o others \o <<V(1,1), SetTo(S[i], <<>>), V(1,1), V(0,1), V(1,0)>>
    [] OTHER -> new \o others \o <<SetTo(S[i], wrong), V(1,1), V(0,1), V(0,0), SetTo(S[i], right) @@ [in |-> 1], V(1,1)>>

Init == cls \in {ClassNames[j] : j \in 1..Len(ClassNames)} /\ s = 0 /\ k = 0 /\ f = 0
Next == /\ s = 0 /\ f = 0
        /\ cls' = cls
        /\ \/ s' = 0 /\ k' = 0 /\ f' = 1
           \/ /\ s' \in 1..Len(Slots(cls))
              /\ \/ k' = 0 /\ f' \in 1..2
                 \/ k' \in 1..Len(Slots(cls)[s'].v) /\ f' \in Faults(Slots(cls)[s'].v[k'])
        /\ Classes[cls].val
        /\ PrintT(ToJson(History(cls, s', k', f')))
=============================================================================
