------------------------------ MODULE TraceObj ------------------------------
(***************************************************************************)
(* Trace validation for "set inputs, ask for results" objects.  The        *)
(* abstract object is its class and current inputs.                        *)
(*  FOCUS calc   a recorded answer must satisfy Verdict for the CURRENT    *)
(*               inputs, whatever happened before                          *)
(*        fresh  a recorded answer must equal that of a fresh object with  *)
(*               the same inputs                                           *)
(*        copy   the same, over copies: a copy takes over its source's     *)
(*               inputs, and nothing else couples objects                  *)
(*        valid  validation reports a message exactly when it fails, and   *)
(*               fails when a part is invalid or an input is out of range  *)
(***************************************************************************)
EXTENDS ObjModels, TraceKit

Focus == IOEnv.FOCUS
VARIABLES l, cls, cfg
E == Events[l]
Objs == 0..2
NoCfg == [none |-> <<>>]
Put(c, s, x) == (s :> x) @@ c

SameNum(x, y, t) == \/ x = y
                    \/ RIsNaN(x) /\ RIsNaN(y)
                    \/ RClose(x, y, t, t)
SameAnswer(e, t) == Len(e.r) = Len(e.f) /\ \A k \in 1..Len(e.r) : SameNum(e.r[k], e.f[k], t)

Detail(c, x, e, exp) == [event |-> e, inputs |-> x, class |-> c, got |-> Shown(e.r), specified |-> exp]
JudgeQuery(c, x, e) ==
  IF Has(e, "exc") THEN Report(l, "query raised an exception", e)
  ELSE IF Focus = "calc"
  THEN LET v == Verdict(c, x, e) IN
       IF v.ok THEN TRUE
       ELSE Report(l, "result does not match the specification for the current inputs", Detail(c, x, e, v.exp))
  ELSE IF Has(e, "f") /\ ~SameAnswer(e, FreshTol(c))
  THEN Report(l, "answer differs from a fresh object with the same inputs", Detail(c, x, e, Shown(e.f)))
  ELSE TRUE
JudgeVal(c, x, e) ==
  IF Has(e, "exc") THEN Report(l, "validation raised an exception", e)
  ELSE IF Focus # "valid" THEN TRUE
  ELSE LET d == [event |-> e, inputs |-> x, class |-> c] IN
       /\ Judge(e.m = 0 \/ (e.ok <=> e.n = 0), l, "validation result and messages disagree", d)
       /\ Judge(e.kept, l, "validation loses earlier messages of the list", d)
       /\ Judge(e.blank = 0, l, "a message without title or description", d)
       /\ Judge(e.ok => \A k \in 1..Len(e.parts) : e.parts[k], l, "validation accepts an object with an invalid part", d)
       /\ IF IsValue(c)
          THEN LET n == Errors(c, x) IN
               /\ Judge(e.ok => n = 0, l, "validation accepts an invalid input", [d |-> d, faults |-> n])
               /\ Judge(n = 0 /\ FieldsOnly(c) => e.ok, l, "validation refuses a valid object", [d |-> d, faults |-> n])
               /\ Judge(e.m = 1 /\ (n > 0 \/ FieldsOnly(c)) => e.n = n, l, "validation does not report each fault", [d |-> d, faults |-> n])
          ELSE /\ Judge(e.ok => InputsOk(c, x), l, "validation accepts an invalid input", d)
               /\ Judge(c \in Accepting /\ InputsOk(c, x) /\ (c \in {"Catenary2d", "Catenary3d"} => Shallow(x)) /\ (\A k \in 1..Len(e.parts) : e.parts[k]) => e.ok, l, "validation refuses valid inputs", d)

Init == l = 1 /\ cls = [o \in Objs |-> "-"] /\ cfg = [o \in Objs |-> NoCfg]
Next ==
  /\ l <= Len(Events)
  /\ l' = l + 1
  /\ CASE E.op = "reset" -> cls' = [o \in Objs |-> "-"] /\ cfg' = [o \in Objs |-> NoCfg]
       [] E.op = "new" -> cls' = [cls EXCEPT ![E.o] = E.cls] /\ cfg' = [cfg EXCEPT ![E.o] = NoCfg]
       [] E.op = "set" -> /\ cfg' = [cfg EXCEPT ![E.o] = Put(@, E.s, [v |-> E.v, d |-> E.d])]
                          /\ UNCHANGED cls
                          /\ Has(E, "exc") => Report(l, "setter raised an exception", E)
       [] E.op \in {"copy", "assign"} -> /\ cls' = [cls EXCEPT ![E.o] = cls[E.from]]
                                         /\ cfg' = [cfg EXCEPT ![E.o] = cfg[E.from]]
       [] E.op = "destroy" -> cls' = [cls EXCEPT ![E.o] = "-"] /\ cfg' = [cfg EXCEPT ![E.o] = NoCfg]
       [] E.op = "q" -> JudgeQuery(cls[E.o], cfg[E.o], E) /\ UNCHANGED <<cls, cfg>>
       [] E.op = "val" -> JudgeVal(cls[E.o], cfg[E.o], E) /\ UNCHANGED <<cls, cfg>>
=============================================================================
