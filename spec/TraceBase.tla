------------------------------ MODULE TraceBase ------------------------------
(* Trace validation for vectors, unit conversions and helpers.               *)
EXTENDS BaseTypes, TraceKit
VARIABLES l, v2, v3
E == Events[l]
Num(p) == RQ(p[1], p[2])
Big(v) == RSum([k \in 1..Len(v) |-> RAbs(v[k])])
\* rotation ignores less than a ten-thousandth of a degree
Same(got, want, scale) == Len(got) = Len(want) /\ \A k \in 1..Len(got) :
  RAbs(got[k] \ominus want[k]) \preceq RMax(scale \otimes RS("1.1e-6"), RS("1e-9"))
Step2(e, v) == CASE e.f = "new" -> <<Num(e.x), Num(e.y)>>
                 [] e.f = "x" -> <<Num(e.x), v[2]>>
                 [] e.f = "y" -> <<v[1], Num(e.x)>>
                 [] e.f = "rotate" -> Turned(v[1], v[2], Num(e.x))
                 [] e.f = "scale" -> <<v[1] \otimes Num(e.x), v[2] \otimes Num(e.x)>>
                 [] OTHER -> v
Step3(e, v) == CASE e.f = "new" -> <<Num(e.x), Num(e.y), Num(e.z)>>
                 [] e.f = "x" -> [v EXCEPT ![1] = Num(e.x)]
                 [] e.f = "y" -> [v EXCEPT ![2] = Num(e.x)]
                 [] e.f = "z" -> [v EXCEPT ![3] = Num(e.x)]
                 [] e.f = "rotate" -> IF e.p = 0 THEN v
                      ELSE LET ax == PlaneAxes[e.p]  t == Turned(v[ax[1]], v[ax[2]], Num(e.x)) IN
                           [v EXCEPT ![ax[1]] = t[1], ![ax[2]] = t[2]]
                 [] e.f = "scale" -> [k \in 1..3 |-> v[k] \otimes Num(e.x)]
                 [] OTHER -> v
\* only rotation rounds; everything else is exact
Moved(e, v, want) == IF e.f = "rotate"
  THEN /\ Same(e.v, want, Big(v))
       /\ e.op = "v3" => \A k \in 1..3 : (e.p = 0 \/ k \notin {PlaneAxes[e.p][1], PlaneAxes[e.p][2]}) => e.v[k] = v[k]
  ELSE Len(e.v) = Len(want) /\ \A k \in 1..Len(want) : NearBy(e.v[k], want[k], "1e-14", "0")
Asked2(e) == /\ Near(e.q[1], RHypot(e.v[1], e.v[2]))
             /\ AngleOk(e.v[1], e.v[2], e.q[2], e.q[3])
Asked3(e) == /\ Near(e.q[1], RHypot(RHypot(e.v[1], e.v[2]), e.v[3]))
             /\ REq(e.q[2], NoVal) /\ REq(e.q[3], NoVal)
             /\ \A p \in 1..6 : AngleOk(e.v[PlaneAxes[p][1]], e.v[PlaneAxes[p][2]], e.q[2 + 2*p], e.q[3 + 2*p])
Show(s) == [k \in 1..Len(s) |-> RShow(s[k])]
JudgeVec(e, v, want, asked) ==
  /\ Judge(Moved(e, v, want), l, "vector components after the operation", [event |-> e, before |-> Show(v), got |-> Show(e.v), specified |-> Show(want)])
  /\ Judge(asked, l, "magnitude or angle of the vector", [event |-> e, vector |-> Show(e.v), got |-> Show(e.q)])
  /\ Judge(e.after = e.v, l, "asking changed the vector", e)
JudgeUnit(e) ==
  LET v == Num(e.x) IN
  IF e.t \in NullUnits THEN Judge(REq(e.r, NoVal), l, "unsupported conversion does not fail", e)
  ELSE LET want == Converted(e.t, v, e.e, e.n = 1) IN
  \* pounds per square foot are known to seven digits
  /\ Judge(NearBy(e.r, want, IF e.t \in {"PascalToPsf", "PsfToPascal"} THEN "4e-6" ELSE "1e-12", IF IsShift(e.t) THEN "1e-8" ELSE "0"), l,
           "converted value", [event |-> e, got |-> RShow(e.r), specified |-> RShow(want)])
  /\ Judge(NearBy(e.back, v, "1e-12", IF IsShift(e.t) THEN "1e-8" ELSE "0"), l, "conversion and its reverse do not cancel", [event |-> e, got |-> RShow(e.back)])
\* exponents a double cannot hold are not numbers to the library
Huge(s) == \E k \in 1..(Len(s)-2) : s[k] \in Digit /\ s[k+1] \in Digit /\ s[k+2] \in Digit
                                     /\ \E j \in 1..(k-1) : s[j] \in {69, 101}
JudgeHelper(e) ==
  CASE e.op = "compare" -> Judge(e.r = Cmp(e.a, e.b), l, "string comparison", [event |-> e, specified |-> Cmp(e.a, e.b)])
    [] e.op = "numeric" -> Judge(e.r = Numeric(e.a) \/ Huge(e.a), l, "numeric test", e)
    [] e.op = "parse" -> Judge(e.r = Split(e.a, e.b, <<>>), l, "parsed items", [event |-> e, specified |-> Split(e.a, e.b, <<>>)])
    [] e.op = "linear" ->
         LET y1 == Num(e.y1)  y2 == Num(e.y2)  x1 == Num(e.x1)  x2 == Num(e.x2)
             want == y1 \oplus (((Num(e.x) \ominus x1) \otimes (y2 \ominus y1)) \oslash (x2 \ominus x1)) IN
         Judge(RAbs(e.r \ominus want) \preceq (RS("1e-12") \otimes ((RAbs(y1) \oplus RAbs(y2)) \oplus RAbs(want))), l, "interpolated value",
               [event |-> e, got |-> RShow(e.r), specified |-> RShow(want)])
    [] e.op = "round" ->
         \* x = m/8 is a tie at p places when 10^p m/8 is a half-integer
         LET m == e.x[1] * (CASE e.p = 0 -> 1 [] e.p = 1 -> 10 [] e.p = 2 -> 100 [] OTHER -> 8) IN
         Judge(RoundOk(Num(e.x), e.p, e.r, e.x[2] = 8 /\ m % 8 = 4), l, "rounded value", [event |-> e, got |-> RShow(e.r)])
    [] e.op = "tostring" -> Judge(ToStringOk(Num(e.x), e.p, e.b = 1, e.r), l, "written number", [event |-> e, value |-> RShow(Num(e.x))])
Init == l = 1 /\ v2 = <<NoVal, NoVal>> /\ v3 = <<NoVal, NoVal, NoVal>>
Next ==
  /\ l <= Len(Events)
  /\ l' = l + 1
  /\ CASE E.op = "reset" -> v2' = <<NoVal, NoVal>> /\ v3' = <<NoVal, NoVal, NoVal>>
       [] Has(E, "exc") -> Report(l, "exception", E) /\ UNCHANGED <<v2, v3>>
       [] E.op = "v2" -> /\ JudgeVec(E, v2, Step2(E, v2), Asked2(E))
                         /\ v2' = E.v /\ UNCHANGED v3
       [] E.op = "v3" -> /\ JudgeVec(E, v3, Step3(E, v3), Asked3(E))
                         /\ v3' = E.v /\ UNCHANGED v2
       [] E.op = "unit" -> JudgeUnit(E) /\ UNCHANGED <<v2, v3>>
       [] OTHER -> JudgeHelper(E) /\ UNCHANGED <<v2, v3>>
=============================================================================
