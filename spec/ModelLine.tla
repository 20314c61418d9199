------------------------------ MODULE ModelLine ------------------------------
(***************************************************************************)
(* Line cables: the ruling span catenary fixed by a constraint, the        *)
(* stretch the cable takes at its two stretch weather cases, and the       *)
(* catenary (or unloaded length) in any other weather and condition.       *)
(***************************************************************************)
EXTENDS ModelBase, ModelReload

Initial == 0        \* cable conditions
Crept == 1
Loaded == 2

\* w : <<ice thickness, ice density, wind pressure, temperature>>
WeatherIn(c, s) == <<Val(c,s,1), Val(c,s,2), Val(c,s,3), Val(c,s,4)>>
LoadIn(c, w) == UnitLoadOf(Val(c,"cable",10), Val(c,"cable",9), w[1], w[2], w[3])
SpanAt(c, w, h) == LET u == LoadIn(c, w) IN Cat3Of(Val(c,"geometry",1), Val(c,"geometry",2), u[2], u[3], h)

\* a constraint : weather, type of limit, condition, limit
ConstraintIn(c) == [w |-> WeatherIn(c, "case"), type |-> IVal(c,"constraint",1), cond |-> IVal(c,"constraint",2),
                    limit |-> Val(c,"constraint",3)]
\* type of limit -> target type of a catenary solver (0: tension given)
TargetType(t) == <<1, 0, 2, 3, 4>>[t]
LimitValue(c, k, h) ==
  LET u == LoadIn(c, k.w)
      sx == Val(c,"geometry",1)  sz == Val(c,"geometry",2) IN
  IF k.type = 2 THEN h
  ELSE TargetOf(TargetType(k.type), IF k.type # 5 THEN RNeg(R1) ELSE IF sz \preceq R0 THEN R0 ELSE R1, sx, sz, u[2], u[3], h)
\* smallest tension of a valid catenary
HMin(c, w) == LET u == LoadIn(c, w) IN (RHypot(Val(c,"geometry",1), Val(c,"geometry",2)) \oslash R2) \otimes RHypot(u[2], u[3])
\* h is the horizontal tension at which the limit is met
ConstraintMet(c, k, h) ==
  LET step == RMax(RS("0.02"), h \otimes RS("1e-7"))
      f1 == LimitValue(c, k, h \ominus step)
      f2 == LimitValue(c, k, h \oplus step) IN
  /\ (RMin(f1, f2) \ominus RS("1e-6")) \preceq k.limit
  /\ k.limit \preceq (RMax(f1, f2) \oplus RS("1e-6"))
\* the limit clearly has a valid catenary
ConstraintAttainable(c, k) ==
  LET least == HMin(c, k.w)
      f == LimitValue(c, k, least)
      chord == RHypot(Val(c,"geometry",1), Val(c,"geometry",2)) IN
  CASE k.type \in {1, 2, 5} -> k.limit \succ (f \otimes RS("1.001"))
    [] k.type = 3 -> k.limit \succ (chord \otimes RS("1.0002")) /\ k.limit \prec (f \otimes RS("0.9999"))
    [] k.type = 4 -> k.limit \succ RS("0.5") /\ k.limit \prec (f \otimes RS("0.999"))

\* ---- cable states.  s : <<creep stretch load, load stretch load>>
StretchOf(c, cond, s) ==
  CASE cond = Initial -> <<R0, LoadStrain, R0>>
    [] cond = Crept -> <<Val(c,"creep",4), Creep, s[1]>>
    [] cond = Loaded -> <<Val(c,"load",4), LoadStrain, s[2]>>
ModelAt(c, temp, cond, s) == CableRegions(c, <<temp, LoadStrain>>, StretchOf(c, cond, s))
\* the state in which the cable takes its creep or load stretch: never stretched before
Stretching(c, which) ==
  IF which = Crept THEN CableRegions(c, <<Val(c,"creep",4), Creep>>, <<Val(c,"creep",4), Creep, R0>>)
  ELSE CableRegions(c, <<Val(c,"load",4), LoadStrain>>, <<Val(c,"load",4), LoadStrain, R0>>)

\* horizontal tension whose average tension is t
RECURSIVE HBis(_, _, _, _, _, _)
HBis(c, w, t, lo, hi, n) ==
  LET mid == (lo \oplus hi) \oslash R2 IN
  IF n = 0 THEN mid
  ELSE IF TAvg(SpanAt(c, w, mid)) \prec t THEN HBis(c, w, t, mid, hi, n-1) ELSE HBis(c, w, t, lo, mid, n-1)
\* below about half the least valid tension the average rises again
HOfAverage(c, w, t) == HBis(c, w, t, HMin(c, w) \otimes RS("0.75"), RMax(t, HMin(c, w)), 45)

\* the reference: the constraint's catenary and the state of the cable in it
RefOf(c, k, hc, s) ==
  LET span == SpanAt(c, k.w, hc)
      a == ModelAt(c, k.w[4], k.cond, s) IN
  [len |-> span.len, model |-> a, x0 |-> StrainOf(a, TAvg(span)), sane |-> CatSane(span) /\ ~CableOdd(a)]
\* a cable that hangs in ref hangs at h in weather w, gs its state there
Rests(c, ref, w, gs, h) ==
  LET At(x) == SpanAt(c, w, x) IN
  ~CatSane(At(h)) \/ CableOdd(gs) \/ Balanced(At, ref.len, ref.x0, gs, h)
\* (a longer cable hangs lower than any valid catenary)
Fits(c, ref, w, gs) == CableOdd(gs) \/ Excess(SpanAt(c, w, HMin(c, w)), ref.len, ref.x0, gs) \succ (ref.len \otimes RS("1e-5"))

\* s[which] is the average tension the cable takes in its stretch weather
StretchOk(c, ref, which, s) ==
  LET w == WeatherIn(c, IF which = Crept THEN "creep" ELSE "load")
      gs == Stretching(c, which) IN
  ~Fits(c, ref, w, gs) \/ Rests(c, ref, w, gs, HOfAverage(c, w, s[which]))

\* parts common to reloading and unloading; s and hc as observed
LineFacts(c, k, s, hc) ==
  << <<"the ruling span meets its constraint", ConstraintMet(c, k, hc)>>,
     <<"creep stretch is the average tension at the creep weather case", StretchOk(c, RefOf(c, k, hc, s), Crept, s)>>,
     <<"load stretch is the average tension at the load weather case", StretchOk(c, RefOf(c, k, hc, s), Loaded, s)>> >>

\* what the enabled components carry before any of their polynomials ends
Capacity(c) ==
  LET of(k, t) == IF Enabled(c, k) THEN CableComp(c, k).limit[t] ELSE R0 IN
  RMin(Val(c,"cable",11), RMin(of(0,1) \oplus of(1,1), of(0,2) \oplus of(1,2)))
\* no answer is due when the constraint, a stretch or the question cannot be met
Solvable(c, k, hc) ==
  LET ref == RefOf(c, k, hc, <<R0, R0>>) IN
  /\ ref.sane
  /\ hc \prec (Capacity(c) \otimes RS("0.35"))
  /\ Fits(c, ref, WeatherIn(c, "creep"), Stretching(c, Crept))
  /\ Fits(c, ref, WeatherIn(c, "load"), Stretching(c, Loaded))

RulingVerdict(c, e) ==
  IF e.q = "get" THEN Eq(e, <<Val(c,"cable",9), Val(c,"geometry",1), Val(c,"creep",4), Val(c,"load",4), Val(c,"constraint",3), Val(c,"case",4)>>)
  ELSE LET k == ConstraintIn(c)
           u == LoadIn(c, k.w)
           h == Res(e, 1)
           found == ~REq(h, NoVal) IN
       Holds(<< <<"the limit is met", found => ConstraintMet(c, k, h)>>,
                <<"a catenary that meets the limit is found", ConstraintAttainable(c, k) => found>>,
                <<"spacing and unit load", Near(Res(e,2), Val(c,"geometry",1)) /\ Near(Res(e,3), Val(c,"geometry",2))
                                            /\ Near(Res(e,4), u[2]) /\ Near(Res(e,5), u[3])>> >>)

\* the tail of an answer: creep and load stretch, the result, constraint tension
TailS(e) == LET n == Len(e.r) IN <<Res(e, n-3), Res(e, n-2)>>
TailR(e) == Res(e, Len(e.r) - 1)
TailC(e) == Res(e, Len(e.r))

StrainSlack == RS("2e-6")
LineReloaderVerdict(c, e) ==
  IF e.q = "get" THEN Eq(e, <<Val(c,"weather",4), IF IVal(c,"condition",1) = Initial THEN R1 ELSE R0, Val(c,"constraint",3)>>)
  ELSE
  LET k == ConstraintIn(c)
      s == TailS(e)  h == TailR(e)  hc == TailC(e)
      w == WeatherIn(c, "weather")
      cond == IVal(c,"condition",1)
      ref == RefOf(c, k, hc, s)
      gs == ModelAt(c, w[4], cond, s)
      span == SpanAt(c, w, h)
      t == TAvg(span)
      x == StrainOf(gs, t)
      part == IArg(e, 1)
      Load(y) == IF part = 0 THEN CableLoad(gs, y) ELSE PartLoad(gs[part], y)
      share == IF e.q = "horizontal" THEN h \oslash t ELSE R1
      none == REq(hc, NoVal) \/ REq(s[1], NoVal) \/ REq(s[2], NoVal) \/ REq(h, NoVal)
      lost == /\ REq(h, NoVal)
              /\ Solvable(c, k, hc) => (~(REq(s[1], NoVal)) /\ ~Fits(c, ref, w, gs)) IN
  IF ~none /\ (~ref.sane \/ CableOdd(gs)) THEN Free
  ELSE IF none THEN
    Holds(<< <<"an answer exists, so it is found", REq(hc, NoVal) \/ lost>>,
             <<"the failure value is returned", \A j \in {1} : e.q \notin {"creep", "load", "state"} => REq(Res(e,1), NoVal)>> >>)
  ELSE
  Both(Holds(LineFacts(c, k, s, hc) \o << <<"the cable hangs still in the reloaded weather", Rests(c, ref, w, gs, h)>> >>),
  CASE e.q = "tension" -> Eq(e, <<h, s[1], s[2], h, hc>>)
    [] e.q = "catenary" -> LET u == LoadIn(c, w) IN
         Eq(e, <<h, Val(c,"geometry",1), Val(c,"geometry",2), u[2], u[3], s[1], s[2], h, hc>>)
    [] e.q = "state" -> Eq(e, <<w[4], R1, s[1], s[2], h, hc>>)
    [] e.q = "creep" -> Eq(e, <<Val(c,"creep",4), R0, s[1], s[1], s[2], h, hc>>)
    [] e.q = "load" -> Eq(e, <<Val(c,"load",4), R1, s[2], s[1], s[2], h, hc>>)
    [] e.q \in {"avg", "horizontal"} ->
         Holds(<< <<"the component's share of the tension at the cable's strain",
           Between(share \otimes Load(x \ominus StrainSlack), Res(e,1), share \otimes Load(x \oplus StrainSlack), CableTol(c))>> >>))

LineUnloaderVerdict(c, e) ==
  IF e.q = "get" THEN Eq(e, <<Val(c,"spacing",1), Val(c,"temperature",1), IF IVal(c,"condition",1) = Initial THEN R1 ELSE R0, Val(c,"constraint",3)>>)
  ELSE
  LET k == ConstraintIn(c)
      s == TailS(e)  l == TailR(e)  hc == TailC(e)
      u == LoadIn(c, k.w)
      ref == RefOf(c, k, hc, s)
      span == Cat3Of(Val(c,"spacing",1), Val(c,"spacing",2), u[2], u[3], hc)
      gs == ModelAt(c, Val(c,"temperature",1), IVal(c,"condition",1), s)
      none == REq(hc, NoVal) \/ REq(s[1], NoVal) \/ REq(s[2], NoVal) \/ REq(l, NoVal)
      lost == REq(l, NoVal) /\ (Solvable(c, k, hc) => ~CatValid(span)) IN
  IF ~none /\ (~ref.sane \/ CableOdd(gs) \/ ~CatSane(span)) THEN Free
  ELSE IF none THEN
    Holds(<< <<"an answer exists, so it is found", REq(hc, NoVal) \/ lost>>,
             <<"the failure value is returned", e.q \notin {"creep", "load"} => REq(Res(e,1), NoVal)>> >>)
  ELSE
  Both(Holds(LineFacts(c, k, s, hc) \o << <<"the unloaded length is that of the spanned cable without load",
         RAbs(l \ominus Strained(span.len, StrainOf(ref.model, TAvg(span)), StrainOf(gs, R0))) \preceq (span.len \otimes StrainTol)>> >>),
  CASE e.q = "length" -> Eq(e, <<l, s[1], s[2], l, hc>>)
    [] e.q = "creep" -> Eq(e, <<Val(c,"creep",4), R0, s[1], s[1], s[2], l, hc>>)
    [] e.q = "load" -> Eq(e, <<Val(c,"load",4), R1, s[2], s[1], s[2], l, hc>>))

\* ---- sagging a line cable to several design constraints
Designs(c) == [j \in 1..(Len(c["constraints"].v) \div 7) |->
  LET x(i) == Val(c, "constraints", 7*(j-1) + i)
      n(i) == IVal(c, "constraints", 7*(j-1) + i) IN
  [w |-> <<x(1), x(2), x(3), x(4)>>, type |-> n(5), cond |-> n(6), limit |-> x(7)]]
\* horizontal tension at which a limit on tension is reached
RECURSIVE LimitBis(_, _, _, _, _)
LimitBis(c, k, lo, hi, n) ==
  LET mid == (lo \oplus hi) \oslash R2 IN
  IF n = 0 THEN mid ELSE IF LimitValue(c, k, mid) \prec k.limit THEN LimitBis(c, k, mid, hi, n-1) ELSE LimitBis(c, k, lo, mid, n-1)
HAtLimit(c, k) ==
  LET u == LoadIn(c, k.w) IN
  CASE k.type = 2 -> k.limit
    [] k.type = 1 -> k.limit \otimes RHypot(u[2], u[3])
    [] k.type = 5 -> LimitBis(c, k, HMin(c, k.w), RMax(k.limit, HMin(c, k.w)), 45)
\* a design constraint a cable of this strength can be sagged to
Reachable(c, k) == ConstraintAttainable(c, k) /\ Solvable(c, k, HAtLimit(c, k))

\* the tail of an answer: index, limit, stretches, ruling span tension, then
\* the horizontal tension under each design constraint
SaggerVerdict(c, e) ==
  LET ks == Designs(c)
      n == Len(ks)
      i == IF Len(e.a) > 0 THEN (IArg(e,1) % n) + 1 ELSE 1
      none == Len(e.r) = 2
      lost == \E j \in 1..n : LET kk == ks[j] IN ~Reachable(c, kk)
      at == RToInt(Res(e,2)) + 1
      k == [ConstraintIn(c) EXCEPT !.limit = Res(e,3)]
      s == <<Res(e,4), Res(e,5)>>
      hc == Res(e,6)
      H(j) == Res(e, 6 + j)
      ref == RefOf(c, k, hc, s)
      Model(j) == ModelAt(c, ks[j].w[4], ks[j].cond, s)
      odd == \E j \in 1..n : LET m == Model(j) IN CableOdd(m) \/ ~CatSane(SpanAt(c, ks[j].w, H(j)))
      Value(j) == LimitValue(c, ks[j], H(j))
      w == RHypot(LoadIn(c, ks[i].w)[2], LoadIn(c, ks[i].w)[3])
      \* a constraint beyond the strength of the cable
      Over(j) == LET kk == ks[j] IN ~Reachable(c, kk)
      \* precision after three successive reloadings
      slip(j) == RI(6) \oplus (H(j) \otimes RS("1e-3"))
      tol(j) == IF ks[j].type = 1 THEN slip(j) \oslash RHypot(LoadIn(c, ks[j].w)[2], LoadIn(c, ks[j].w)[3]) ELSE slip(j) IN
  IF none THEN Holds(<< <<"an answer exists, so it is found", lost>>,
                        <<"the failure value is returned", IF e.q = "index" THEN REq(Res(e,1), RI(-9999)) ELSE REq(Res(e,1), NoVal)>> >>)
  ELSE IF ~ref.sane \/ odd THEN Free
  ELSE
  Both(Holds(LineFacts(c, k, s, hc) \o
       << <<"actual tensions are those of the sagged line cable",
            Len(e.r) = 6 + n /\ \A j \in 1..n : LET m == Model(j) IN Rests(c, ref, ks[j].w, m, H(j))>>,
          <<"every design constraint is met", \A j \in 1..n : Value(j) \preceq (ks[j].limit \oplus tol(j)) \/ Over(j)>>,
          <<"the controlling constraint is met exactly", at \in 1..n /\ (RAbs(Value(at) \ominus ks[at].limit) \preceq tol(at) \/ Over(at))>> >>),
  LET v == CASE e.q = "index" -> Res(e,2)
             [] e.q = "limit" -> Res(e,3)
             [] e.q = "capacity" -> Value(i) \oslash ks[i].limit
             [] e.q = "constant" -> H(i) \oslash w
             [] e.q = "tension" -> H(i)
             [] e.q = "support" -> CatTMax(SpanAt(c, ks[i].w, H(i))) IN
  [ok |-> NearBy(Res(e,1), v, "1e-9", "1e-6"), exp |-> Shown(<<v>>)])

\* ---------------------------------------------------------------- inputs
LineCableSlot == Slot("cable", [CableSlot.v EXCEPT ![9] = R(900,1300,1000), ![10] = R(800,1100,10000)])
GeometrySlot == Slot("geometry", <<R(300,1500,1), RO(-100,100,1,<<0,0>>)>>)
Ice == RO(0,15,12 * 10,<<0,0>>)
IceDens == RO(0,60,1,<<57>>)
Wind == RO(0,12,1,<<0,0,8>>)
CaseSlot(n) == Slot(n, <<Ice, IceDens, Wind, Temp>>)
CreepSlot == Slot("creep", <<K(0,1), IceDens, RO(0,4,1,<<0>>), RO(0,80,1,<<60>>)>>)
LoadSlot == Slot("load", <<RO(0,10,120,<<5>>), IceDens, RO(0,12,1,<<8>>), RO(-20,40,1,<<0>>)>>)
Cond == R(0,2,1)
ConstraintSlots == <<
  Slot("constraint", <<K(1,1), Cond, R(1500,7000,1)>>), Slot("constraint", <<K(2,1), Cond, R(2000,8000,1)>>),
  Slot("constraint", <<K(5,1), Cond, R(2500,9000,1)>>), Slot("constraint", <<K(4,1), RO(0,2,1,<<0>>), R(5,60,1)>>),
  Slot("constraint", <<K(3,1), RO(0,2,1,<<0>>), R(3010,15100,10)>>), Slot("constraint", <<K(2,1), K(0,1), R(2000,8000,1)>>) >>
LineSlots == << LineCableSlot, GeometrySlot, CreepSlot, LoadSlot, CaseSlot("case") >> \o ConstraintSlots
RulingClass == Class(LineSlots, << Q("catenary", <<>>), Q("catenary", <<>>), Q("get", <<>>) >>, TRUE, TRUE)
LineReloaderClass == Class(
  LineSlots \o << CaseSlot("weather"), Slot("condition", <<Cond>>), CaseSlot("weather"), Slot("condition", <<Cond>>),
                  \* the constraint's own weather
                  Slot("case", <<K(0,1), K(0,1), K(0,1), K(60,1)>>), Slot("weather", <<K(0,1), K(0,1), K(0,1), K(60,1)>>) >>,
  << Q("tension", <<>>), Q("catenary", <<>>), Q("avg", <<PartArg>>), Q("horizontal", <<PartArg>>), Q("state", <<>>),
     Q("creep", <<>>), Q("load", <<>>), Q("get", <<>>) >>, TRUE, TRUE)
LineUnloaderClass == Class(
  LineSlots \o << Slot("spacing", <<R(300,1500,1), RO(-100,100,1,<<0,0>>)>>), Slot("temperature", <<Temp>>), Slot("condition", <<Cond>>),
                  Slot("spacing", <<R(300,1500,1), RO(-100,100,1,<<0,0>>)>>), Slot("temperature", <<Temp>>), Slot("condition", <<Cond>>) >>,
  << Q("length", <<>>), Q("length", <<>>), Q("creep", <<>>), Q("load", <<>>), Q("get", <<>>) >>, TRUE, TRUE)
SagLimit == <<Ice, IceDens, Wind, Temp, RO(1,2,1,<<5>>), Cond, R(2000,7000,1)>>
SaggerClass == Class(
  << LineCableSlot, GeometrySlot, CreepSlot, LoadSlot, CaseSlot("case"),
     Slot("constraint", <<RO(1,2,1,<<5,5>>), Cond, R(2000,7000,1)>>),
     SlotN("constraints", SagLimit \o SagLimit \o SagLimit \o SagLimit, 7), SlotN("constraints", SagLimit \o SagLimit \o SagLimit, 14) >>,
  << Q("index", <<>>), Q("limit", <<>>), Q("capacity", <<R(0,3,1)>>), Q("constant", <<R(0,3,1)>>), Q("tension", <<R(0,3,1)>>),
     Q("support", <<R(0,3,1)>>) >>, TRUE, TRUE)
LineClasses == [Sagger |-> SaggerClass, RulingSpan |-> RulingClass, LineReloader |-> LineReloaderClass, LineUnloader |-> LineUnloaderClass]
=============================================================================
