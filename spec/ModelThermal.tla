---------------------------- MODULE ModelThermal ----------------------------
(***************************************************************************)
(* Thermal rating of a cable: heat terms, steady and transient states, and *)
(* the sun (the formulas of IEEE 738, in imperial and metric units).       *)
(***************************************************************************)
EXTENDS ObjKit

Imperial(c) == IVal(c, "units", 1) = 1
Coef(xs) == [k \in 1..Len(xs) |-> RS(xs[k])]
Of(c, imp, met) == IF Imperial(c) THEN RS(imp) ELSE RS(met)
PolyOf(c, imp, met, x) == RPoly(IF Imperial(c) THEN Coef(imp) ELSE Coef(met), x)

(* -- the cable *)
Diam(c) == Val(c, "cable", 1)
HeatCapacity(c) == Val(c, "cable", 4) \oplus Val(c, "cable", 5)
\* resistance points: temperature and resistance, then increments
NPoints(c) == Len(c["resist"].v) \div 2
RECURSIVE UpTo(_, _, _)
UpTo(c, i, k) == IF k = 1 THEN Val(c, "resist", i) ELSE UpTo(c, i, k-1) \oplus Val(c, "resist", 2*k - 2 + i)
PointT(c, k) == UpTo(c, 1, k)
PointR(c, k) == UpTo(c, 2, k)
\* piecewise linear, the end segments being extended
ResistAt(c, t) ==
  LET n == NPoints(c)
      above == {k \in 2..n : t \preceq PointT(c, k)}
      k == IF above = {} THEN n ELSE CHOOSE j \in above : \A i \in above : j <= i
      t0 == PointT(c, k-1)  r0 == PointR(c, k-1) IN
  r0 \oplus (((t \ominus t0) \otimes (PointR(c, k) \ominus r0)) \oslash (PointT(c, k) \ominus t0))

(* -- the weather *)
WindAngle(c) == Rad(Val(c, "weather", 1))
Elev(c) == Val(c, "weather", 2)
Sun(c) == Val(c, "weather", 3)
WindSpeed(c) == Val(c, "weather", 4)
Air(c) == Val(c, "weather", 5)
Rise(c, t) == t \ominus Air(c)
Film(c, t) == (t \oplus Air(c)) \oslash R2
Conductivity(c, f) == PolyOf(c, <<"7.388e-3", "2.279e-5", "-1.343e-9">>, <<"2.424e-2", "7.477e-5", "-4.407e-9">>, f)
Density(c, f) == PolyOf(c, <<"0.080695", "-2.901e-6", "3.7e-11">>, <<"1.293", "-1.525e-4", "6.379e-9">>, Elev(c))
                 \oslash (R1 \oplus (RS("0.00367") \otimes f))
\* per second, also in imperial units
Viscosity(c, f) == (Of(c, "0.00353", "1.458e-6") \otimes RPow(f \oplus RI(273), RS("1.5")))
                   \oslash ((f \oplus RS("383.4")) \otimes Of(c, "3600", "1"))
Reynolds(c, f) == (Diam(c) \otimes Density(c, f) \otimes WindSpeed(c)) \oslash Viscosity(c, f)
WindFactor(c) ==
  LET a == WindAngle(c)  b == R2 \otimes a IN
  (RS("1.194") \ominus RCos(a)) \oplus (RS("0.194") \otimes RCos(b)) \oplus (RS("0.368") \otimes RSin(b))
\* heat lost per degree of rise in wind; heat lost in still air: both in the
\* direction of the rise
ForcedPerDegree(c, f) ==
  LET re == Reynolds(c, f)
      low == RS("1.01") \oplus (RS("1.35") \otimes RPow(re, RS("0.52")))
      high == RS("0.754") \otimes RPow(re, RS("0.6")) IN
  WindFactor(c) \otimes Conductivity(c, f) \otimes RMax(low, high)
Natural(c, t) == Of(c, "1.825", "3.645") \otimes RSqrt(Density(c, Film(c, t))) \otimes RPow(Diam(c), RS("0.75"))
                 \otimes RPow(RAbs(Rise(c, t)), RS("1.25"))
Convection(c, t) ==
  LET f == Film(c, t)
      x == RMax(ForcedPerDegree(c, f) \otimes RAbs(Rise(c, t)), Natural(c, t)) IN
  IF Rise(c, t) \prec R0 THEN x ELSE RNeg(x)
Fourth(t) == RSq(RSq((t \oplus RI(273)) \oslash RI(100)))
Radiated(c, t) == RNeg(Of(c, "1.656", "17.8") \otimes Diam(c) \otimes Val(c, "cable", 3) \otimes (Fourth(t) \ominus Fourth(Air(c))))
SolarHeat(c) == Val(c, "cable", 2) \otimes Sun(c) \otimes Diam(c)
Joule(c, t, i) == RSq(i) \otimes ResistAt(c, t)

(* -- balance *)
\* the joule heat that keeps the cable at t, and its current (negative when
\* the cable would have to be cooled)
JouleAt(c, t) == RNeg(Convection(c, t) \oplus Radiated(c, t) \oplus SolarHeat(c))
CurrentAt(c, t) ==
  LET q == JouleAt(c, t)
      i == RSqrt(RAbs(q) \oslash ResistAt(c, t)) IN
  IF q \prec R0 THEN RNeg(i) ELSE i
StateAt(c, t) == <<Convection(c, t), Radiated(c, t), JouleAt(c, t), SolarHeat(c), R0>>

\* t is the temperature at which current i is steady, to the solver's tenth
\* of a degree
Hot == RI(400)
SteadyAt(c, i, t) ==
  LET step == RS("0.15")  slack == RS("1e-6") \otimes (R1 \oplus i) IN
  /\ ~RIsNaN(t) /\ ~REq(t, NoVal)
  /\ \/ Hot \prec t
     \/ /\ CurrentAt(c, t \ominus step) \preceq (i \oplus slack)
        /\ CurrentAt(c, t \oplus step) \succeq (i \ominus slack)
\* nothing is promised beyond what any cable is operated at
TooHot(c, i) == CurrentAt(c, Hot) \prec i

TCommon(c) == <<Diam(c), Air(c), RI(IVal(c, "units", 1))>>

ThermalCableVerdict(c, e) ==
  CASE e.q = "resistance" -> Tol(e, <<ResistAt(c, Arg(e,1))>>, "1e-9", "1e-15")
    [] e.q = "get" -> Tol(e, Vec(c, "cable") \o <<RI(NPoints(c))>>
                             \o [k \in 1..(2 * NPoints(c)) |-> IF k % 2 = 1 THEN PointT(c, (k+1) \div 2) ELSE PointR(c, k \div 2)],
                          "1e-9", "1e-15")
HeatVerdict(c, e) ==
  CASE e.q = "convection" -> Tol(e, <<Convection(c, Arg(e,1))>>, "1e-9", "1e-9")
    [] e.q = "radiation" -> Tol(e, <<Radiated(c, Arg(e,1))>>, "1e-9", "1e-9")
    [] e.q = "resistance" -> Tol(e, <<Joule(c, Arg(e,1), Arg(e,2))>>, "1e-9", "1e-12")
    [] e.q = "solar" -> Eq(e, <<SolarHeat(c)>>)
    [] e.q = "stored" -> Eq(e, <<Arg(e,1) \oplus Arg(e,2)>>)
    [] e.q = "get" -> Eq(e, TCommon(c))
SteadyCurrentVerdict(c, e) ==
  LET t == Val(c, "temperature", 1) IN
  CASE e.q = "current" -> Tol(e, <<CurrentAt(c, t)>>, "1e-7", "1e-3")
    [] e.q = "state" -> Tol(e, StateAt(c, t), "1e-9", "1e-9")
    [] e.q = "get" -> Eq(e, TCommon(c) \o <<t>>)
SteadyTemperatureVerdict(c, e) ==
  LET i == Val(c, "current", 1)
      t == IF e.q = "state" THEN Res(e, 6) ELSE Res(e, 1)
      Found == <<"temperature at which the current is steady", SteadyAt(c, i, t) \/ (REq(t, NoVal) /\ TooHot(c, i))>> IN
  CASE e.q = "temperature" -> Holds(<<Found>>)
    [] e.q = "state" ->
         LET s == StateAt(c, t) IN
         Holds(<<Found, <<"heat terms at that temperature",
                  REq(t, NoVal) \/ Hot \prec t \/ \A k \in 1..5 : RClose(Res(e, k), s[k], RS("1e-9"), RS("1e-9"))>> >>)
    [] e.q = "get" -> Eq(e, TCommon(c) \o <<i>>)
\* one second after t
NextT(c, i, t) ==
  t \oplus ((Joule(c, t, i) \oplus SolarHeat(c) \oplus Convection(c, t) \oplus Radiated(c, t)) \oslash HeatCapacity(c))
TransientVerdict(c, e) ==
  LET i0 == Val(c, "steady", 1)  i1 == Val(c, "step", 1)  n == IVal(c, "duration", 1)
      T(k) == Res(e, 2*k + 2) IN
  IF e.q = "get" THEN Eq(e, TCommon(c) \o <<i0, i1, RI(n)>>)
  ELSE IF Failed(e) THEN Holds(<< <<"a steady state to start from", TooHot(c, i0)>> >>)
  ELSE IF Len(e.r) # 2 * (n + 1) THEN Holds(<< <<"one point per second", FALSE>> >>)
  ELSE Holds(<<
    <<"one point per second", \A k \in 0..n : REq(Res(e, 2*k + 1), RI(k))>>,
    <<"starts at the steady temperature", SteadyAt(c, i0, T(0))>>,
    <<"each step follows the net heat of the previous one", \A k \in 1..n : RClose(T(k), NextT(c, i1, T(k-1)), RS("1e-9"), RS("1e-9"))>>,
    <<"an unchanged current leaves the cable steady",
      REq(i0, i1) => \A k \in 1..n : Hot \prec T(k) \/ RAbs(T(k) \ominus T(0)) \preceq RS("0.3")>> >>)

(* -- the sun *)
Declination(c) == RS("23.46") \otimes RSin(Rad((RI(284 + IVal(c, "day", 1)) \oslash RI(365)) \otimes RI(360)))
HourAngle(c) == (IVal(c, "hour", 1) - 12) * 15
Altitude(c) ==
  LET l == Rad(Val(c, "latitude", 1))  d == Rad(Declination(c))  h == Rad(RI(HourAngle(c))) IN
  Deg(RAsin(RMax(RI(-1), RMin(R1, (RCos(l) \otimes RCos(d) \otimes RCos(h)) \oplus (RSin(l) \otimes RSin(d))))))
\* components of the direction to the sun, towards east and north
SunEast(c) == RNeg(RCos(Rad(Declination(c))) \otimes RSin(Rad(RI(HourAngle(c)))))
SunNorth(c) ==
  LET l == Rad(Val(c, "latitude", 1))  d == Rad(Declination(c))  h == Rad(RI(HourAngle(c))) IN
  (RCos(l) \otimes RSin(d)) \ominus (RSin(l) \otimes RCos(d) \otimes RCos(h))
\* the angle of a to b, around the circle
AngleGap(a, b) == LET g == RAbs(a \ominus b) IN LET m == g \ominus (RI(360) \otimes RFloor(g \oslash RI(360))) IN RMin(m, RI(360) \ominus m)
SunAzimuth(c) == Deg(RAtan2(SunEast(c), SunNorth(c)))
\* overhead, or at a pole, the azimuth is not defined
SunPlain(c) == RHypot(SunEast(c), SunNorth(c)) \succ RS("1e-6")
Atmosphere(c, h) ==
  IF IVal(c, "quality", 1) = 1
  THEN PolyOf(c, <<"-3.9241", "5.9276", "-1.7856e-1", "3.223e-3", "-3.3549e-5", "1.8053e-7", "-3.7868e-10">>,
                 <<"-42.2391", "63.8044", "-1.9220", "3.46921e-2", "-3.61118e-4", "1.94318e-6", "-4.07608e-9">>, h)
  ELSE PolyOf(c, <<"4.9408", "1.3202", "6.1444e-2", "-2.9411e-3", "5.07752e-5", "-4.03627e-7", "1.22967e-9">>,
                 <<"53.1821", "14.2110", "6.6138e-1", "-3.1658e-2", "5.4654e-4", "-4.3446e-6", "1.3236e-8">>, h)
ElevationFactor(c) == PolyOf(c, <<"1", "3.5e-5", "-1e-9">>, <<"1", "1.148e-4", "-1.108e-8">>, Val(c, "elevation", 1))
\* sine of the angle between the sun's rays and the cable (level, along its azimuth)
SinIncidence(c) ==
  LET az == Rad(Val(c, "azimuth", 1))
      along == (SunEast(c) \otimes RSin(az)) \oplus (SunNorth(c) \otimes RCos(az)) IN
  RSqrt(RMax(R0, R1 \ominus RSq(along)))
Radiation(c) ==
  LET h == Altitude(c) IN
  IF h \preceq R0 THEN R0
  ELSE RMax(R0, Atmosphere(c, h) \otimes SinIncidence(c) \otimes ElevationFactor(c))
SolarVerdict(c, e) ==
  CASE e.q = "altitude" -> Tol(e, <<Altitude(c)>>, "1e-7", "1e-5")
    \* at noon the formula gives south in either hemisphere, as IEEE 738 does
    [] e.q = "azimuth" -> Holds(<< <<"azimuth of the sun",
         ~SunPlain(c) \/ AngleGap(Res(e,1), SunAzimuth(c)) \preceq RS("1e-5") \/ (HourAngle(c) = 0 /\ AngleGap(Res(e,1), RI(180)) \preceq RS("1e-5"))>> >>)
    [] e.q = "radiation" -> IF RAbs(Altitude(c)) \preceq RS("1e-6") THEN Free ELSE Tol(e, <<Radiation(c)>>, "1e-5", "1e-5")
    [] e.q = "get" -> Eq(e, <<Val(c,"azimuth",1), Val(c,"day",1), Val(c,"elevation",1), Val(c,"hour",1), Val(c,"latitude",1), Val(c,"quality",1), Val(c,"units",1)>>)

CableSlotT == Slot("cable", <<R(30,120,1000), RO(1,100,100,<<0,100>>), RO(1,100,100,<<0,100>>), R(20,300,1), R(50,600,1)>>)
ResistSlot == SlotN("resist", <<R(-10,40,1), R(30,100,1000000), R(20,60,1), R(1,6,1000000), R(20,60,1), R(1,12,1000000), R(20,60,1), R(1,6,1000000)>>, 4)
WeatherSlot == Slot("weather", <<RO(0,90,1,<<0,90>>), RO(0,10000,1,<<0>>), RO(0,1000,10,<<0,0,1000>>), RO(0,200,10,<<0,0,2>>), R(-40,50,1)>>)
UnitsSlot == Slot("units", <<R(1,2,1)>>)
CableTemp == RO(-60,250,1,<<-40,25>>)
HeatSlots == <<CableSlotT, ResistSlot, WeatherSlot, UnitsSlot>>
AmpsSlot(n) == Slot(n, <<RO(0,12000,10,<<0,0,10,50,12000>>)>>)
ThermalClasses ==
  [ ThermalCable |-> Class(<<CableSlotT, ResistSlot>>, <<Q("resistance", <<R(-80,300,1)>>), Q("resistance", <<R(-800,3000,10)>>), Q("get", <<>>)>>, TRUE, TRUE),
    HeatSolver |-> Class(HeatSlots,
      << Q("convection", <<CableTemp>>), Q("convection", <<R(-600,2500,10)>>), Q("radiation", <<CableTemp>>), Q("resistance", <<CableTemp, RO(0,1500,1,<<0>>)>>),
         Q("solar", <<>>), Q("stored", <<R(-100,100,3), R(-100,100,3)>>), Q("get", <<>>) >>, TRUE, TRUE),
    SteadyCurrent |-> Class(HeatSlots \o <<Slot("temperature", <<CableTemp>>)>>,
      << Q("current", <<>>), Q("state", <<>>), Q("get", <<>>) >>, TRUE, TRUE),
    SteadyTemperature |-> Class(HeatSlots \o <<AmpsSlot("current")>>,
      << Q("temperature", <<>>), Q("state", <<>>), Q("get", <<>>) >>, TRUE, TRUE),
    Transient |-> Class(HeatSlots \o <<AmpsSlot("steady"), AmpsSlot("step"), Slot("duration", <<RO(0,60,1,<<0,1>>)>>)>>,
      << Q("points", <<>>), Q("points", <<>>), Q("get", <<>>) >>, TRUE, TRUE),
    Solar |-> Class(
      << Slot("azimuth", <<RO(0,360,1,<<0,90>>)>>), Slot("day", <<RO(1,365,1,<<1,365,172>>)>>), Slot("elevation", <<RO(0,10000,1,<<0>>)>>),
         Slot("hour", <<RO(0,23,1,<<0,12>>)>>), Slot("latitude", <<RO(-900,900,10,<<0,-900,900>>)>>), Slot("quality", <<R(1,2,1)>>), UnitsSlot >>,
      << Q("altitude", <<>>), Q("azimuth", <<>>), Q("radiation", <<>>), Q("radiation", <<>>), Q("get", <<>>) >>, TRUE, TRUE) ]
=============================================================================
