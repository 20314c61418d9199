--------------------------- MODULE ModelElongation ---------------------------
(***************************************************************************)
(* Load and strain of stranded cables: one component, the whole cable.     *)
(* Loads in force units, strains dimensionless; the polynomials map        *)
(* percent strain to load.                                                 *)
(***************************************************************************)
EXTENDS ModelPosition

Creep == 0          \* polynomial types
LoadStrain == 1
Area == RS("0.7264")
CreepCoef(kind) == IF kind = 0 THEN <<RS("47.1"), RS("36211.3"), RS("12201.4"), RS("-72392"), RS("46338")>>
                   ELSE <<RS("-544.8"), RS("21426.8"), RS("-18842.2"), RS("5495"), R0>>
LoadCoef(kind) == IF kind = 0 THEN <<RS("-69.3"), RS("38629"), RS("3998.1"), RS("-45713"), RS("27892")>>
                  ELSE <<RS("-1213"), RS("44308.1"), RS("-14004.4"), RS("-37618"), RS("30676")>>
Limit(kind, type) == IF kind = 0 THEN (IF type = Creep THEN RI(22406) ELSE RI(19154))
                     ELSE (IF type = Creep THEN RI(7535) ELSE RI(20252))
Expansion(kind) == IF kind = 0 THEN RS("0.0000064") ELSE RS("0.0000128")
Stiffness(kind) == IF kind = 0 THEN RI(3700000) ELSE RI(6400000)

Times(p, g) == <<p[1] \otimes g, p[2] \otimes g, p[3] \otimes g, p[4] \otimes g, p[5] \otimes g>>
\* a component: both polynomials, both limits, thermal expansion, moduli
Comp0(kind, f, lim, mc, mt, al, sy) ==
  LET g == Area \otimes f IN
  [ poly |-> <<Times(CreepCoef(kind), g), Times(LoadCoef(kind), g)>>,
    limit |-> <<(Limit(kind, Creep) \otimes g) \otimes lim, (Limit(kind, LoadStrain) \otimes g) \otimes lim>>,
    alpha |-> Expansion(kind) \otimes al, mc |-> (mc \otimes RI(100000)) \otimes Area,
    mt |-> (Stiffness(kind) \otimes g) \otimes mt, sy |-> sy ]
PolyAt(p, x) == p[1] \oplus (x \otimes (p[2] \oplus (x \otimes (p[3] \oplus (x \otimes (p[4] \oplus (x \otimes p[5])))))))
PolySlope(p, x) == p[2] \oplus (x \otimes ((R2 \otimes p[3]) \oplus (x \otimes ((RI(3) \otimes p[4]) \oplus (x \otimes (RI(4) \otimes p[5]))))))
Percent == RS("0.01")
RECURSIVE PolyBis(_, _, _, _, _)
PolyBis(p, y, lo, hi, n) ==
  LET mid == (lo \oplus hi) \oslash R2 IN
  IF n = 0 THEN mid
  ELSE IF PolyAt(p, mid) \prec y THEN PolyBis(p, y, mid, hi, n-1) ELSE PolyBis(p, y, lo, mid, n-1)
\* the polynomials rise from -0.3 to 1.05 percent
PolyInv(p, y) == PolyBis(p, y, RS("-0.3"), RS("1.05"), 55)

\* a component in a state: temperature above reference dt, polynomial type,
\* and the load s it has been stretched to before
Region(k, type, dt, s) ==
  LET p == k.poly[type + 1]
      lim == k.limit[type + 1]
      th == k.alpha \otimes dt
      px == PolyInv(p, lim)
      xs == (PolyInv(p, s) \otimes Percent) \oplus th IN
  [ p |-> p, th |-> th, s |-> s, xs |-> xs, xu |-> xs \ominus (s \oslash k.mt), xe |-> (px \otimes Percent) \oplus th,
    lim |-> lim, me |-> RMax(RI(100000), PolySlope(p, px) \oslash Percent), mc |-> k.mc, mt |-> k.mt, sy |-> k.sy ]
LoadAt(g, x) ==
  IF x \prec g.xu THEN g.mc \otimes (x \ominus g.xu)
  ELSE IF x \preceq g.xs THEN g.s \oplus (g.mt \otimes (x \ominus g.xs))
  ELSE IF x \prec g.xe THEN PolyAt(g.p, (x \ominus g.th) \oslash Percent)
  ELSE g.lim \oplus (g.me \otimes (x \ominus g.xe))
SlopeAt(g, x) ==
  IF x \prec g.xu THEN g.mc
  ELSE IF x \preceq g.xs THEN g.mt
  ELSE IF x \prec g.xe THEN PolySlope(g.p, (x \ominus g.th) \oslash Percent) \oslash Percent
  ELSE g.me
StrainAt(g, y) ==
  IF y \prec R0 THEN g.xu \oplus (y \oslash g.mc)
  ELSE IF y \preceq g.s THEN g.xs \oplus ((y \ominus g.s) \oslash g.mt)
  ELSE IF y \prec g.lim THEN (PolyInv(g.p, y) \otimes Percent) \oplus g.th
  ELSE g.xe \oplus ((y \ominus g.lim) \oslash g.me)
\* prior stretch the polynomials do not cover
Odd(g) == (g.s \prec R0) \/ (g.lim \prec g.s)

\* the stretch of another polynomial type: the unloading line through the
\* stretched point, followed to this type's curve (both at stretch temperature)
RECURSIVE CrossBis(_, _, _, _, _, _)
CrossBis(g, x0, y0, lo, hi, n) ==
  LET mid == (lo \oplus hi) \oslash R2 IN
  IF n = 0 THEN mid
  ELSE IF LoadAt(g, mid) \succ (y0 \oplus (g.mt \otimes (mid \ominus x0)))
       THEN CrossBis(g, x0, y0, mid, hi, n-1) ELSE CrossBis(g, x0, y0, lo, mid, n-1)
StretchLoad(k, type, stype, sdt, sload) ==
  IF REq(sload, R0) THEN R0
  ELSE IF type = stype THEN sload
  ELSE LET from == Region(k, stype, sdt, R0)
           to == Region(k, type, sdt, R0)
           x0 == StrainAt(from, sload)
           far == RS("0.02")
           x == IF LoadAt(to, x0) \succ sload THEN CrossBis(to, x0, sload, x0, x0 \oplus far, 60)
                ELSE CrossBis(to, x0, sload, x0 \ominus far, x0, 60) IN
       sload \oplus (to.mt \otimes (x \ominus x0))

\* verdicts on one component
CompOf(c) == Comp0(IVal(c,"component",1), Val(c,"component",2), Val(c,"component",3), Val(c,"component",4),
                   Val(c,"component",5), Val(c,"component",6), Val(c,"component",7))
CompRegion(c) ==
  LET k == CompOf(c)
      type == IVal(c,"state",2)
      sdt == Val(c,"stretch",1) \ominus Val(c,"tref",1)
      dt == Val(c,"state",1) \ominus Val(c,"tref",1) IN
  Region(k, type, dt, StretchLoad(k, type, IVal(c,"stretch",2), sdt, Val(c,"stretch",3)))
\* a load answers the question "which load at strain x" up to solver precision
LoadTol(g) == RS("0.05") \otimes RMax(R1, g.sy)
NearX == RS("2e-7")
LoadOk(g, x, y) == /\ (LoadAt(g, x \ominus NearX) \ominus LoadTol(g)) \preceq y
                   /\ y \preceq (LoadAt(g, x \oplus NearX) \oplus LoadTol(g))
\* where the unloading line and the curve it ends on are nearly parallel, the
\* end of the stretched region is ill conditioned
StartTol(g) ==
  LET bend == RAbs(g.mt \ominus (PolySlope(g.p, (g.xs \ominus g.th) \oslash Percent) \oslash Percent)) IN
  (R2 \otimes LoadTol(g)) \otimes (R1 \oplus (g.mt \oslash RMax(bend, R1)))
CompVerdict(c, e) ==
  IF e.q = "get" THEN Eq(e, <<Val(c,"state",1), Val(c,"stretch",3), Val(c,"tref",1)>>)
  ELSE IF e.q = "thermal" THEN Tol(e, <<CompOf(c).alpha \otimes (Val(c,"state",1) \ominus Val(c,"tref",1))>>, "1e-9", "1e-12")
  ELSE LET g == CompRegion(c) IN
  IF Odd(g) THEN Free ELSE
  CASE e.q = "load" -> [ok |-> LoadOk(g, Arg(e,1), Res(e,1)), exp |-> Shown(<<LoadAt(g, Arg(e,1))>>)]
    [] e.q = "slope" ->
         LET x == Arg(e,1)
             edge == \E b \in {g.xu, g.xs, g.xe} : RAbs(x \ominus b) \preceq RS("1e-5")
             want == SlopeAt(g, x) IN
         IF edge THEN Free ELSE Tol(e, <<want>>, "2e-3", "1000")
    [] e.q = "strain" ->
         LET y == Arg(e,1)  x == Res(e,1) IN
         IF (y \prec R0) /\ REq(g.mc, R0) THEN Free
         ELSE Holds(<< <<"the load at this strain is the load asked for", LoadOk(g, x, y)>>,
                       <<"strain of the unique loaded point", RAbs(x \ominus StrainAt(g, y)) \preceq
                          (RS("1e-6") \oplus (LoadTol(g) \oslash RMax(RI(20000), SlopeAt(g, x))))>> >>)
    [] e.q = "points" ->
         LET x(k) == e.r[2*k - 1]  y(k) == e.r[2*k] IN
         Holds(<< <<"unloaded point", /\ RAbs(x(1) \ominus g.xu) \preceq RS("1e-5") /\ REq(y(1), R0)>>,
                  <<"start of the polynomial", /\ LoadOk(g, x(2), y(2)) /\ RAbs(y(2) \ominus g.s) \preceq StartTol(g)>>,
                  <<"end of the polynomial", /\ LoadOk(g, x(3), y(3)) /\ Near(y(3), g.lim)>>,
                  <<"unloading follows the tension modulus", RAbs((x(2) \ominus x(1)) \ominus (y(2) \oslash g.mt)) \preceq RS("1e-8")>> >>)

Temp == RO(-20, 120, 1, <<21, 0, 15, 32, 70, 100>>)
PType == R(0, 1, 1)
Strain0 == RO(-2000, 12000, 1000000, <<0, 1000, 3000, 5000, 8000>>)
CompClass == Class(
  << Slot("component", <<R(0,1,1), RO(60,140,100,<<100>>), R(60,100,100), RO(0,15,10,<<0>>), R(110,130,100), R(80,120,100), RO(5,20,10,<<10>>), RO(2,8,4,<<4>>)>>),
     Slot("state", <<Temp, PType>>), Slot("stretch", <<Temp, PType, RO(0,4500,1,<<0,3000>>)>>), Slot("tref", <<RO(0,80,1,<<21>>)>>),
     Slot("state", <<Temp, PType>>), Slot("stretch", <<Temp, PType, RO(0,9000,1,<<0>>)>>) >>,
  << Q("load", <<Strain0>>), Q("strain", <<RO(-300,20000,1,<<0,3000>>)>>), Q("load", <<Strain0>>), Q("strain", <<RO(0,9000,1,<<0,3000>>)>>),
     Q("slope", <<Strain0>>), Q("thermal", <<>>), Q("points", <<>>), Q("points", <<>>), Q("get", <<>>) >>, TRUE, TRUE)

\* ------------------------------------------------------------- whole cable
\* parts: sequence of the enabled components' regions, <<core, shell>> with
\* an empty region for a disabled one
Off == [off |-> TRUE]
IsOff(g) == "off" \in DOMAIN g
CableComp(c, k) ==
  Comp0(k, Val(c,"cable",3 + k), Val(c,"cable",7), Val(c,"cable",5 + k), IF k = 0 THEN RS("1.1") ELSE R1, R1, Val(c,"cable",12))
Enabled(c, k) == IVal(c,"cable",1 + k) = 1
PartLoad(g, x) == IF IsOff(g) THEN R0 ELSE LoadAt(g, x)
PartSlope(g, x) == IF IsOff(g) THEN R0 ELSE SlopeAt(g, x)
CableLoad(gs, x) == PartLoad(gs[1], x) \oplus PartLoad(gs[2], x)
RECURSIVE StrainBis(_, _, _, _, _)
StrainBis(gs, y, lo, hi, n) ==
  LET mid == (lo \oplus hi) \oslash R2 IN
  IF n = 0 THEN mid
  ELSE IF CableLoad(gs, mid) \prec y THEN StrainBis(gs, y, mid, hi, n-1) ELSE StrainBis(gs, y, lo, mid, n-1)
CableStrain(gs, y) == StrainBis(gs, y, RS("-0.05"), RS("1"), 54)
\* state <<temperature, type>>, stretch <<temperature, type, load>>
CableRegions(c, state, stretch) ==
  LET tref == Val(c,"cable",8)
      kk == <<CableComp(c, 0), CableComp(c, 1)>>
      Zero(k) == IF Enabled(c, k-1) THEN Region(kk[k], stretch[2], stretch[1] \ominus tref, R0) ELSE Off
      zero == <<Zero(1), Zero(2)>>
      x0 == CableStrain(zero, stretch[3])
      \* what each part carries when the cable is stretched; nothing in compression
      Share(k) == IF REq(stretch[3], R0) \/ ~Enabled(c, k-1) THEN R0
                 ELSE StretchLoad(kk[k], state[2], stretch[2], stretch[1] \ominus tref,
                                  RMax(R0, LoadAt(zero[k], x0)))
      Part(k) == IF Enabled(c, k-1) THEN Region(kk[k], state[2], state[1] \ominus tref, Share(k)) ELSE Off IN
  <<Part(1), Part(2)>>
CableOdd(gs) == (IsOff(gs[1]) /\ IsOff(gs[2])) \/ \E k \in 1..2 : ~IsOff(gs[k]) /\ Odd(gs[k])
CableUnits(c) == RMax(R1, Val(c,"cable",12))
CableTol(c) == RS("0.3") \otimes CableUnits(c)
\* smallest strain at which the cable is not entirely slack
Slack(gs) == IF IsOff(gs[1]) THEN gs[2].xu ELSE IF IsOff(gs[2]) THEN gs[1].xu ELSE RMin(gs[1].xu, gs[2].xu)
Squeezed(gs) == \E k \in 1..2 : ~IsOff(gs[k]) /\ gs[k].mc \succ R0

ElongRegions(c) == CableRegions(c, <<Val(c,"state",1), IVal(c,"state",2)>>, <<Val(c,"stretch",1), IVal(c,"stretch",2), Val(c,"stretch",3)>>)
Between(lo, y, hi, tol) == ((lo \ominus tol) \preceq y) /\ (y \preceq (hi \oplus tol))
ElongVerdict(c, e) ==
  IF e.q = "get" THEN Eq(e, <<Val(c,"state",1), Val(c,"stretch",1), Val(c,"stretch",3), Val(c,"cable",11)>>)
  ELSE
  LET gs == ElongRegions(c)
      part == IArg(e,1)
      Load(x) == IF part = 0 THEN CableLoad(gs, x) ELSE PartLoad(gs[part], x)
      Slope(x) == IF part = 0 THEN PartSlope(gs[1], x) \oplus PartSlope(gs[2], x) ELSE PartSlope(gs[part], x)
      off == part > 0 /\ IsOff(gs[part])
      tol == CableTol(c)
      Ok(x, y) == Between(Load(x \ominus NearX), y, Load(x \oplus NearX), tol) IN
  IF CableOdd(gs) THEN Free ELSE
  CASE e.q = "load" -> [ok |-> Ok(Arg(e,2), Res(e,1)), exp |-> Shown(<<Load(Arg(e,2))>>)]
    [] e.q = "slope" ->
         LET x == Arg(e,2)
             edge == \E g \in {gs[1], gs[2]} : ~IsOff(g) /\ \E b \in {g.xu, g.xs, g.xe} : RAbs(x \ominus b) \preceq RS("1e-5") IN
         IF edge THEN Free ELSE Tol(e, <<Slope(x)>>, "3e-3", "2000")
    [] e.q = "strain" ->
         LET y == Arg(e,2)  x == Res(e,1)
             slackest == IF part = 0 THEN Slack(gs) ELSE gs[part].xu
             least == IF part = 0 THEN CableLoad(gs, Slack(gs)) ELSE R0
             squeezed == IF part = 0 THEN Squeezed(gs) ELSE gs[part].mc \succ R0 IN
         IF off THEN Eq(e, <<R0>>)
         ELSE IF (y \prec least) /\ ~squeezed THEN (IF part = 0 THEN Within(e, <<slackest>>, RS("1e-5")) ELSE Free)
         ELSE Holds(<< <<"the load at this strain is the load asked for", Ok(x, y)>>,
                       <<"not below the unloaded strain", (y \succ least) => (slackest \ominus RS("1e-5")) \preceq x>> >>)

CableSlot == Slot("cable", <<RO(0,1,1,<<1,1>>), RO(0,1,1,<<1,1>>), RO(70,130,100,<<100>>), RO(70,130,100,<<100>>), RO(0,15,10,<<0>>), RO(0,15,10,<<15>>),
                             RO(80,100,100,<<100>>), RO(0,80,1,<<21,70>>), RO(500,2000,1000,<<1094>>), RO(300,1500,10000,<<923>>), RO(20000,40000,1,<<31500>>),
                             K(1,1), K(1,1)>>)
CableSlotY == Slot("cable", [CableSlot.v EXCEPT ![1] = K(1,1), ![2] = K(1,1), ![12] = RO(5,20,10,<<10>>), ![13] = RO(2,8,4,<<4>>)])
SLoad == RO(0,12000,1,<<0,0,6000>>)
StateSlot == Slot("state", <<Temp, PType>>)
StretchSlot == Slot("stretch", <<Temp, PType, SLoad>>)
PartArg == R(0, 2, 1)
ElongClass == Class(
  << CableSlot, StateSlot, StretchSlot, StateSlot, StretchSlot, CableSlotY >>,
  << Q("load", <<PartArg, Strain0>>), Q("strain", <<PartArg, RO(-300,25000,1,<<0,3000>>)>>), Q("load", <<K(0,1), Strain0>>),
     Q("strain", <<K(0,1), RO(0,25000,1,<<0,3000>>)>>), Q("slope", <<PartArg, Strain0>>), Q("get", <<>>) >>, TRUE, TRUE)
ElongClasses == [Component |-> CompClass, Elongation |-> ElongClass]
=============================================================================
