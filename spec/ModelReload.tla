----------------------------- MODULE ModelReload -----------------------------
(***************************************************************************)
(* From one cable state to another: strained lengths, unloaded lengths,    *)
(* and catenaries that keep the cable between the same end points.         *)
(***************************************************************************)
EXTENDS ModelElongation

\* strain of the whole cable at load y (the least one when it hangs slack)
StrainOf(gs, y) ==
  IF ~Squeezed(gs) /\ y \preceq (CableLoad(gs, Slack(gs)) \oplus RS("1e-6")) THEN Slack(gs) ELSE CableStrain(gs, y)
\* the average tension cables are strained by: over 101 points evenly spaced
\* along the cable, ends included (the trapezoid rule plus half the ends;
\* the rule exceeds the integral by the first Euler-Maclaurin term)
TAvg(k) ==
  LET rule == CatTAvg(k) \oplus (((k.len \otimes k.w) \otimes (RTanh(k.xr \oslash k.c) \ominus RTanh(k.xl \oslash k.c))) \oslash RI(120000)) IN
  ((RI(100) \otimes rule) \oplus ((CatTensionX(k, k.xl) \oplus CatTensionX(k, k.xr)) \oslash R2)) \oslash RI(101)
\* a cable of length len at strain x0, when its strain becomes x1
Strained(len, x0, x1) ==
  LET d == x1 \ominus x0 IN
  IF d \prec R0 THEN len \oslash (R1 \oplus RAbs(d)) ELSE len \otimes (R1 \oplus d)

\* slot s holds temperature, type, stretch temperature, stretch type, stretch load
ModelIn(c, s) == CableRegions(c, <<Val(c,s,1), IVal(c,s,2)>>, <<Val(c,s,3), IVal(c,s,4), Val(c,s,5)>>)
\* strains are solved to about this precision
StrainTol == RS("1e-6")

StrainerVerdict(c, e) ==
  IF e.q = "get" THEN Eq(e, <<Val(c,"length",1), Val(c,"loads",1), Val(c,"loads",2), Val(c,"start",1), Val(c,"finish",1)>>)
  ELSE LET a == ModelIn(c, "start")
           b == ModelIn(c, "finish")
           l == Val(c,"length",1) IN
  IF CableOdd(a) \/ CableOdd(b) THEN Free
  ELSE Within(e, <<Strained(l, StrainOf(a, Val(c,"loads",1)), StrainOf(b, Val(c,"loads",2)))>>, l \otimes StrainTol)

\* catenary slot: spacing x, z, transverse and vertical load, horizontal tension
CatIn(c, wy, wz, h) == Cat3Of(Val(c,"catenary",1), Val(c,"catenary",2), wy, wz, h)
RefCat(c) == CatIn(c, Val(c,"catenary",3), Val(c,"catenary",4), Val(c,"catenary",5))
UnloaderVerdict(c, e) ==
  IF e.q = "get" THEN Eq(e, <<Val(c,"catenary",5), Val(c,"start",1), Val(c,"finish",1)>>)
  ELSE LET a == ModelIn(c, "start")
           b == ModelIn(c, "finish")
           k == RefCat(c) IN
  IF CableOdd(a) \/ CableOdd(b) \/ ~CatSane(k) THEN Free
  ELSE Within(e, <<Strained(k.len, StrainOf(a, TAvg(k)), StrainOf(b, R0))>>, k.len \otimes StrainTol)

\* catenary length less cable length, were the horizontal tension h:
\* decreases with h, zero for the one tension at which the cable hangs still
Excess(k, len, x0, gs) == k.len \ominus Strained(len, x0, StrainOf(gs, TAvg(k)))
\* h balances the cable: len is its length at reference strain x0, gs its
\* state afterwards, At(h) the catenary between the same end points
Balanced(At(_), len, x0, gs, h) ==
  LET step == RS("0.05")
      tol == len \otimes RS("4e-7") IN
  /\ Excess(At(h \ominus step), len, x0, gs) \succeq RNeg(tol)
  /\ Excess(At(h \oplus step), len, x0, gs) \preceq tol

ReloaderVerdict(c, e) ==
  IF e.q = "get" THEN Eq(e, <<Val(c,"catenary",5), Val(c,"start",1), Val(c,"finish",1), Val(c,"weight",2)>>)
  ELSE
  LET a == ModelIn(c, "start")
      b == ModelIn(c, "finish")
      k == RefCat(c)
      wy == Val(c,"weight",1)  wz == Val(c,"weight",2)
      At(h) == CatIn(c, wy, wz, h)
      hmin == (CatChordLen(k) \oslash R2) \otimes RHypot(wy, wz)
      x0 == StrainOf(a, TAvg(k))
      h == Res(e, 1)
      none == REq(h, NoVal)
      found == /\ ~none
               /\ ~CatSane(At(h)) \/ Balanced(At, k.len, x0, b, h)
      given == ~none \/ Excess(At(hmin), k.len, x0, b) \preceq R0
      Solved == <<"the cable fits the reloaded catenary", found \/ (none /\ given)>> IN
  IF CableOdd(a) \/ CableOdd(b) \/ ~CatSane(k) THEN Free ELSE
  CASE e.q = "tension" -> Holds(<<Solved>>)
    [] e.q = "catenary" ->
         IF none THEN Holds(<<Solved>>)
         ELSE Holds(<< Solved,
               <<"same end points", Near(Res(e,2), Val(c,"catenary",1)) /\ Near(Res(e,3), Val(c,"catenary",2))>>,
               <<"reloaded unit load", Near(Res(e,4), wy) /\ Near(Res(e,5), wz)>>,
               <<"length", ~CatSane(At(h)) \/ Near(Res(e,6), At(h).len)>> >>)
    [] e.q = "unloaded" ->
         IF none THEN Holds(<<Solved>>)
         ELSE Holds(<< Solved, <<"unloaded reference length",
                RAbs(Res(e,2) \ominus Strained(k.len, x0, StrainOf(a, R0))) \preceq (k.len \otimes StrainTol)>> >>)

ModelSlot(n) == Slot(n, <<Temp, PType, Temp, PType, RO(0,9000,1,<<0,0,3000>>)>>)
CatenarySlot == Slot("catenary", <<R(200,1500,1), RO(-150,150,1,<<0,0>>), RO(0,150,100,<<0>>), R(60,250,100), R(1500,12000,1)>>)
StrainerClass == Class(
  << CableSlot, ModelSlot("start"), ModelSlot("finish"), Slot("length", <<R(100,2000,1)>>), Slot("loads", <<RO(0,15000,1,<<0>>), RO(0,15000,1,<<0>>)>>) >>,
  << Q("length", <<>>), Q("length", <<>>), Q("get", <<>>) >>, TRUE, TRUE)
UnloaderClass == Class(
  << CableSlot, ModelSlot("start"), ModelSlot("finish"), CatenarySlot >>,
  << Q("length", <<>>), Q("length", <<>>), Q("get", <<>>) >>, TRUE, TRUE)
ReloaderClass == Class(
  << CableSlot, ModelSlot("start"), ModelSlot("finish"), CatenarySlot, Slot("weight", <<RO(0,250,100,<<0>>), R(60,400,100)>>) >>,
  << Q("tension", <<>>), Q("catenary", <<>>), Q("unloaded", <<>>), Q("get", <<>>) >>, TRUE, TRUE)
ReloadClasses == [Strainer |-> StrainerClass, Unloader |-> UnloaderClass, Reloader |-> ReloaderClass]
=============================================================================
