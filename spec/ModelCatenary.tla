---------------------------- MODULE ModelCatenary ----------------------------
(***************************************************************************)
(* The analytic catenary, its wind-swung 3D image, and the solver that     *)
(* picks a horizontal tension from a target.                               *)
(***************************************************************************)
EXTENDS ObjKit

\* ------------------------------------------------------------------- 2D
\* curve y = c (cosh(x/c) - 1) through end points (a,b) apart
Cat(a, b, h, w) ==
  LET c == h \oslash w
      z == a \oslash (R2 \otimes c)
      m == RAsinh(b \oslash (R2 \otimes (c \otimes RSinh(z))))   \* x of the middle / c
      xl == c \otimes (m \ominus z)
      xr == c \otimes (m \oplus z)
      ll == c \otimes RSinh(xl \oslash c)
      lr == c \otimes RSinh(xr \oslash c) IN
  [a |-> a, b |-> b, h |-> h, w |-> w, c |-> c, xl |-> xl, xr |-> xr, ll |-> ll, len |-> lr \ominus ll]
CatX(k, f) == k.c \otimes RAsinh(((f \otimes k.len) \oplus k.ll) \oslash k.c)
CatY(k, x) == k.c \otimes (RCosh(x \oslash k.c) \ominus R1)
CatChordY(k, x) == CatY(k, k.xl) \oplus ((x \ominus k.xl) \otimes (k.b \oslash k.a))
CatSagAt(k, f) == LET x == CatX(k, f) IN CatChordY(k, x) \ominus CatY(k, x)
CatFracOfX(k, x) == ((k.c \otimes RSinh(x \oslash k.c)) \ominus k.ll) \oslash k.len
\* the sag is largest where the curve is parallel to the chord
CatSagX(k) == k.c \otimes RAsinh(k.b \oslash k.a)
CatSag(k) == LET x == CatSagX(k) IN CatChordY(k, x) \ominus CatY(k, x)
CatTensionX(k, x) == k.h \otimes RCosh(x \oslash k.c)
CatTension(k, f) == CatTensionX(k, CatX(k, f))
CatSlope(k, f) == RSinh(CatX(k, f) \oslash k.c)
CatTMax(k) == RMax(CatTensionX(k, k.xl), CatTensionX(k, k.xr))
CatChordLen(k) == RHypot(k.a, k.b)
\* average tension along the arc length, exactly
CatTAvg(k) == LET S(x) == RSinh(x \oslash k.c) \otimes RCosh(x \oslash k.c)
                  num == (S(k.xr) \ominus S(k.xl)) \oplus ((k.xr \ominus k.xl) \oslash k.c) IN
              (RSq(k.h) \oslash (R2 \otimes (k.w \otimes k.len))) \otimes num
CatTAvgN(k, n) == RSum([j \in 1..(n+1) |-> CatTension(k, RQ(j-1, n))]) \oslash RI(n+1)
CatValid(k) == k.c \succeq (CatChordLen(k) \oslash R2)
\* numerically meaningful (not absurdly slack)
CatSane(k) == (k.a \oslash (R2 \otimes k.c)) \prec RI(15)

Sign(e, k) == IF IArg(e, k) > 0 THEN R1 ELSE RNeg(R1)
\* unit vector along the curve, looking toward +x or -x
CatTVec(k, f, s) == LET m == CatSlope(k, f)  n == RHypot(R1, m) IN
  <<s \oslash n, (s \otimes m) \oslash n>>

Cat2Of(c) == Cat(Val(c,"spacing",1), Val(c,"spacing",2), Val(c,"tension",1), Val(c,"weight",1))
Cat2Verdict(c, e) == LET k == Cat2Of(c) IN
  IF ~CatSane(k) THEN Free ELSE
  CASE e.q = "constant" -> Eq(e, <<k.c>>)
    [] e.q = "coord" -> LET x == CatX(k, Arg(e,1)) IN
         IF IArg(e,2) > 0 THEN Tol(e, <<x \ominus k.xl, CatY(k, x) \ominus CatY(k, k.xl)>>, "1e-9", "1e-6")
                          ELSE Tol(e, <<x, CatY(k, x)>>, "1e-9", "1e-6")
    [] e.q = "chord" -> LET x == CatX(k, Arg(e,1)) IN
         IF IArg(e,2) > 0 THEN Tol(e, <<x \ominus k.xl, (x \ominus k.xl) \otimes (k.b \oslash k.a)>>, "1e-9", "1e-6")
                          ELSE Tol(e, <<x, CatChordY(k, x)>>, "1e-9", "1e-6")
    [] e.q = "length" -> Eq(e, <<k.len>>)
    [] e.q = "slack" -> Tol(e, <<k.len \ominus CatChordLen(k)>>, "1e-9", "1e-6")
    [] e.q = "posfrac" -> Tol(e, <<CatFracOfX(k, k.c \otimes RAsinh(RTan(Rad(Arg(e,1)))))>>, "1e-9", "1e-8")
    [] e.q = "origin" -> Tol(e, <<CatFracOfX(k, R0)>>, "1e-9", "1e-8")
    [] e.q = "sagpoint" -> Tol(e, <<CatFracOfX(k, CatSagX(k))>>, "1e-9", "1e-8")
    [] e.q = "sag" -> Tol(e, <<CatSag(k)>>, "1e-9", "1e-6")
    [] e.q = "sagat" -> Tol(e, <<CatSagAt(k, Arg(e,1))>>, "1e-9", "1e-6")
    [] e.q = "tangle" -> Tol(e, <<Sign(e,2) \otimes Deg(RAtan(CatSlope(k, Arg(e,1))))>>, "1e-9", "1e-8")
    [] e.q = "tvec" -> Tol(e, CatTVec(k, Arg(e,1), Sign(e,2)), "1e-9", "1e-8")
    [] e.q = "tension" -> Eq(e, <<CatTension(k, Arg(e,1))>>)
    [] e.q = "tensvec" -> LET t == CatTVec(k, Arg(e,1), Sign(e,2))  m == CatTension(k, Arg(e,1)) IN
         Tol(e, <<t[1] \otimes m, t[2] \otimes m>>, "1e-9", "1e-5")
    [] e.q = "tavg" -> IF IArg(e,1) = 0 THEN Eq(e, <<CatTAvg(k)>>)
                       ELSE IF IArg(e,1) > 0 THEN Eq(e, <<CatTAvgN(k, IArg(e,1))>>) ELSE Eq(e, <<NoVal>>)
    [] e.q = "tmax" -> Eq(e, <<CatTMax(k)>>)
    [] e.q = "get" -> Eq(e, <<k.a, k.b, k.h, k.w>>)

Frac == RO(-200, 1200, 1000, <<0, 500, 1000>>)
Dirn == R(0, 1, 1)
Cat2Class == Class(
  << Slot("spacing", <<R(100,2000,1), RO(-500,500,1,<<0>>)>>), Slot("tension", <<R(500,30000,1)>>), Slot("weight", <<R(1,400,100)>>),
     Slot("spacing", <<R(100,1500,1), RO(-500,500,1,<<0>>)>>) >>,
  << Q("constant", <<>>), Q("coord", <<Frac, Dirn>>), Q("coord", <<Frac, Dirn>>), Q("chord", <<Frac, Dirn>>), Q("length", <<>>),
     Q("slack", <<>>), Q("posfrac", <<RO(-700,700,10,<<0>>)>>), Q("origin", <<>>), Q("sagpoint", <<>>), Q("sag", <<>>),
     Q("sagat", <<Frac>>), Q("tangle", <<Frac, Dirn>>), Q("tvec", <<Frac, Dirn>>), Q("tension", <<Frac>>),
     Q("tensvec", <<Frac, Dirn>>), Q("tavg", <<RO(1,12,1,<<0,100,-1>>)>>), Q("tmax", <<>>), Q("get", <<>>) >>, TRUE, TRUE)

\* ------------------------------------------------------------------- 3D
\* the 2D catenary in the plane of the resultant load
Cat3Of(sx, sz, wy, wz, h) ==
  LET w == RHypot(wy, wz)
      b == sz \otimes (RAbs(wz) \oslash w)
      a == RSqrt((RSq(sx) \oplus RSq(sz)) \ominus RSq(b)) IN
  Cat(a, b, h, w)
Turn(x, y, angle) == <<(x \otimes RCos(angle)) \ominus (y \otimes RSin(angle)), (x \otimes RSin(angle)) \oplus (y \otimes RCos(angle))>>
\* turns a vector of the 2D curve's vertical plane to the 3D curve: first by
\* the difference of chord inclinations, then about the x axis by the swing
Swing(vx, vz, delta, swing) ==
  LET p == Turn(vx, vz, delta)
      q == Turn(R0, p[2], swing) IN
  <<p[1], q[1], q[2]>>

Cat3Verdict(c, e) ==
  LET sx == Val(c,"spacing",1)  sz == Val(c,"spacing",3)
      wy == Val(c,"weight",2)  wz == Val(c,"weight",3)
      k == Cat3Of(sx, sz, wy, wz, Val(c,"tension",1))
      side == IF IVal(c,"dir",1) > 0 THEN R1 ELSE RNeg(R1)
      swing == side \otimes RAtan2(wy, wz)
      delta == RAtan2(sz, sx) \ominus RAtan2(k.b, k.a)
      \* along the straight chord, in proportion to the 2D chord
      Chord(f) == LET t == (CatX(k, f) \ominus k.xl) \oslash k.a IN <<t \otimes sx, R0, t \otimes sz>>
      Coord(f) == LET ch == Chord(f)  o == Swing(R0, RNeg(CatSagAt(k, f)), delta, swing) IN
                  <<ch[1] \oplus o[1], o[2], ch[3] \oplus o[3]>>
      TVec(f, s) == LET t == CatTVec(k, f, s) IN Swing(t[1], t[2], delta, swing)
      \* rotations of less than 5e-5 degrees are dropped
      reach == RMax(RS("1e-4"), (RHypot(sx, sz) \otimes RMax(R1, RAbs(Arg(e,1)))) \otimes RS("2e-6")) IN
  IF ~CatSane(k) THEN Free ELSE
  CASE e.q = "constant" -> Eq(e, <<k.c>>)
    [] e.q = "coord" -> Within(e, Coord(Arg(e,1)), reach)
    [] e.q = "chord" -> Within(e, Chord(Arg(e,1)), reach)
    [] e.q = "length" -> Eq(e, <<k.len>>)
    [] e.q = "slack" -> Tol(e, <<k.len \ominus CatChordLen(k)>>, "1e-9", "1e-6")
    [] e.q = "origin" -> Tol(e, <<CatFracOfX(k, R0)>>, "1e-9", "1e-8")
    [] e.q = "sagpoint" -> Tol(e, <<CatFracOfX(k, CatSagX(k))>>, "1e-9", "1e-8")
    [] e.q = "sag" -> Tol(e, <<CatSag(k)>>, "1e-9", "1e-6")
    [] e.q = "sagat" -> Tol(e, <<CatSagAt(k, Arg(e,1))>>, "1e-9", "1e-6")
    [] e.q = "swing" -> Eq(e, <<Deg(RAtan2(wy, wz))>>)
    [] e.q = "tanglet" -> LET t == TVec(Arg(e,1), Sign(e,2)) IN
         IF (RAbs(t[3]) \prec RS("1e-3")) THEN Free
         ELSE Tol(e, <<Deg(RAtan2(RAbs(t[2]), RAbs(t[3])))>>, "1e-6", "1e-2")
    [] e.q = "tanglev" -> LET t == TVec(Arg(e,1), Sign(e,2)) IN
         Tol(e, <<Deg(RAtan2(t[3], RAbs(t[1])))>>, "1e-6", "2e-4")
    [] e.q = "tvec" -> Tol(e, TVec(Arg(e,1), Sign(e,2)), "2e-6", "2e-6")
    [] e.q = "tension" -> Eq(e, <<CatTension(k, Arg(e,1))>>)
    [] e.q = "tensvec" -> LET t == TVec(Arg(e,1), Sign(e,2))  m == CatTension(k, Arg(e,1)) IN
         Holds(<< <<"tension times tangent", \A j \in 1..3 : RAbs(e.r[j] \ominus (t[j] \otimes m)) \preceq (RS("2e-6") \otimes m)>> >>)
    [] e.q = "tavg" -> IF IArg(e,1) = 0 THEN Eq(e, <<CatTAvg(k)>>)
                       ELSE IF IArg(e,1) > 0 THEN Eq(e, <<CatTAvgN(k, IArg(e,1))>>) ELSE Eq(e, <<NoVal>>)
    [] e.q = "tmax" -> Eq(e, <<CatTMax(k)>>)
    [] e.q = "get" -> Eq(e, <<sx, Val(c,"spacing",2), sz, k.h, Val(c,"weight",1), wy, wz, IF IVal(c,"dir",1) > 0 THEN R2 ELSE R1>>)

Cat3Class == Class(
  << Slot("spacing", <<R(100,2000,1), K(0,1), RO(-500,500,1,<<0>>)>>), Slot("tension", <<R(500,30000,1)>>),
     Slot("weight", <<K(0,1), RO(0,300,100,<<0>>), R(1,400,100)>>), Slot("dir", <<R(0,1,1)>>) >>,
  << Q("constant", <<>>), Q("coord", <<Frac>>), Q("coord", <<Frac>>), Q("chord", <<Frac>>), Q("length", <<>>),
     Q("slack", <<>>), Q("origin", <<>>), Q("sagpoint", <<>>), Q("sag", <<>>),
     Q("sagat", <<Frac>>), Q("swing", <<>>), Q("tanglet", <<Frac, Dirn>>), Q("tanglev", <<Frac, Dirn>>), Q("tvec", <<Frac, Dirn>>),
     Q("tvec", <<Frac, Dirn>>), Q("tension", <<Frac>>),
     Q("tensvec", <<Frac, Dirn>>), Q("tavg", <<RO(1,12,1,<<0,100,-1>>)>>), Q("tmax", <<>>), Q("get", <<>>) >>, TRUE, TRUE)

\* --------------------------------------------------------------- solver
\* value of the target quantity for horizontal tension h
TargetOf(type, pos, sx, sz, wy, wz, h) ==
  LET k == Cat3Of(sx, sz, wy, wz, h) IN
  CASE type = 1 -> k.c
    [] type = 2 -> k.len
    [] type = 3 -> IF pos \prec R0 THEN CatSag(k) ELSE CatSagAt(k, pos)
    [] type = 4 -> IF pos \prec R0 THEN CatTMax(k) ELSE CatTension(k, pos)

SolverVerdict(c, e) ==
  LET sx == Val(c,"spacing",1)  sz == Val(c,"spacing",3)
      wy == Val(c,"weight",2)  wz == Val(c,"weight",3)
      type == IVal(c,"target",1)  goal == Val(c,"target",2)
      pos == Val(c,"position",1)
      At(h) == TargetOf(type, pos, sx, sz, wy, wz, h)
      \* smallest tension of a valid catenary
      hmin == (RHypot(sx, sz) \oslash R2) \otimes RHypot(wy, wz)
      step == RMax(RS("0.02"), Res(e,1) \otimes RS("1e-7"))
      f1 == At(Res(e,1) \ominus step)  f2 == At(Res(e,1) \oplus step)
      \* the target quantity at the two ends of the valid range
      top == hmin \otimes RS("1e4")
      fmin == At(hmin)  fmax == At(top)
      \* clearly attainable, clearly not attainable
      inside == IF type \in {1, 4} THEN (goal \succ (fmin \otimes RS("1.001"))) /\ (goal \prec fmax)
                ELSE IF type = 2 THEN (goal \prec (fmin \otimes RS("0.9999"))) /\ (goal \succ (RHypot(sx, sz) \otimes RS("1.0001")))
                ELSE (goal \prec (fmin \otimes RS("0.999"))) /\ (goal \succ RS("0.05"))
      outside == IF type \in {1, 4} THEN goal \prec (fmin \otimes RS("0.999"))
                 ELSE IF type = 2 THEN (goal \succ (fmin \otimes RS("1.0001"))) \/ (goal \prec RHypot(sx, sz))
                 ELSE goal \succ (fmin \otimes RS("1.001"))
      attained == /\ (RMin(f1, f2) \ominus RS("1e-6")) \preceq goal
                  /\ goal \preceq (RMax(f1, f2) \oplus RS("1e-6"))
      found == ~REq(Res(e,1), NoVal) IN
  CASE e.q \in {"tension", "catenary"} ->
         Holds(<< <<"the target is attained", found => attained>>,
                  <<"a solution exists, so it is found", inside => found>>,
                  <<"no solution exists, so the failure value is returned", outside => ~found>>,
                  <<"the catenary is the one asked for", (e.q = "catenary" /\ found) =>
                     /\ Near(Res(e,2), sx) /\ Near(Res(e,3), sz) /\ Near(Res(e,4), wy) /\ Near(Res(e,5), wz)
                     /\ Near(Res(e,6), Cat3Of(sx, sz, wy, wz, Res(e,1)).len)>> >>)
    [] e.q = "get" -> Eq(e, <<pos, RI(type), goal, sx, wz>>)

SolverClass == Class(
  << Slot("spacing", <<R(100,2000,1), K(0,1), RO(-400,400,1,<<0>>)>>), Slot("spacing", <<R(900,1300,1), K(0,1), RO(-100,100,1,<<0>>)>>),
     Slot("weight", <<K(0,1), RO(0,300,100,<<0>>), R(50,400,100)>>), Slot("weight", <<K(0,1), RO(0,300,100,<<0>>), R(50,400,100)>>),
     Slot("position", <<RO(0,1000,1000,<<-1000,-1000,500,0,1000>>)>>),
     Slot("target", <<K(1,1), R(100,9000,1)>>), Slot("target", <<K(2,1), RO(8800,15000,10,<<0,10000>>)>>),
     Slot("target", <<K(3,1), R(1,3000,10)>>), Slot("target", <<K(4,1), R(100,12000,1)>>) >>,
  << Q("tension", <<>>), Q("tension", <<>>), Q("catenary", <<>>), Q("get", <<>>) >>, TRUE, TRUE)
CatClasses == [Catenary2d |-> Cat2Class, Catenary3d |-> Cat3Class, CatenarySolver |-> SolverClass]
=============================================================================
