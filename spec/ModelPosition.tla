---------------------------- MODULE ModelPosition ----------------------------
(***************************************************************************)
(* Hardware equilibrium at an attachment, and the position of a cable on   *)
(* a line.                                                                 *)
(***************************************************************************)
EXTENDS ModelCatenary

Add3(a, b) == <<a[1] \oplus b[1], a[2] \oplus b[2], a[3] \oplus b[3]>>
Sub3(a, b) == <<a[1] \ominus b[1], a[2] \ominus b[2], a[3] \ominus b[3]>>
Scale3(a, s) == <<a[1] \otimes s, a[2] \otimes s, a[3] \otimes s>>
Norm3(a) == RHypot(RHypot(a[1], a[2]), a[3])
TurnXy(a, angle) == LET t == Turn(a[1], a[2], angle) IN <<t[1], t[2], a[3]>>
\* difference of two angles in degrees, whole turns aside
TurnsApart(p, q) == LET d == p \ominus q IN RAbs(d \ominus (RI(360) \otimes RRound(d \oslash RI(360))))

\* tension vector of a 3D catenary in its own coordinates, looking to +x (s = 1) or -x
Tension3(sx, sz, wy, wz, h, dir, f, s) ==
  LET k == Cat3Of(sx, sz, wy, wz, h)
      swing == (IF dir > 0 THEN R1 ELSE RNeg(R1)) \otimes RAtan2(wy, wz)
      delta == RAtan2(sz, sx) \ominus RAtan2(k.b, k.a)
      t == CatTVec(k, f, s) IN
  Scale3(Swing(t[1], t[2], delta, swing), CatTension(k, f))
Coord3(sx, sz, wy, wz, h, dir, f) ==
  LET k == Cat3Of(sx, sz, wy, wz, h)
      swing == (IF dir > 0 THEN R1 ELSE RNeg(R1)) \otimes RAtan2(wy, wz)
      delta == RAtan2(sz, sx) \ominus RAtan2(k.b, k.a)
      t == (CatX(k, f) \ominus k.xl) \oslash k.a IN
  Add3(<<t \otimes sx, R0, t \otimes sz>>, Swing(R0, RNeg(CatSagAt(k, f)), delta, swing))

\* ------------------------------------------------- attachment equilibrium
\* x along the line, y toward the inside of the line angle when the direction
\* is positive (away from it when negative), z up
EqForce(c) ==
  LET v(s, k) == Val(c, s, k)
      half == Rad((RI(180) \ominus v("angle", 1)) \oslash R2)
      turn == IF IVal(c,"dir",1) > 0 THEN half ELSE RNeg(half)
      back == Tension3(v("back",1), v("back",2), v("back",3), v("back",4), v("back",5), IVal(c,"back",6), R1, RNeg(R1))
      ahead == Tension3(v("ahead",1), v("ahead",2), v("ahead",3), v("ahead",4), v("ahead",5), IVal(c,"ahead",6), R0, R1) IN
  Add3(TurnXy(back, RNeg(turn)), TurnXy(ahead, turn))
EqSide(c) == IF IVal(c,"dir",1) > 0 THEN R1 ELSE RNeg(R1)
\* angle of the force from straight up toward the inside
EqAngle(c) == LET f == EqForce(c) IN Deg(RAtan2(EqSide(c) \otimes f[2], f[3]))
EqImbalance(c) ==
  LET f == EqForce(c)  m == Norm3(f)  a == Rad(Val(c,"hardware",1)) IN
  Norm3(Sub3(f, Scale3(<<R0, EqSide(c) \otimes RSin(a), RCos(a)>>, m)))
EqVerdict(c, e) ==
  LET f == EqForce(c)
      fyz == RHypot(f[2], f[3])
      AngleOk(x) == Holds(<< <<"hardware lines up with the force", TurnsApart(x, EqAngle(c)) \preceq RMax(RS("2e-4"), RS("1e-1") \oslash fyz)>>,
                             <<"angle within a turn", x \succeq R0 /\ x \preceq RI(360)>> >>)
      ImbOk(x) == Holds(<< <<"imbalance", RAbs(x \ominus EqImbalance(c)) \preceq RMax(RS("1e-1"), Norm3(f) \otimes RS("4e-6"))>> >>) IN
  CASE e.q = "angle" -> AngleOk(Res(e,1))
    [] e.q = "imbalance" -> ImbOk(Res(e,1))
    [] e.q = "both" -> Both(AngleOk(Res(e,1)), ImbOk(Res(e,2)))
    [] e.q = "get" -> Eq(e, <<Val(c,"angle",1), Val(c,"hardware",1), IF IVal(c,"dir",1) > 0 THEN R1 ELSE R0, Val(c,"back",5), Val(c,"ahead",5)>>)
CatSlot(n) == Slot(n, <<R(100,1500,1), RO(-200,200,1,<<0>>), RO(0,200,100,<<0>>), R(30,300,100), R(2000,12000,1), R(0,1,1)>>)
EqClass == Class(
  << Slot("angle", <<RO(600,1800,10,<<1800,1800,900>>)>>), Slot("hardware", <<RO(0,1800,10,<<1800,900,0>>)>>),
     CatSlot("back"), CatSlot("ahead"), Slot("dir", <<R(0,1,1)>>) >>,
  << Q("angle", <<>>), Q("imbalance", <<>>), Q("both", <<>>), Q("get", <<>>) >>, TRUE, TRUE)

\* ----------------------------------------------------------- whole cables
Unit2(a, b) == LET x == b[1] \ominus a[1]  y == b[2] \ominus a[2]  n == RHypot(x, y) IN <<x \oslash n, y \oslash n>>
Dot2(a, b) == (a[1] \otimes b[1]) \oplus (a[2] \otimes b[2])
\* left normal of the line's bisecting direction at cur
LeftNormal(back, cur, ahead) ==
  LET u == Unit2(back, cur)  w == Unit2(cur, ahead)
      x == u[1] \oplus w[1]  y == u[2] \oplus w[2]  n == RHypot(x, y) IN
  <<RNeg(y) \oslash n, x \oslash n>>
Heading2(a, b) == RAtan2(b[2] \ominus a[2], b[1] \ominus a[1])
\* tension in global coordinates of the span from a to b at its start (s=1) or end
SpanTension(c, a, b, f, s) ==
  LET sx == RHypot(b[1] \ominus a[1], b[2] \ominus a[2])
      t == Tension3(sx, b[3] \ominus a[3], Val(c,"weight",1), Val(c,"weight",2), Val(c,"tension",1), IVal(c,"dir",1), f, s) IN
  TurnXy(t, Heading2(a, b))

LocConnections(c) == LET n == IVal(c,"line",1) IN
  CASE IVal(c,"index",1) = 0 -> n
    [] IVal(c,"index",1) = 1 -> IF n < 3 THEN n ELSE 3
    [] OTHER -> 0
StructPt(e, k) == <<e.r[6*k-5], e.r[6*k-4], e.r[6*k-3]>>
CablePt(e, k) == <<e.r[6*k-2], e.r[6*k-1], e.r[6*k]>>
Dist3(a, b) == Norm3(Sub3(a, b))
\* at a suspension point the hardware hangs, at its length, in the vertical
\* plane bisecting the structure attachments, along the sum of the two cable
\* tensions seen in the plane bisecting the cable
Hangs(c, e, k) ==
  LET s == StructPt(e, k)  p == CablePt(e, k)
      hw == Val(c, "line", 1 + 5*(k-1) + 4)
      ns == LeftNormal(StructPt(e, k-1), s, StructPt(e, k+1))
      nc == LeftNormal(CablePt(e, k-1), p, CablePt(e, k+1))
      f == Add3(SpanTension(c, CablePt(e, k-1), p, R1, RNeg(R1)), SpanTension(c, p, CablePt(e, k+1), R0, R1))
      off == Sub3(p, s)
      lat == Dot2(off, ns)      \* of the hardware, to the left
      flat == Dot2(f, nc)       \* of the force, to the left
      along == (off[1] \otimes ns[2]) \ominus (off[2] \otimes ns[1])
      m == Norm3(f) IN
  << <<"hardware length", Near(Norm3(off), hw) \/ (Norm3(off) \ominus hw) \preceq RS("1e-5")>>,
     <<"hardware swings in the bisecting plane", RAbs(along) \preceq RS("1e-5")>>,
     <<"hardware in line with the cable force",
       (hw \succ RS("1e-6")) =>
         RHypot(((lat \oslash hw) \otimes m) \ominus flat, ((off[3] \oslash hw) \otimes m) \ominus f[3]) \preceq RS("10")>> >>
AllHang(c, e, n) == LET Bad == {k \in 2..(n-1) : \E j \in 1..3 : ~Hangs(c, e, k)[j][2]} IN
  [ok |-> Bad = {}, exp |-> {<<k, Hangs(c, e, k)>> : k \in Bad}]

\* gentle lines: the hardware loads pull mainly down and outweigh what a swing
\* adds through the cable tensions, so that a position must be found; wind is
\* left out: with unequal spans it leaves a pull along the line that hardware
\* confined to the bisecting plane cannot balance
LocSpan(c, k) == Val(c, "line", 1 + 5*k + 1)      \* between connections k and k+1 (1-based)
LocElev(c, k) == Val(c, "line", 1 + 5*(k-1) + 2)
Gentle(c, n) == IVal(c,"weight",1) = 0 /\ \A k \in 2..(n-1) :
  LET H == Val(c,"tension",1)  w == Val(c,"weight",2)
      s1 == LocSpan(c, k-1)  s2 == LocSpan(c, k)
      down == ((w \otimes (s1 \oplus s2)) \oslash R2)
              \oplus (H \otimes (((LocElev(c,k) \ominus LocElev(c,k-1)) \oslash s1) \oplus ((LocElev(c,k) \ominus LocElev(c,k+1)) \oslash s2)))
      grow == (H \otimes ((R1 \oslash s1) \oplus (R1 \oslash s2))) \otimes Val(c, "line", 1 + 5*(k-1) + 4) IN
  grow \otimes RI(4) \preceq down

LocVerdict(c, e) ==
  LET n == LocConnections(c) IN
  CASE e.q = "get" -> Eq(e, <<RI(IVal(c,"index",1)), Val(c,"tension",1), Val(c,"weight",1), Val(c,"weight",2), IF IVal(c,"dir",1) > 0 THEN R1 ELSE R0>>)
    [] e.q = "attach" ->
         IF n = 0 THEN [ok |-> Len(e.r) = 0, exp |-> "no positions: no such cable"]
         ELSE IF Len(e.r) = 0 THEN Holds(<< <<"a position is found on a gentle line", ~Gentle(c, n)>> >>)
         ELSE IF Len(e.r) # 6*n THEN [ok |-> FALSE, exp |-> <<"connections", n>>]
         ELSE Both(AllHang(c, e, n),
              Holds(<< <<"dead ends fixed", Dist3(StructPt(e,1), CablePt(e,1)) \preceq RS("1e-6")
                                        /\ Dist3(StructPt(e,n), CablePt(e,n)) \preceq RS("1e-6")>> >>))
    [] e.q = "points" ->
         LET span == IArg(e,1)  num == IArg(e,2) IN
         IF n = 0 \/ REq(e.r[1], R0) THEN [ok |-> Len(e.r) = 2 /\ REq(e.r[2], R0) /\ REq(e.r[1], R0), exp |-> "no points"]
         ELSE IF span < 0 \/ span > n - 2 THEN [ok |-> Len(e.r) = 2 /\ REq(e.r[2], R0), exp |-> "no points: no such span"]
         ELSE IF Len(e.r) # 8 + 3*num \/ ~REq(e.r[2], RI(num)) THEN [ok |-> FALSE, exp |-> <<"points", num>>]
         ELSE
         LET a == <<e.r[3], e.r[4], e.r[5]>>  b == <<e.r[6], e.r[7], e.r[8]>>
             sx == RHypot(b[1] \ominus a[1], b[2] \ominus a[2])
             hd == Heading2(a, b)
             At(j) == Add3(a, TurnXy(Coord3(sx, b[3] \ominus a[3], Val(c,"weight",1), Val(c,"weight",2), Val(c,"tension",1),
                                            IVal(c,"dir",1), IF num = 1 THEN R0 ELSE RQ(j-1, num-1)), hd))
             Got(j) == <<e.r[6+3*j], e.r[7+3*j], e.r[8+3*j]>>
             Bad == {j \in 1..num : ~(Dist3(Got(j), At(j)) \preceq RMax(RS("1e-3"), sx \otimes RS("3e-6")))} IN
         [ok |-> Bad = {}, exp |-> {<<j, Shown(Got(j)), Shown(At(j))>> : j \in Bad}]
LineComps == <<R(2,6,1)>> \o [k \in 1..30 |->
  CASE k % 5 = 1 -> RO(200,1500,1,<<1000,1200>>) [] k % 5 = 2 -> RO(0,60,1,<<50,50,50>>) [] k % 5 = 3 -> RO(-30,30,1,<<0,0,-60,75,45>>)
    [] k % 5 = 4 -> RO(0,12,1,<<0>>) [] OTHER -> RO(-20,20,1,<<0,15>>)]
LocClass == Class(
  << Slot("line", LineComps), Slot("index", <<RO(0,1,1,<<0,0,0,0,1,2,-1,5>>)>>), Slot("tension", <<R(3000,9000,1)>>),
     Slot("weight", <<RO(0,100,100,<<0,0,0,5,10>>), R(80,250,100)>>), Slot("dir", <<R(0,1,1)>>) >>,
  << Q("attach", <<>>), Q("attach", <<>>), Q("points", <<RO(0,4,1,<<0,0,1,-1,5>>), R(2,6,1)>>), Q("points", <<R(0,2,1), R(2,6,1)>>), Q("get", <<>>) >>, TRUE, TRUE)
PositionClasses == [Equilibrium |-> EqClass, Locator |-> LocClass]
=============================================================================
