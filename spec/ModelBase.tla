------------------------------ MODULE ModelBase ------------------------------
(* Polynomials, cylinders and unit cable loads.                              *)
EXTENDS ObjKit

BaseClasses ==
  [ Polynomial |-> Class(
      << SlotN("coef", <<RO(-50,50,4,<<0>>), RO(-50,50,4,<<0,1>>), RO(-50,50,8,<<0>>), RO(-20,20,8,<<0>>), R(-10,10,16), R(-10,10,32)>>, 1),
         SlotN("coef", <<R(-50,50,1), R(1,50,1), R(0,50,1), R(0,50,1), R(0,9,1)>>, 2) >>,
      << Q("y", <<RO(-400,400,100,<<0,100,-100>>)>>), Q("slope", <<RO(-400,400,100,<<0,100>>)>>), Q("order", <<>>),
         Q("deriv", <<>>), Q("deriv2", <<R(-300,300,100)>>), Q("deriv3", <<R(-300,300,100)>>), Q("deriv4", <<R(-300,300,100)>>), Q("coef", <<>>),
         Q("x", <<R(1,400,100), R(1,800,100), R(1,7,1)>>) >>, TRUE, TRUE),
    Cylinder |-> Class(
      << Slot("diameter", <<R(1,5000,1000)>>), Slot("length", <<R(1,5000,100)>>) >>,
      << Q("area", <<>>), Q("volume", <<>>), Q("get", <<>>) >>, TRUE, TRUE),
    UnitLoad |-> Class(
      << Slot("diameter", <<R(1,3000,12000)>>), Slot("weight", <<R(1,5000,1000)>>) >>,
      << Q("load", <<RO(0,400,1200,<<0>>), RO(0,920,16,<<0,917>>), RO(0,400,10,<<0>>), R(-60,300,1)>>),
         Q("load", <<R(1,400,1200), R(1,920,16), R(1,400,10), R(-60,300,1)>>), Q("get", <<>>) >>, TRUE, TRUE) ]

\* derivative of the coefficient list q
DerivCoef(q) == [k \in 1..(Len(q)-1) |-> RI(k) \otimes q[k+1]]
PolyY(q, x) == IF Len(q) = 0 THEN R0 ELSE RPoly(q, x)

PolyVerdict(c, e) == LET q == Vec(c, "coef") IN
  CASE e.q = "y" -> Eq(e, <<PolyY(q, Arg(e,1))>>)
    [] e.q = "slope" -> Eq(e, <<PolyY(DerivCoef(q), Arg(e,1))>>)
    [] e.q = "order" -> Eq(e, <<RI(Len(q) - 1)>>)
    [] e.q = "deriv" -> Eq(e, DerivCoef(q))
    \* a derivative answers for itself, whatever becomes of its polynomial
    [] e.q \in {"deriv3", "deriv4"} -> LET d == DerivCoef(q) IN
         Eq(e, <<PolyY(d, Arg(e,1)), PolyY(d, Arg(e,1)), PolyY(DerivCoef(d), Arg(e,1))>>)
    [] e.q = "deriv2" -> Eq(e, <<PolyY(DerivCoef(DerivCoef(q)), Arg(e,1)), PolyY(DerivCoef(q), Arg(e,1))>>)
    [] e.q = "coef" -> Eq(e, q)
    \* increasing and convex on the positive axis: Newton's method reaches the
    \* value; elsewhere nothing is promised
    [] e.q = "x" ->
         LET x == Res(e,1)  y == Res(e,2)  prec == R1 \oslash RPow(RI(10), Arg(e,3)) IN
         IF Len(q) >= 2 /\ c["coef"].v[2] > 0 /\ \A k \in 3..Len(q) : c["coef"].v[k] >= 0
         THEN Holds(<< <<"y is attained within the precision",
                        RAbs(PolyY(q, x) \ominus y) \preceq RMax(prec, RAbs(y) \otimes RS("1e-12"))>>,
                       <<"y is the value asked for", Near(y, PolyY(q, Arg(e,1)))>> >>)
         ELSE Free

CylVerdict(c, e) == LET d == Val(c,"diameter",1)  h == Val(c,"length",1)  a == RSq(d) \otimes (Pi \oslash RI(4)) IN
  CASE e.q = "area" -> Eq(e, <<a>>)
    [] e.q = "volume" -> Eq(e, <<a \otimes h>>)
    [] e.q = "get" -> Eq(e, <<d, h>>)

\* ice is a ring of uniform thickness around the cable; wind acts on the iced diameter
UnitLoadOf(d, w, thick, dens, wind) ==
  LET dice == d \oplus (R2 \otimes thick)
      ring == (Pi \oslash RI(4)) \otimes (RSq(dice) \ominus RSq(d)) IN
  <<R0, dice \otimes wind, w \oplus (ring \otimes dens)>>
UnitLoadVerdict(c, e) ==
  CASE e.q = "load" -> Eq(e, UnitLoadOf(Val(c,"diameter",1), Val(c,"weight",1), Arg(e,1), Arg(e,2), Arg(e,3)))
    [] e.q = "get" -> Eq(e, <<Val(c,"diameter",1), Val(c,"weight",1)>>)
=============================================================================
