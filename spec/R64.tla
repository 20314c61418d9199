-------------------------------- MODULE R64 --------------------------------
(* Reals for TLC: a real is <<hi, lo>>, the halves of an IEEE-754 double.     *)
(* The right-hand sides below are never evaluated: java/tlc2/module/R64.java  *)
(* overrides every prefix operator (TLC loads it by module name).             *)
EXTENDS Integers, Sequences, TLC

NotLoaded == Assert(FALSE, "R64 Java overrides not on the classpath")

RS(s) == NotLoaded        \* decimal literal:  RS("0.3048")
RI(n) == NotLoaded        \* integer to real
RQ(n, m) == NotLoaded     \* the double n / m
RAdd(x, y) == NotLoaded
RSub(x, y) == NotLoaded
RMul(x, y) == NotLoaded
RDiv(x, y) == NotLoaded
RPow(x, y) == NotLoaded
RMax(x, y) == NotLoaded
RMin(x, y) == NotLoaded
RAtan2(y, x) == NotLoaded
RHypot(x, y) == NotLoaded
RNeg(x) == NotLoaded
RAbs(x) == NotLoaded
RSqrt(x) == NotLoaded
RSin(x) == NotLoaded
RCos(x) == NotLoaded
RTan(x) == NotLoaded
RAsin(x) == NotLoaded
RAcos(x) == NotLoaded
RAtan(x) == NotLoaded
RSinh(x) == NotLoaded
RCosh(x) == NotLoaded
RTanh(x) == NotLoaded
RAsinh(x) == NotLoaded
RExp(x) == NotLoaded
RLog(x) == NotLoaded
RFloor(x) == NotLoaded
RRound(x) == NotLoaded    \* half away from zero
RToInt(x) == NotLoaded    \* floor, as a TLA+ integer
RLt(x, y) == NotLoaded
RLe(x, y) == NotLoaded
REq(x, y) == NotLoaded
RIsNaN(x) == NotLoaded
RIsFin(x) == NotLoaded
RClose(x, y, rel, abs) == NotLoaded
RSum(s) == NotLoaded
RPoly(coef, x) == NotLoaded
RShow(x) == NotLoaded     \* printable string

x \oplus y == RAdd(x, y)
x \ominus y == RSub(x, y)
x \otimes y == RMul(x, y)
x \oslash y == RDiv(x, y)
x \prec y == RLt(x, y)
x \preceq y == RLe(x, y)
x \succ y == RLt(y, x)
x \succeq y == RLe(y, x)

R0 == RI(0)
R1 == RI(1)
R2 == RI(2)
RSq(x) == RMul(x, x)
\* the library's "no value" sentinel
NoVal == RI(-999999)
Pi == RS("3.141592653589793")
Deg(x) == RMul(x, RDiv(RI(180), Pi))
Rad(x) == RMul(x, RDiv(Pi, RI(180)))
Tiny == RS("1e-9")
\* closed-form results: equal up to rounding
Near(x, y) == RClose(x, y, RS("1e-9"), RS("1e-9"))
NearBy(x, y, rel, abs) == RClose(x, y, RS(rel), RS(abs))
=============================================================================
