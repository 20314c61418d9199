------------------------------ MODULE BaseTypes ------------------------------
(***************************************************************************)
(* Vectors as a state machine, unit conversions from the definitions of    *)
(* the units, and the string and number helpers.                           *)
(***************************************************************************)
EXTENDS R64, FiniteSets

\* ---------------------------------------------------------------- vectors
Ang2(x, y) == LET a == Deg(RAtan2(y, x)) IN IF a \prec R0 THEN a \oplus RI(360) ELSE a
IsNull2(x, y) == REq(x, R0) /\ REq(y, R0)
\* same direction, however the full turn is cut
SameAngle(p, q) == LET d == RAbs(p \ominus q) IN
  (d \preceq RS("1e-6")) \/ (RAbs(d \ominus RI(360)) \preceq RS("1e-6"))
AngleOk(x, y, full, half) ==
  IF IsNull2(x, y) THEN REq(full, NoVal) /\ REq(half, NoVal)
  ELSE /\ full \succeq R0 /\ full \preceq RI(360) /\ SameAngle(full, Ang2(x, y))
       /\ half \succeq RI(-180) /\ half \preceq RI(180) /\ SameAngle(half, Ang2(x, y))
       \* on the axes, exactly one representation
       /\ REq(y, R0) => (Near(full, IF x \succ R0 THEN R0 ELSE RI(180)) /\ Near(half, full))
       /\ REq(x, R0) => (Near(full, IF y \succ R0 THEN RI(90) ELSE RI(270)) /\ Near(half, IF y \succ R0 THEN RI(90) ELSE RI(-90)))
       /\ Near(half, full) \/ Near(half, full \ominus RI(360))
\* counterclockwise by angle in degrees
Turned(x, y, angle) == LET r == Rad(angle) IN
  << (x \otimes RCos(r)) \ominus (y \otimes RSin(r)), (x \otimes RSin(r)) \oplus (y \otimes RCos(r)) >>
\* planes: first axis toward second axis
PlaneAxes == << <<1,2>>, <<1,3>>, <<2,1>>, <<2,3>>, <<3,1>>, <<3,2>> >>

\* ------------------------------------------------------------------ units
\* size of every unit in the base unit of its kind
\* (radian; newton; meter; pascal; and for temperatures  K = scale * t + shift)
InchM == RS("0.0254")
UnitSize(u) ==
  CASE u = "deg" -> Pi \oslash RI(180) [] u = "rad" -> R1
    [] u = "N" -> R1 [] u = "lb" -> RS("4.4482216152605")
    [] u = "m" -> R1 [] u = "cm" -> RS("0.01") [] u = "mm" -> RS("0.001") [] u = "km" -> RI(1000)
    [] u = "in" -> InchM [] u = "ft" -> InchM \otimes RI(12) [] u = "mi" -> (InchM \otimes RI(12)) \otimes RI(5280)
    [] u = "Pa" -> R1 [] u = "MPa" -> RI(1000000)
    [] u = "psi" -> RS("4.4482216152605") \oslash RSq(InchM)
    [] u = "psf" -> (RS("4.4482216152605") \oslash RSq(InchM)) \oslash RI(144)
    [] u = "K" -> R1 [] u = "R" -> RI(5) \oslash RI(9)
    [] u = "C" -> R1 [] u = "F" -> RI(5) \oslash RI(9)
Zero(u) == CASE u = "C" -> RS("273.15") [] u = "F" -> RS("459.67") [] OTHER -> R0
\* name, from, to, reverse name
Conversions ==
  << <<"DegreesToRadians","deg","rad","RadiansToDegrees">>, <<"RadiansToDegrees","rad","deg","DegreesToRadians">>,
     <<"NewtonsToPounds","N","lb","PoundsToNewtons">>, <<"PoundsToNewtons","lb","N","NewtonsToPounds">>,
     <<"CentimetersToMeters","cm","m","MetersToCentimeters">>, <<"FeetToInches","ft","in","InchesToFeet">>,
     <<"FeetToMeters","ft","m","MetersToFeet">>, <<"FeetToMiles","ft","mi","MilesToFeet">>, <<"InchesToFeet","in","ft","FeetToInches">>,
     <<"KilometersToMeters","km","m","MetersToKilometers">>, <<"MetersToCentimeters","m","cm","CentimetersToMeters">>,
     <<"MetersToFeet","m","ft","FeetToMeters">>, <<"MetersToKilometers","m","km","KilometersToMeters">>,
     <<"MetersToMillimeters","m","mm","MillimetersToMeters">>, <<"MilesToFeet","mi","ft","FeetToMiles">>,
     <<"MillimetersToMeters","mm","m","MetersToMillimeters">>,
     <<"MegaPascalToPascal","MPa","Pa","PascalToMegaPascal">>, <<"PascalToMegaPascal","Pa","MPa","MegaPascalToPascal">>,
     <<"PascalToPsf","Pa","psf","PsfToPascal">>, <<"PsfToPascal","psf","Pa","PascalToPsf">>,
     <<"PsfToPsi","psf","psi","PsiToPsf">>, <<"PsiToPsf","psi","psf","PsfToPsi">>,
     <<"KelvinToRankine","K","R","RankineToKelvin">>, <<"RankineToKelvin","R","K","KelvinToRankine">> >>
\* temperatures with a shift only make sense as plain values
Shifts ==
  << <<"CelsiusToFahrenheit","C","F","FahrenheitToCelsius">>, <<"FahrenheitToCelsius","F","C","CelsiusToFahrenheit">>,
     <<"CelsiusToKelvin","C","K","KelvinToCelsius">>, <<"KelvinToCelsius","K","C","CelsiusToKelvin">>,
     <<"FahrenheitToRankine","F","R","RankineToFahrenheit">>, <<"RankineToFahrenheit","R","F","FahrenheitToRankine">> >>
NullUnits == {"NullAngle", "NullForce", "NullLength", "NullStress", "NullTemperature"}
ConvRow(t) == LET all == Conversions \o Shifts  I == {k \in 1..Len(all) : all[k][1] = t} IN all[CHOOSE k \in I : TRUE]
IsShift(t) == \E k \in 1..Len(Shifts) : Shifts[k][1] = t
Converted(t, v, ex, num) ==
  LET row == ConvRow(t) IN
  IF IsShift(t)
  \* t_to such that both describe the same absolute temperature
  THEN LET abs == (v \oplus Zero(row[2])) \otimes UnitSize(row[2]) IN (abs \oslash UnitSize(row[3])) \ominus Zero(row[3])
  ELSE LET f == RPow(UnitSize(row[2]) \oslash UnitSize(row[3]), RI(ex)) IN
       IF num THEN v \otimes f ELSE v \oslash f

\* ---------------------------------------------------------------- helpers
Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
RECURSIVE Cmp(_, _)
Cmp(a, b) == CASE a = <<>> /\ b = <<>> -> 0
               [] a = <<>> -> -1
               [] b = <<>> -> 1
               [] Lower(a[1]) < Lower(b[1]) -> -1
               [] Lower(a[1]) > Lower(b[1]) -> 1
               [] OTHER -> Cmp(Tail(a), Tail(b))
\* items between delimiters; a delimiter ends an item, so none follows the last one
RECURSIVE Split(_, _, _)
Split(s, d, cur) == IF s = <<>> THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>)
                    ELSE IF s[1] = d THEN <<cur>> \o Split(Tail(s), d, <<>>)
                    ELSE Split(Tail(s), d, Append(cur, s[1]))
Digit == 48..57
Space == {32, 9, 10, 11, 12, 13}
RECURSIVE Skip(_, _)
Skip(s, S) == IF s # <<>> /\ s[1] \in S THEN Skip(Tail(s), S) ELSE s
Opt(s, S) == IF s # <<>> /\ s[1] \in S THEN Tail(s) ELSE s
\* [spaces] [sign] digits [. digits] [e [sign] digits] [spaces], with a digit in the mantissa
Numeric(s) ==
  LET s1 == Opt(Skip(s, Space), {43, 45})
      s2 == Skip(s1, Digit)
      dot == s2 # <<>> /\ s2[1] = 46
      s3 == IF dot THEN Tail(s2) ELSE s2
      s4 == IF dot THEN Skip(s3, Digit) ELSE s3
      digits == Len(s1) - Len(s2) + (IF dot THEN Len(s3) - Len(s4) ELSE 0)
      ex == s4 # <<>> /\ s4[1] \in {69, 101}
      s5 == IF ex THEN Opt(Tail(s4), {43, 45}) ELSE s4
      s6 == IF ex THEN Skip(s5, Digit) ELSE s4
      exdigits == Len(s5) - Len(s6) IN
  digits > 0 /\ (ex => exdigits > 0) /\ Skip(s6, Space) = <<>>

\* number written by a decimal string without exponent
RECURSIVE DigitsVal(_, _)
DigitsVal(s, acc) == IF s = <<>> THEN acc ELSE DigitsVal(Tail(s), (acc \otimes RI(10)) \oplus RI(s[1] - 48))
DotAt(s) == LET I == {k \in 1..Len(s) : s[k] = 46} IN IF I = {} THEN 0 ELSE CHOOSE k \in I : TRUE
Unsigned(s) == IF s # <<>> /\ s[1] = 45 THEN Tail(s) ELSE s
IntPart(s) == LET u == Unsigned(s) IN IF DotAt(u) = 0 THEN u ELSE SubSeq(u, 1, DotAt(u) - 1)
FracPart(s) == LET u == Unsigned(s) IN IF DotAt(u) = 0 THEN <<>> ELSE SubSeq(u, DotAt(u) + 1, Len(u))
Written(s) == LET m == DigitsVal(IntPart(s) \o FracPart(s), R0) \oslash RPow(RI(10), RI(Len(FracPart(s)))) IN
              IF s[1] = 45 THEN RNeg(m) ELSE m
WellFormed(s) == /\ Len(s) > 0 /\ \A k \in 1..Len(Unsigned(s)) : Unsigned(s)[k] \in Digit \cup {46}
                 /\ Len(IntPart(s)) > 0
                 /\ Cardinality({k \in 1..Len(s) : s[k] = 46}) <= 1
RECURSIVE Strip0(_)
Strip0(s) == IF s # <<>> /\ s[1] = 48 THEN Strip0(Tail(s)) ELSE s
SigDigits(s) == Len(Strip0(IntPart(s) \o FracPart(s)))
\* half a unit of the last place, with a hair for the binary representation
HalfUlp(p) == RPow(RI(10), RI(-p)) \otimes RS("0.5000000001")
ToStringOk(x, p, fixed, s) ==
  /\ WellFormed(s)
  /\ IF fixed
     THEN Len(FracPart(s)) = p /\ (RAbs(Written(s) \ominus x) \preceq HalfUlp(p))
     ELSE LET mag == IF REq(x, R0) THEN 0 ELSE RToInt(RFloor(RLog(RAbs(x)) \oslash RLog(RI(10)) \oplus RS("1e-12"))) IN
          /\ SigDigits(s) <= p
          /\ RAbs(Written(s) \ominus x) \preceq HalfUlp(p - 1 - mag)
          /\ FracPart(s) # <<>> => FracPart(s)[Len(FracPart(s))] # 48
\* r is x rounded to p places, ties away from zero
RoundOk(x, p, r, tie) ==
  /\ RAbs(r \ominus x) \preceq (HalfUlp(p) \otimes RS("1.000001"))
  /\ LET m == r \otimes RPow(RI(10), RI(p)) IN RAbs(m \ominus RRound(m)) \preceq RMax(RS("1e-6"), RAbs(m) \otimes RS("4e-16"))
  /\ tie => RAbs(r) \succ RAbs(x)
=============================================================================
