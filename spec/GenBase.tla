------------------------------- MODULE GenBase -------------------------------
(* Histories of vector mutations, unit conversions and helper calls.         *)
EXTENDS BaseTypes, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
Mode == IOEnv.MODE     \* vector | unit | helper
VARIABLE n
Pick(S) == RandomElement(S)
Chance(k) == RandomElement(1..100) <= k
B(x) == {x}
Emit(c) == PrintT(ToJson(c))
PickSeq(q) == q[Pick(1..Len(q))]
Coordinate(x) == IF Chance(35) THEN <<PickSeq(<<0, 0, 1, -1, 3, -4>>), 1>> ELSE <<Pick(-5000..5000), PickSeq(<<1, 7, 100>>)>>
Turn(x) == IF Chance(50) THEN <<PickSeq(<<0, 90, 180, 270, 360, -90, -180, -450, 45, -45, 720>>), 1>> ELSE <<Pick(-80000..80000), 100>>
Factor(x) == IF Chance(30) THEN <<PickSeq(<<0, -1, 1, 2>>), 1>> ELSE <<Pick(-300..300), 100>>
VecAct(z) ==
  \E f \in B(PickSeq(<<"new", "x", "y", "z", "rotate", "rotate", "rotate", "rotate", "scale", "copy", "ask">>)) :
  IF Chance(40)
  THEN LET g == IF f = "z" THEN "x" ELSE f IN
       Emit([op |-> "v2", f |-> g, y |-> Coordinate(1),
             x |-> IF g = "rotate" THEN Turn(1) ELSE IF g = "scale" THEN Factor(1) ELSE Coordinate(2)])
  ELSE Emit([op |-> "v3", f |-> f, y |-> Coordinate(1), z |-> Coordinate(2), p |-> Pick(0..6),
             x |-> IF f = "rotate" THEN Turn(1) ELSE IF f = "scale" THEN Factor(1) ELSE Coordinate(3)])
UnitValue(x) == IF Chance(10) THEN <<0, 1>> ELSE <<Pick(-400000..400000), PickSeq(<<1, 100, 3000>>)>>
UnitAct(z) ==
  \E k \in B(Pick(1..100)) :
  CASE k <= 75 -> \E r \in B(PickSeq(Conversions)) :
                  Emit([op |-> "unit", t |-> r[1], rev |-> r[4], x |-> UnitValue(1), e |-> Pick(-3..4), n |-> Pick(0..1)])
    [] k <= 95 -> \E r \in B(PickSeq(Shifts)) :
                  Emit([op |-> "unit", t |-> r[1], rev |-> r[4], x |-> UnitValue(1), e |-> 1, n |-> 1])
    [] OTHER -> Emit([op |-> "unit", t |-> Pick(NullUnits), rev |-> "-", x |-> UnitValue(1), e |-> Pick(-2..3), n |-> Pick(0..1)])
\* short strings over a small alphabet, so that ties and prefixes are common
Word(alpha, max) == [k \in 1..Pick(0..max) |-> PickSeq(alpha)]
Letters == <<65, 66, 97, 98, 90, 122, 91, 95, 96, 48, 57, 32, 45, 122, 65, 97>>
Marks == <<49, 50, 48, 57, 46, 45, 43, 101, 69, 32, 120, 53, 51, 44, 102, 105, 110>>
\* a numeral with a few random edits
Numeral(x) == Word(<<32>>, 1) \o Word(<<45, 43>>, 1) \o Word(<<48, 49, 57, 53>>, 3) \o Word(<<46>>, 1) \o Word(<<48, 49, 57>>, 2)
              \o (IF Chance(40) THEN PickSeq(<<<<101>>, <<69>>>>) \o Word(<<45, 43>>, 1) \o Word(<<49, 50>>, 2) ELSE <<>>) \o Word(<<32, 9>>, 1)
Extended(w) == w \o Word(Letters, 2)
Flip(w) == [k \in 1..Len(w) |-> IF w[k] \in 97..122 /\ Chance(50) THEN w[k] - 32 ELSE w[k]]
Real(x) == IF Chance(40) THEN <<Pick(-4000..4000), 8>> ELSE <<Pick(-2000000..2000000), PickSeq(<<1, 3, 7, 1000, 99991>>)>>
HelperAct(z) ==
  \E k \in B(Pick(1..8)) :
  CASE k = 1 -> \E w \in B(Word(Letters, 5)) :
                Emit([op |-> "compare", a |-> w, b |-> IF Chance(50) THEN Flip(Extended(w)) ELSE Word(Letters, 5)])
    [] k = 2 -> \E w \in B(Word(Letters, 5)) : Emit([op |-> "compare", a |-> Extended(w), b |-> Flip(w)])
    [] k = 3 -> Emit([op |-> "numeric", a |-> IF Chance(60) THEN Numeral(1) ELSE Word(Marks, 6)])
    [] k = 4 -> Emit([op |-> "parse", a |-> Word(<<44, 44, 59, 97, 98, 32>>, 9), b |-> PickSeq(<<44, 59, 32, 97>>)])
    [] k = 5 -> \E x1 \in B(Pick(-900..900)) : \E x2 \in B(Pick(-900..900)) :
                IF x1 = x2 THEN TRUE
                ELSE Emit([op |-> "linear", x1 |-> <<x1, 8>>, y1 |-> Real(1), x2 |-> <<x2, 8>>, y2 |-> Real(2), x |-> <<Pick(-2000..2000), 8>>])
    [] k = 6 -> Emit([op |-> "round", x |-> Real(1), p |-> Pick(0..6)])
    [] k = 7 -> Emit([op |-> "tostring", x |-> Real(1), p |-> Pick(0..8), b |-> 1])
    \* wide enough that no exponent is needed
    [] k = 8 -> Emit([op |-> "tostring", x |-> <<Pick(-9999..9999), PickSeq(<<1, 3, 8, 10, 100>>)>>, p |-> Pick(4..12), b |-> 0])
Init == n = 0
Next == /\ n < Depth /\ n' = n + 1
        /\ n = 0 => Emit([op |-> "reset", comp |-> "base"])
        /\ CASE n = 0 -> TRUE
             [] Mode = "vector" -> VecAct(n)
             [] Mode = "unit" -> UnitAct(n)
             [] Mode = "helper" -> HelperAct(n)
=============================================================================
