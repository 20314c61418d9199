----------------------------- MODULE ModelValues -----------------------------
(***************************************************************************)
(* The structures a user fills in: which fields make them invalid.         *)
(* Errors(cls, c) is the number of faults of an object with inputs c, the  *)
(* faults of its parts included; an object is valid when there is none,    *)
(* and validation reports one message for each.                            *)
(***************************************************************************)
EXTENDS ObjKit

One(b) == IF b THEN 1 ELSE 0
RECURSIVE Total(_)
Total(ns) == IF ns = <<>> THEN 0 ELSE ns[1] + Total(Tail(ns))
\* component k of an input, or the default of an input that is not set
Of2(c, s, k, default) == IF IsSet(c, s) THEN Val(c, s, k) ELSE default
Fld(c, s) == Of2(c, s, 1, NoVal)
Below(x, k) == x \prec RI(k)
Above(x, k) == RI(k) \prec x
AtMost(x, k) == x \preceq RI(k)
Outside(x, lo, hi) == Below(x, lo) \/ Above(x, hi)
\* the position of a value in an enumeration 1..n (0: none)
Kind(c, s, k, n) == IF ~IsSet(c, s) THEN 0 ELSE LET v == IVal(c, s, k) IN IF v \in 1..n THEN v ELSE 0
\* enumerations whose values start at 0
Known(c, s, k, n) == IsSet(c, s) /\ IVal(c, s, k) \in 0..n

PointErrors(st, rot, el) == Total(<<One(Below(el, 0)), One(Above(RAbs(rot), 360)), One(Below(st, 0))>>)
AlignmentErrors(c) ==
  IF ~IsSet(c, "points") THEN 0
  ELSE LET n == Len(c["points"].v) \div 3
           P(i, k) == Val(c, "points", 3*(i-1) + k)
           \* a point at the station of an earlier one is refused
           Kept(i) == \A j \in 1..(i-1) : ~REq(P(i,1), P(j,1)) IN
       Total([i \in 1..n |-> IF Kept(i) THEN PointErrors(P(i,1), P(i,2), P(i,3)) ELSE 0])
HardwareErrors(area, len, weight, kind) ==
  Total(<<One(Below(area, 0)), One(Below(len, 0)), One(Below(weight, 0)), One(kind = 0)>>)
StructureErrors(c, s) ==
  IF ~IsSet(c, s) THEN 2
  ELSE LET h == Val(c, s, 1)  n == Len(c[s].v) - 1
           T(i) == Val(c, s, i + 1) IN
       One(AtMost(h, 0)) + One(n = 0)
       + Total([i \in 1..n |-> One(Below(T(i), 0)) + One(h \prec T(i))])
\* hardware is attached to existing attachments only
LineStructureErrors(c) ==
  LET atts == IF IsSet(c, "structure") THEN Len(c["structure"].v) - 1 ELSE 0
      n == IF IsSet(c, "hardware") THEN Len(c["hardware"].v) \div 4 ELSE 0
      H(i, k) == Val(c, "hardware", 4*(i-1) + k) IN
  Total(<<One(Below(Fld(c, "adjust"), 0)), One(Above(RAbs(Fld(c, "rotation")), 360)), One(Below(Fld(c, "station"), 0)),
          IF IsSet(c, "structure") THEN StructureErrors(c, "structure") ELSE 1>>)
  + Total([i \in 1..(IF n < atts THEN n ELSE atts) |-> HardwareErrors(H(i,1), H(i,2), H(i,3), Kind(c, "hardware", 4*i, 3))])
CaseErrors(ice, dens, wind, temp) ==
  Total(<<One(Below(ice, 0)), One(Below(dens, 0)), One(Below(wind, 0)), One(Below(temp, -50))>>)
CaseIn(c, s) == IF ~IsSet(c, s) THEN 1 ELSE CaseErrors(Val(c,s,1), Val(c,s,2), Val(c,s,3), Val(c,s,4))
CableErrors(area, diam, weight) == Total(<<One(Below(area, 0)), One(AtMost(diam, 0)), One(AtMost(weight, 0))>>)
\* expansion, limits, moduli, scales, numbers of coefficients, their value
Small(x) == RS("-0.005") \prec x /\ x \prec RS("0.005")
LooseErrors(c, s) ==
  Total(<<One(~Small(Val(c,s,1)))>>) + Total([k \in 1..6 |-> One(Below(Val(c,s,k+1), 0))])
  + One(IVal(c,s,8) # 5) + One(IVal(c,s,9) # 5)
\* a component takes part when both its polynomials have a coefficient other than zero
Enabled(c, s) == IsSet(c, s) /\ IVal(c,s,8) > 0 /\ IVal(c,s,9) > 0 /\ ~REq(Val(c,s,10), R0)
SagCableErrors(c) ==
  IF ~IsSet(c, "base") THEN 1
  ELSE CableErrors(Val(c,"base",1), Val(c,"base",2), Val(c,"base",3))
       + One(Below(Val(c,"base",4), 0)) + One(Below(Val(c,"base",5), 0))
       + (IF Enabled(c, "core") THEN LooseErrors(c, "core") ELSE 0)
       + (IF Enabled(c, "shell") THEN LooseErrors(c, "shell") ELSE 0)
StateErrors(c) == One(Below(Fld(c, "temperature"), -100)) + One(~Known(c, "type", 1, 1))
\* the fields of a line cable
LineCableErrors(c) ==
  (IF IsSet(c, "cable") THEN CableErrors(R0, Val(c,"cable",10), Val(c,"cable",9)) ELSE 1)
  + CaseIn(c, "case")
  + (IF IsSet(c, "constraint")
     THEN Total(<<One(Kind(c, "constraint", 1, 5) = 0), One(~Known(c, "constraint", 2, 2)), One(Below(Val(c,"constraint",3), 0))>>)
     ELSE 3)
  + (IF IsSet(c, "geometry") THEN One(AtMost(Val(c,"geometry",1), 0)) + One(Above(RAbs(Val(c,"geometry",2)), 2000)) ELSE 3)
  + CaseIn(c, "creep") + CaseIn(c, "load")

\* 999999 is the default of a heat loss
Heat(c, s) == Of2(c, s, 1, RI(999999))
Errors(cls, c) ==
  CASE cls = "AlignmentPoint" -> PointErrors(Fld(c,"station"), Fld(c,"rotation"), Fld(c,"elevation"))
    [] cls = "Alignment" -> AlignmentErrors(c)
    [] cls = "Hardware" -> IF IsSet(c, "all")
         THEN HardwareErrors(Val(c,"all",1), Of2(c,"length",1,Val(c,"all",2)), Val(c,"all",3), Kind(c,"all",4,3))
         ELSE HardwareErrors(NoVal, Fld(c,"length"), NoVal, 0)
    [] cls = "StructureAttachment" -> One(Below(Fld(c,"top"), 0))
    [] cls = "Structure" -> StructureErrors(c, "all")
    [] cls = "LineStructure" -> LineStructureErrors(c)
    [] cls = "WeatherCase" -> CaseErrors(Fld(c,"ice"), Fld(c,"density"), Fld(c,"wind"), Fld(c,"temperature"))
    [] cls = "Constraint" -> CaseIn(c, "case") + One(~Known(c,"condition",1,2)) + One(Kind(c,"type",1,5) = 0) + One(Below(Fld(c,"limit"), 0))
    [] cls = "CableValue" -> CableErrors(Fld(c,"area"), Fld(c,"diameter"), Fld(c,"weight"))
    [] cls = "SagComponent" -> IF IsSet(c,"base") THEN LooseErrors(c,"base") ELSE 1
    [] cls = "SagCable" -> SagCableErrors(c)
    [] cls = "State" -> StateErrors(c)
    [] cls = "Stretch" -> StateErrors(c) + One(Below(Fld(c,"load"), 0))
    [] cls = "RatingWeather" -> Total(<<One(Outside(Fld(c,"angle"), 0, 90)), One(Below(Fld(c,"elevation"), 0)), One(Below(Fld(c,"sun"), 0)),
                                        One(Below(Fld(c,"wind"), 0)), One(Outside(Fld(c,"air"), -100, 100))>>)
    [] cls = "HeatState" -> Total(<<One(Above(Heat(c,"convection"), 0)), One(Above(Heat(c,"radiation"), 0)), One(Below(Fld(c,"resistance"), 0)),
                                    One(Below(Fld(c,"solar"), 0)), One(~Above(Fld(c,"storage"), -999999) \/ ~Below(Fld(c,"storage"), 999999))>>)
    [] cls = "LineCable" -> LineCableErrors(c)
ValueNames == <<"AlignmentPoint", "Alignment", "Hardware", "StructureAttachment", "Structure", "LineStructure", "WeatherCase", "Constraint",
  "CableValue", "SagComponent", "SagCable", "State", "Stretch", "RatingWeather", "HeatState", "LineCable">>
\* validity is decided by the fields alone (of a line cable, also by solving its catenary)
IsValue(cls) == \E k \in 1..Len(ValueNames) : ValueNames[k] = cls
FieldsOnly(cls) == IsValue(cls) /\ cls # "LineCable"

V1(n, lo, hi, odd) == Slot(n, <<RO(lo, hi, 1, odd)>>)
Pt == <<RO(0, 500, 1, <<0, -1>>), RO(-360, 360, 1, <<361, -361, 360, -360>>), RO(0, 300, 1, <<0, -1>>)>>
Hw == <<RO(0, 20, 1, <<-1>>), RO(0, 20, 1, <<-1, 0>>), RO(0, 300, 1, <<-1>>), RO(1, 3, 1, <<0>>)>>
Tops == <<RO(20, 120, 1, <<0, -1>>)>> \o [k \in 1..4 |-> RO(0, 60, 1, <<-1, 0, 20>>)]
CaseV == <<RO(0, 12, 12, <<-1>>), RO(0, 57, 1, <<-1>>), RO(0, 30, 1, <<-1>>), RO(-50, 212, 1, <<-50, -51>>)>>
LooseV == <<RO(1, 400, 100000, <<499, -499, -501, 501>>), RO(0, 30000, 1, <<-1>>), RO(0, 30000, 1, <<-1>>), RO(0, 9000, 1, <<-1>>),
            RO(0, 90000, 1, <<-1>>), RO(0, 2, 1, <<-1>>), RO(0, 2, 1, <<-1>>), RO(5, 5, 1, <<0, 4, 6, 5>>), RO(5, 5, 1, <<0, 4, 6, 5>>), RO(1, 4, 1, <<0>>)>>
\* inputs of a line cable: see sag.h
LineV == <<
  Slot("cable", <<R(0,1,1), R(0,1,1), R(90,110,100), R(90,110,100), R(10,20,10), R(0,20,10), R(100,130,100), R(20,80,1),
                  RO(800,1300,1000,<<0,-1>>), RO(700,1100,10000,<<0,-1>>), R(20000,40000,1), R(1,2,1), R(1,2,1)>>),
  Slot("geometry", <<RO(600,1500,1,<<0,-1>>), RO(-100,100,1,<<2000,2001,-2001>>)>>),
  Slot("creep", CaseV), Slot("load", CaseV), Slot("case", CaseV),
  Slot("constraint", <<RO(1,2,1,<<0,3,4,5>>), RO(0,2,1,<<3,-1>>), RO(3000,9000,1,<<0,-1>>)>>) >>
VC(slots) == Class(slots, <<>>, TRUE, FALSE)
ValueClasses ==
  [AlignmentPoint |-> VC(<<Slot("station", <<Pt[1]>>), Slot("rotation", <<Pt[2]>>), Slot("elevation", <<Pt[3]>>)>>),
   Alignment |-> VC(<<SlotN("points", Pt \o Pt \o Pt \o Pt, 3)>>),
   Hardware |-> VC(<<Slot("all", Hw), V1("length", 0, 20, <<-1>>)>>),
   StructureAttachment |-> VC(<<V1("top", 0, 100, <<-1, 0>>)>>),
   Structure |-> VC(<<SlotN("all", Tops, 1)>>),
   LineStructure |-> VC(<<V1("adjust", 0, 20, <<-1>>), V1("rotation", -360, 360, <<361, -361>>), V1("station", 0, 900, <<-1>>),
                          SlotN("structure", Tops, 1), SlotN("hardware", Hw \o Hw, 4)>>),
   WeatherCase |-> VC(<<Slot("ice", <<CaseV[1]>>), Slot("density", <<CaseV[2]>>), Slot("wind", <<CaseV[3]>>), Slot("temperature", <<CaseV[4]>>)>>),
   Constraint |-> VC(<<Slot("case", CaseV), V1("condition", 0, 2, <<3, -1>>), V1("type", 1, 5, <<0>>), V1("limit", 0, 9000, <<-1, 0>>)>>),
   CableValue |-> VC(<<V1("area", 0, 2, <<-1>>), V1("diameter", 1, 3, <<0, -1>>), V1("weight", 1, 3, <<0, -1>>)>>),
   SagComponent |-> VC(<<Slot("base", LooseV)>>),
   SagCable |-> VC(<<Slot("base", <<RO(0,2,1,<<-1>>), RO(1,3,1,<<0>>), RO(1,3,1,<<0>>), RO(0,30000,1,<<-1>>), RO(0,90,1,<<-1>>)>>),
                     Slot("core", LooseV), Slot("shell", LooseV)>>),
   State |-> VC(<<V1("temperature", -100, 200, <<-100, -101>>), V1("type", 0, 1, <<2, -1>>)>>),
   Stretch |-> VC(<<V1("temperature", -100, 200, <<-100, -101>>), V1("type", 0, 1, <<2, -1>>), V1("load", 0, 9000, <<0, -1>>)>>),
   RatingWeather |-> VC(<<V1("angle", 0, 90, <<0, -1, 90, 91>>), V1("elevation", 0, 9000, <<-1>>), V1("sun", 0, 1000, <<-1>>),
                          V1("wind", 0, 20, <<-1>>), V1("air", -100, 100, <<-100, -101, 100, 101>>)>>),
   HeatState |-> VC(<<V1("convection", -90, 0, <<0, 1>>), V1("radiation", -90, 0, <<0, 1>>), V1("resistance", 0, 90, <<0, -1>>),
                      V1("solar", 0, 90, <<0, -1>>), V1("storage", -90, 90, <<-999999, 999999, -999998, 999998>>)>>),
   LineCable |-> VC(LineV)]
=============================================================================
