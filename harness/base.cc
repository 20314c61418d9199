// Vectors, unit conversions and string/number helpers.
#include "models/base/helper.h"
#include "models/base/units.h"
#include "models/base/vector.h"
#include "jv.h"

namespace {
double Num(const JV& x) { return (double)x[0].i / (double)x[1].i; }
std::string Str(const JV& x) { std::string s; for (auto& c : x.a) s += (char)c.n(); return s; }
std::string Codes(const std::string& s) {
  std::string r = "[";
  for (size_t i = 0; i < s.size(); i++) { if (i) r += ','; r += std::to_string((int)(unsigned char)s[i]); }
  return r + "]";
}
Plane2dType Plane(int k) {
  const Plane2dType p[] = {Plane2dType::kNull, Plane2dType::kXy, Plane2dType::kXz, Plane2dType::kYx, Plane2dType::kYz, Plane2dType::kZx, Plane2dType::kZy};
  return p[k];
}
double Unit(const std::string& t, double v, int e, bool n) {
  using namespace units;
#define U(kind, name) if (t == #name) return Convert##kind(v, kind##ConversionType::k##name, e, n);
  U(Angle, DegreesToRadians) U(Angle, RadiansToDegrees)
  U(Force, NewtonsToPounds) U(Force, PoundsToNewtons)
  U(Length, CentimetersToMeters) U(Length, FeetToInches) U(Length, FeetToMeters) U(Length, FeetToMiles) U(Length, InchesToFeet)
  U(Length, KilometersToMeters) U(Length, MetersToCentimeters) U(Length, MetersToFeet) U(Length, MetersToKilometers)
  U(Length, MetersToMillimeters) U(Length, MilesToFeet) U(Length, MillimetersToMeters)
  U(Stress, MegaPascalToPascal) U(Stress, PascalToMegaPascal) U(Stress, PascalToPsf) U(Stress, PsfToPascal) U(Stress, PsfToPsi) U(Stress, PsiToPsf)
  U(Temperature, CelsiusToFahrenheit) U(Temperature, CelsiusToKelvin) U(Temperature, FahrenheitToCelsius) U(Temperature, FahrenheitToRankine)
  U(Temperature, KelvinToCelsius) U(Temperature, KelvinToRankine) U(Temperature, RankineToFahrenheit) U(Temperature, RankineToKelvin)
  if (t == "NullAngle") return ConvertAngle(v, AngleConversionType::kNull, e, n);
  if (t == "NullForce") return ConvertForce(v, ForceConversionType::kNull, e, n);
  if (t == "NullLength") return ConvertLength(v, LengthConversionType::kNull, e, n);
  if (t == "NullStress") return ConvertStress(v, StressConversionType::kNull, e, n);
  if (t == "NullTemperature") return ConvertTemperature(v, TemperatureConversionType::kNull, e, n);
#undef U
  throw std::runtime_error("harness: unit " + t);
}
class BaseComponent : public Component {
 public:
  void Reset(const JV&) override { v2_ = Vector2d(); v3_ = Vector3d(); }
  void Do(const JV& c, JW& w) override {
    const std::string& op = c["op"].s;
    if (op == "v2") {
      const std::string& f = c["f"].s;
      if (f == "new") v2_ = Vector2d(Num(c["x"]), Num(c["y"]));
      else if (f == "x") v2_.set_x(Num(c["x"]));
      else if (f == "y") v2_.set_y(Num(c["x"]));
      else if (f == "rotate") v2_.Rotate(Num(c["x"]));
      else if (f == "scale") v2_.Scale(Num(c["x"]));
      else if (f == "copy") { Vector2d t(v2_); v2_ = Vector2d(1, 2); v2_ = t; }
      else if (f != "ask") throw std::runtime_error("harness: v2 " + f);
      w.ds("v", {v2_.x(), v2_.y()});
      w.ds("q", {v2_.Magnitude(), v2_.Angle(), v2_.Angle(true)});
      w.ds("after", {v2_.x(), v2_.y()});
    } else if (op == "v3") {
      const std::string& f = c["f"].s;
      if (f == "new") v3_ = Vector3d(Num(c["x"]), Num(c["y"]), Num(c["z"]));
      else if (f == "x") v3_.set_x(Num(c["x"]));
      else if (f == "y") v3_.set_y(Num(c["x"]));
      else if (f == "z") v3_.set_z(Num(c["x"]));
      else if (f == "rotate") v3_.Rotate(Plane(c["p"].n()), Num(c["x"]));
      else if (f == "scale") v3_.Scale(Num(c["x"]));
      else if (f == "copy") { Vector3d t(v3_); v3_ = Vector3d(1, 2, 3); v3_ = t; }
      else if (f != "ask") throw std::runtime_error("harness: v3 " + f);
      w.ds("v", {v3_.x(), v3_.y(), v3_.z()});
      std::vector<double> q = {v3_.Magnitude()};
      for (int p = 0; p <= 6; p++) { q.push_back(v3_.Angle(Plane(p))); q.push_back(v3_.Angle(Plane(p), true)); }
      w.ds("q", q);
      w.ds("after", {v3_.x(), v3_.y(), v3_.z()});
    } else if (op == "unit") {
      const double v = Num(c["x"]);
      const double r = Unit(c["t"].s, v, c["e"].n(), c["n"].n() != 0);
      w.d("r", r);
      // through the opposite conversion, and through the same one in the denominator
      w.d("back", c["rev"].s == "-" ? v : Unit(c["rev"].s, r, c["e"].n(), c["n"].n() != 0));
    } else if (op == "compare") {
      w.i("r", helper::CompareStrings(Str(c["a"]), Str(c["b"])));
    } else if (op == "numeric") {
      w.b("r", helper::IsNumeric(Str(c["a"])));
    } else if (op == "parse") {
      std::string r = "[";
      bool first = true;
      for (const std::string& s : helper::Parse(Str(c["a"]), (char)c["b"].n())) { if (!first) r += ','; first = false; r += Codes(s); }
      w.raw("r", r + "]");
    } else if (op == "linear") {
      w.d("r", helper::LinearY(Num(c["x1"]), Num(c["y1"]), Num(c["x2"]), Num(c["y2"]), Num(c["x"])));
    } else if (op == "round") {
      w.d("r", helper::Round(Num(c["x"]), c["p"].n()));
    } else if (op == "tostring") {
      w.raw("r", Codes(helper::DoubleToString(Num(c["x"]), c["p"].n(), c["b"].n() != 0)));
    } else throw std::runtime_error("harness: op " + op);
  }

 private:
  Vector2d v2_;
  Vector3d v3_;
};
Component* Make() { return new BaseComponent(); }
Register reg("base", Make);
}  // namespace
