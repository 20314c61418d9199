// Polynomial, Cylinder, CableUnitLoadSolver, Catenary2d, Catenary3d, CatenarySolver
#include "models/base/geometric_shapes.h"
#include "models/base/polynomial.h"
#include "models/transmissionline/cable_unit_load_solver.h"
#include "models/transmissionline/catenary.h"
#include "models/transmissionline/catenary_solver.h"
#include "obj.h"

namespace {
AxisDirectionType Dir(double d) { return d > 0.5 ? AxisDirectionType::kPositive : d < -0.5 ? AxisDirectionType::kNull : AxisDirectionType::kNegative; }

struct APolynomial : AdaptorOf<APolynomial> {
  Polynomial p;
  void Set(const std::string& s, const Vd& v) override {
    if (s != "coef") Bad(s);
    p.set_coefficients(v.empty() ? nullptr : TheArena().Make<Vd>(v));
  }
  Vd Query(const std::string& q, const Vd& a) override {
    if (q == "y") return {p.Y(a[0])};
    if (q == "slope") return {p.Slope(a[0])};
    if (q == "order") return {(double)p.OrderMax()};
    if (q == "deriv") { const Polynomial d = p.Derivative(); return d.coefficients() ? *d.coefficients() : Vd(); }
    if (q == "deriv2") { const Polynomial d = p.Derivative(); const Polynomial d2 = d.Derivative(); return {d2.Y(a[0]), d.Y(a[0])}; }
    // the derivative of a polynomial that is gone / has changed since
    if (q == "deriv3" || q == "deriv4") {
      std::vector<double> other = {7, -3, 5, 11};
      std::unique_ptr<Polynomial> t(new Polynomial(p));
      if (q == "deriv3") t->Slope(1);
      const Polynomial d = t->Derivative();
      if (q == "deriv3") t.reset();
      else { t->set_coefficients(&other); t->Slope(a[0]); }
      const Polynomial e = d;
      return {d.Y(a[0]), e.Y(a[0]), d.Slope(a[0])};
    }
    if (q == "coef") return *p.coefficients();
    // inverse of a value the polynomial takes at a[0], started from a[1]
    if (q == "x") {
      double y = 0;
      const Vd& c = *p.coefficients();
      for (size_t k = c.size(); k-- > 0;) y = y * a[0] + c[k];
      return {p.X(y, (int)a[2], a[1]), y};
    }
    Bad(q); return {};
  }
  bool Validate(bool w, std::list<ErrorMessage>* m) override { return p.Validate(w, m); }
};
REG_CLASS("Polynomial", APolynomial)

struct ACylinder : AdaptorOf<ACylinder> {
  Cylinder c;
  void Set(const std::string& s, const Vd& v) override {
    if (s == "diameter") c.set_diameter(v.empty() ? -999999 : v[0]);
    else if (s == "length") c.set_length(v.empty() ? -999999 : v[0]);
    else Bad(s);
  }
  Vd Query(const std::string& q, const Vd&) override {
    if (q == "area") return {c.AreaCrossSection()};
    if (q == "volume") return {c.Volume()};
    if (q == "get") return {c.diameter(), c.length()};
    Bad(q); return {};
  }
  bool Validate(bool w, std::list<ErrorMessage>* m) override { return c.Validate(w, m); }
};
REG_CLASS("Cylinder", ACylinder)

struct AUnitLoad : AdaptorOf<AUnitLoad> {
  CableUnitLoadSolver s_;
  void Set(const std::string& s, const Vd& v) override {
    const double* p = v.empty() ? nullptr : TheArena().Make<double>(v[0]);
    if (s == "diameter") s_.set_diameter_cable(p);
    else if (s == "weight") s_.set_weight_unit_cable(p);
    else Bad(s);
  }
  Vd Query(const std::string& q, const Vd& a) override {
    if (q == "load") {
      WeatherLoadCase w;
      w.thickness_ice = a[0];
      w.density_ice = a[1];
      w.pressure_wind = a[2];
      w.temperature_cable = a[3];
      return VV3(s_.UnitCableLoad(w));
    }
    if (q == "get") return {*s_.diameter_cable(), *s_.weight_unit_cable()};
    Bad(q); return {};
  }
  bool Validate(bool w, std::list<ErrorMessage>* m) override { return s_.Validate(w, m); }
};
REG_CLASS("UnitLoad", AUnitLoad)

struct ACatenary2d : AdaptorOf<ACatenary2d> {
  Catenary2d c;
  void Set(const std::string& s, const Vd& v) override {
    if (s == "spacing") c.set_spacing_endpoints(v.empty() ? Vector2d() : Vector2d(v[0], v[1]));
    else if (s == "tension") c.set_tension_horizontal(v.empty() ? -999999 : v[0]);
    else if (s == "weight") c.set_weight_unit(v.empty() ? -999999 : v[0]);
    else Bad(s);
  }
  Vd Query(const std::string& q, const Vd& a) override {
    if (q == "constant") return {c.Constant()};
    if (q == "coord") return V2(c.Coordinate(a[0], a[1] > 0.5));
    if (q == "chord") return V2(c.CoordinateChord(a[0], a[1] > 0.5));
    if (q == "length") return {c.Length()};
    if (q == "slack") return {c.LengthSlack()};
    if (q == "posfrac") return {c.PositionFraction(a[0])};
    if (q == "origin") return {c.PositionFractionOrigin()};
    if (q == "sagpoint") return {c.PositionFractionSagPoint()};
    if (q == "sag") return {c.Sag()};
    if (q == "sagat") return {c.Sag(a[0])};
    if (q == "tangle") return {c.TangentAngle(a[0], Dir(a[1]))};
    if (q == "tvec") return VV2(c.TangentVector(a[0], Dir(a[1])));
    if (q == "tension") return {c.Tension(a[0])};
    if (q == "tensvec") return VV2(c.Tension(a[0], Dir(a[1])));
    if (q == "tavg") return {c.TensionAverage((int)a[0])};
    if (q == "tmax") return {c.TensionMax()};
    if (q == "get") return {c.spacing_endpoints().x(), c.spacing_endpoints().y(), c.tension_horizontal(), c.weight_unit()};
    Bad(q); return {};
  }
  bool Validate(bool w, std::list<ErrorMessage>* m) override { return c.Validate(w, m); }
};
REG_CLASS("Catenary2d", ACatenary2d)

struct ACatenary3d : AdaptorOf<ACatenary3d> {
  Catenary3d c;
  void Set(const std::string& s, const Vd& v) override {
    if (s == "spacing") c.set_spacing_endpoints(v.empty() ? Vector3d() : Vector3d(v[0], v[1], v[2]));
    else if (s == "tension") c.set_tension_horizontal(v.empty() ? -999999 : v[0]);
    else if (s == "weight") c.set_weight_unit(v.empty() ? Vector3d() : Vector3d(v[0], v[1], v[2]));
    else if (s == "dir") c.set_direction_transverse(Dir(v.empty() ? -1 : v[0]));
    else Bad(s);
  }
  Vd Query(const std::string& q, const Vd& a) override {
    if (q == "constant") return {c.Constant()};
    if (q == "coord") return V3(c.Coordinate(a[0]));
    if (q == "chord") return V3(c.CoordinateChord(a[0]));
    if (q == "length") return {c.Length()};
    if (q == "slack") return {c.LengthSlack()};
    if (q == "origin") return {c.PositionFractionOrigin()};
    if (q == "sagpoint") return {c.PositionFractionSagPoint()};
    if (q == "sag") return {c.Sag()};
    if (q == "sagat") return {c.Sag(a[0])};
    if (q == "swing") return {c.SwingAngle()};
    if (q == "tanglet") return {c.TangentAngleTransverse(a[0], Dir(a[1]))};
    if (q == "tanglev") return {c.TangentAngleVertical(a[0], Dir(a[1]))};
    if (q == "tvec") return VV3(c.TangentVector(a[0], Dir(a[1])));
    if (q == "tension") return {c.Tension(a[0])};
    if (q == "tensvec") return VV3(c.Tension(a[0], Dir(a[1])));
    if (q == "tavg") return {c.TensionAverage((int)a[0])};
    if (q == "tmax") return {c.TensionMax()};
    if (q == "get") return {c.spacing_endpoints().x(), c.spacing_endpoints().y(), c.spacing_endpoints().z(), c.tension_horizontal(),
                            c.weight_unit().x(), c.weight_unit().y(), c.weight_unit().z(), (double)(int)c.direction_transverse()};
    Bad(q); return {};
  }
  bool Validate(bool w, std::list<ErrorMessage>* m) override { return c.Validate(w, m); }
};
REG_CLASS("Catenary3d", ACatenary3d)

struct ACatenarySolver : AdaptorOf<ACatenarySolver> {
  CatenarySolver c;
  void Set(const std::string& s, const Vd& v) override {
    if (s == "spacing") c.set_spacing_endpoints(v.empty() ? Vector3d() : Vector3d(v[0], v[1], v[2]));
    else if (s == "weight") c.set_weight_unit(v.empty() ? Vector3d() : Vector3d(v[0], v[1], v[2]));
    else if (s == "position") c.set_position_target(v.empty() ? -1 : v[0]);
    else if (s == "target") {
      typedef CatenarySolver::TargetType T;
      const T types[] = {T::kNull, T::kConstant, T::kLength, T::kSag, T::kTension};
      const T t = v.empty() ? T::kNull : types[v[0] < 0 || v[0] > 4 ? 0 : (int)v[0]];
      c.set_type_target(t);
      c.set_value_target(v.empty() ? -999999 : v[1]);
    }
    else Bad(s);
  }
  Vd Query(const std::string& q, const Vd& a) override {
    if (q == "tension") return {c.TensionHorizontal()};
    if (q == "catenary") {
      const Catenary3d k = c.Catenary();
      return {k.tension_horizontal(), k.spacing_endpoints().x(), k.spacing_endpoints().z(), k.weight_unit().y(), k.weight_unit().z(),
              k.tension_horizontal() < 0 ? -999999 : k.Length()};
    }
    if (q == "get") {
      const auto t = c.type_target();
      typedef CatenarySolver::TargetType T;
      return {c.position_target(), t == T::kConstant ? 1. : t == T::kLength ? 2. : t == T::kSag ? 3. : t == T::kTension ? 4. : 0., c.value_target(), c.spacing_endpoints().x(), c.weight_unit().z()};
    }
    Bad(q); return {};
  }
  bool Validate(bool w, std::list<ErrorMessage>* m) override { return c.Validate(w, m); }
};
REG_CLASS("CatenarySolver", ACatenarySolver)
}  // namespace
