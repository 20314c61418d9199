// Validation of the value structures: fields, and parts with their fields.
// A slot that is not set (or empty) leaves the structure's default.
#include "models/thermalrating/cable_heat_transfer_state.h"
#include "models/thermalrating/thermal_rating_cable.h"
#include "models/thermalrating/thermal_rating_weather.h"
#include "models/transmissionline/alignment.h"
#include "sag.h"

namespace {
typedef std::map<std::string, Vd> In;
typedef std::list<ErrorMessage> Messages;
// a structure is built anew for every validation
template <class D>
struct Value : AdaptorOf<D> {
  In in;
  void Set(const std::string& s, const Vd& v) override { in[s] = v; }
  Vd Query(const std::string& q, const Vd&) override { this->Bad(q); return {}; }
  bool Has(const std::string& s) const { return in.count(s) && !in.at(s).empty(); }
  const Vd& At(const std::string& s) const { return in.at(s); }
  void Num(const std::string& s, double* x) const { if (Has(s)) *x = At(s)[0]; }
};
double I(double x, int n) { return x < -0.5 || x > n + 0.5 ? -1 : (int)(x + 0.5); }

struct AAlignmentPoint : Value<AAlignmentPoint> {
  bool Validate(bool w, Messages* m) override {
    AlignmentPoint x;
    Num("station", &x.station); Num("rotation", &x.rotation); Num("elevation", &x.elevation);
    return x.Validate(w, m);
  }
};
REG_CLASS("AlignmentPoint", AAlignmentPoint)

// points: station, rotation, elevation
struct AAlignment : Value<AAlignment> {
  bool Validate(bool w, Messages* m) override {
    Alignment x;
    if (Has("points")) for (size_t i = 0; i + 2 < At("points").size(); i += 3) {
      AlignmentPoint p;
      p.station = At("points")[i]; p.rotation = At("points")[i + 1]; p.elevation = At("points")[i + 2];
      x.AddPoint(p);
    }
    return x.Validate(w, m);
  }
};
REG_CLASS("Alignment", AAlignment)

Hardware MakeHardware(const double* v) {
  static const Hardware::HardwareType t[4] = {Hardware::HardwareType::kNull, Hardware::HardwareType::kDeadEnd, Hardware::HardwareType::kDeadEnd, Hardware::HardwareType::kSuspension};
  Hardware h;
  h.area_cross_section = v[0]; h.length = v[1]; h.weight = v[2];
  h.type = t[std::max(0, (int)I(v[3], 3))];
  return h;
}
struct AHardware : Value<AHardware> {
  bool Validate(bool w, Messages* m) override {
    Hardware x;
    if (Has("all")) x = MakeHardware(&At("all")[0]);
    Num("length", &x.length);
    return x.Validate(w, m);
  }
};
REG_CLASS("Hardware", AHardware)

// height, then the offsets from the top
Structure MakeStructure(const Vd& v) {
  Structure s;
  s.height = v[0];
  for (size_t i = 1; i < v.size(); i++) {
    StructureAttachment a;
    a.offset_longitudinal = a.offset_transverse = 0;
    a.offset_vertical_top = v[i];
    s.attachments.push_back(a);
  }
  return s;
}
struct AStructureAttachment : Value<AStructureAttachment> {
  bool Validate(bool w, Messages* m) override {
    StructureAttachment x;
    Num("top", &x.offset_vertical_top);
    return x.Validate(w, m);
  }
};
REG_CLASS("StructureAttachment", AStructureAttachment)
struct AStructure : Value<AStructure> {
  bool Validate(bool w, Messages* m) override {
    Structure x;
    if (Has("all")) x = MakeStructure(At("all"));
    return x.Validate(w, m);
  }
};
REG_CLASS("Structure", AStructure)

// hardware: area, length, weight, type, per attachment
struct ALineStructure : Value<ALineStructure> {
  bool Validate(bool w, Messages* m) override {
    LineStructure x;
    Structure s;
    std::list<Hardware> hs;
    double d;
    if (Has("adjust")) { Num("adjust", &d); x.set_height_adjustment(d); }
    if (Has("rotation")) { Num("rotation", &d); x.set_rotation(d); }
    if (Has("station")) { Num("station", &d); x.set_station(d); }
    if (Has("structure")) { s = MakeStructure(At("structure")); x.set_structure(&s); }
    if (Has("hardware")) for (size_t i = 0; i + 3 < At("hardware").size(); i += 4) {
      hs.push_back(MakeHardware(&At("hardware")[i]));
      x.AttachHardware(i / 4, &hs.back());
    }
    return x.Validate(w, m);
  }
};
REG_CLASS("LineStructure", ALineStructure)

struct AWeatherCase : Value<AWeatherCase> {
  bool Validate(bool w, Messages* m) override {
    WeatherLoadCase x;
    Num("ice", &x.thickness_ice); Num("density", &x.density_ice); Num("wind", &x.pressure_wind); Num("temperature", &x.temperature_cable);
    return x.Validate(w, m);
  }
};
REG_CLASS("WeatherCase", AWeatherCase)

// case: ice thickness, density, wind, temperature
struct AConstraint : Value<AConstraint> {
  bool Validate(bool w, Messages* m) override {
    typedef CableConstraint::LimitType T;
    static const T t[6] = {T::kNull, T::kCatenaryConstant, T::kHorizontalTension, T::kLength, T::kSag, T::kSupportTension};
    CableConstraint x;
    if (Has("case")) x.case_weather = MakeCase(At("case"));
    if (Has("condition")) x.condition = Condition(At("condition")[0]);
    if (Has("type")) x.type_limit = t[std::max(0, (int)I(At("type")[0], 5))];
    Num("limit", &x.limit);
    return x.Validate(w, m);
  }
};
REG_CLASS("Constraint", AConstraint)

struct ACableValue : Value<ACableValue> {
  bool Validate(bool w, Messages* m) override {
    Cable x;
    Num("area", &x.area_physical); Num("diameter", &x.diameter); Num("weight", &x.weight_unit);
    return x.Validate(w, m);
  }
};
REG_CLASS("CableValue", ACableValue)

// expansion, creep limit, load limit, compression modulus, tension modulus,
// x scale, y scale, number of creep coefficients, of load-strain coefficients, their value
CableComponent MakeLoose(const Vd& v) {
  CableComponent c;
  c.coefficient_expansion_linear_thermal = v[0];
  c.load_limit_polynomial_creep = v[1];
  c.load_limit_polynomial_loadstrain = v[2];
  c.modulus_compression_elastic_area = v[3];
  c.modulus_tension_elastic_area = v[4];
  c.scale_polynomial_x = v[5];
  c.scale_polynomial_y = v[6];
  c.coefficients_polynomial_creep.assign(std::max(0.0, std::min(9.0, v[7])), v[9]);
  c.coefficients_polynomial_loadstrain.assign(std::max(0.0, std::min(9.0, v[8])), v[9]);
  return c;
}
struct ASagComponent : Value<ASagComponent> {
  bool Validate(bool w, Messages* m) override {
    SagTensionCableComponent x;
    CableComponent c;
    if (Has("base")) { c = MakeLoose(At("base")); x.set_component_base(&c); }
    return x.Validate(w, m);
  }
};
REG_CLASS("SagComponent", ASagComponent)
// base: area, diameter, weight, strength, temperature
struct ASagCable : Value<ASagCable> {
  bool Validate(bool w, Messages* m) override {
    SagTensionCable x;
    Cable c;
    if (Has("core")) c.component_core = MakeLoose(At("core"));
    if (Has("shell")) c.component_shell = MakeLoose(At("shell"));
    if (Has("base")) {
      const Vd& v = At("base");
      c.area_physical = v[0]; c.diameter = v[1]; c.weight_unit = v[2]; c.strength_rated = v[3]; c.temperature_properties_components = v[4];
      x.set_cable_base(&c);
    }
    return x.Validate(w, m);
  }
};
REG_CLASS("SagCable", ASagCable)

struct AState : Value<AState> {
  bool Validate(bool w, Messages* m) override {
    CableState x;
    Num("temperature", &x.temperature);
    if (Has("type")) x.type_polynomial = PolyType(At("type")[0]);
    return x.Validate(w, m);
  }
};
REG_CLASS("State", AState)
struct AStretch : Value<AStretch> {
  bool Validate(bool w, Messages* m) override {
    CableStretchState x;
    Num("temperature", &x.temperature); Num("load", &x.load);
    if (Has("type")) x.type_polynomial = PolyType(At("type")[0]);
    return x.Validate(w, m);
  }
};
REG_CLASS("Stretch", AStretch)

struct ARatingWeather : Value<ARatingWeather> {
  bool Validate(bool w, Messages* m) override {
    ThermalRatingWeather x;
    Num("angle", &x.angle_wind); Num("elevation", &x.elevation); Num("sun", &x.radiation_solar); Num("wind", &x.speed_wind); Num("air", &x.temperature_air);
    return x.Validate(w, m);
  }
};
REG_CLASS("RatingWeather", ARatingWeather)
struct AHeatState : Value<AHeatState> {
  bool Validate(bool w, Messages* m) override {
    CableHeatTransferState x;
    Num("convection", &x.heat_convection); Num("radiation", &x.heat_radiation); Num("resistance", &x.heat_resistance); Num("solar", &x.heat_solar); Num("storage", &x.heat_storage);
    return x.Validate(w, m);
  }
};
REG_CLASS("HeatState", AHeatState)

// slots of LineSpec: cable (see sag.h), geometry, creep, load, case, constraint
struct ALineCable : Value<ALineCable> {
  bool Validate(bool w, Messages* m) override {
    LineSpec l;
    l.in = in;
    return l.Build()->Validate(w, m);
  }
};
REG_CLASS("LineCable", ALineCable)
}  // namespace
