// Thermal rating: cable heat transfer, steady and transient temperatures, sun
#include "models/thermalrating/cable_heat_transfer_solver.h"
#include "models/thermalrating/solar_radiation_solver.h"
#include "models/thermalrating/steady_cable_current_solver.h"
#include "models/thermalrating/steady_cable_temperature_solver.h"
#include "models/thermalrating/transient_cable_temperature_solver.h"
#include "sag.h"

namespace {
// slots cable (diameter, absorptivity, emissivity, heat capacity of core and
// shell) and resist (temperature, resistance, then increments)
struct ThermalSpec {
  std::map<std::string, Vd> in;
  bool Has(const std::string& s) const { return s == "cable" || s == "resist"; }
  const Cable* Base() const {
    const Vd none;
    const Vd& v = in.count("cable") ? in.at("cable") : none;
    const Vd& r = in.count("resist") ? in.at("resist") : none;
    if (v.empty()) return nullptr;
    Cable* c = TheArena().Make<Cable>();
    c->component_core = MakeComponent(0, 1, 1, 1, 1, 1, 1, 1);
    c->component_shell = MakeComponent(1, 1, 1, 1, 1, 1, 1, 1);
    c->area_physical = 0.005;
    c->temperature_properties_components = 70;
    c->weight_unit = 1.1;
    c->strength_rated = 30000;
    c->diameter = v[0];
    c->absorptivity = v[1];
    c->emissivity = v[2];
    c->component_core.capacity_heat = v[3];
    c->component_shell.capacity_heat = v[4];
    double t = 0, o = 0;
    for (size_t k = 0; k + 1 < r.size(); k += 2) {
      t += r[k];
      o += r[k + 1];
      Cable::ResistancePoint p;
      p.temperature = t;
      p.resistance = o;
      c->resistances_ac.push_back(p);
    }
    return c;
  }
  const ThermalRatingCable* Build() const {
    const Cable* b = Base();
    if (b == nullptr) return nullptr;
    ThermalRatingCable* c = TheArena().Make<ThermalRatingCable>();
    c->set_cable_base(b);
    return c;
  }
};
const ThermalRatingWeather* Weather(const Vd& v) {
  if (v.empty()) return nullptr;
  ThermalRatingWeather* w = TheArena().Make<ThermalRatingWeather>();
  w->angle_wind = v[0];
  w->elevation = v[1];
  w->radiation_solar = v[2];
  w->speed_wind = v[3];
  w->temperature_air = v[4];
  return w;
}
units::UnitSystem Units(const Vd& v) {
  if (v.empty() || v[0] < 0.5 || v[0] > 2.5) return units::UnitSystem::kNull;
  return v[0] < 1.5 ? units::UnitSystem::kImperial : units::UnitSystem::kMetric;
}
double One(const Vd& v) { return v.empty() ? -999999 : v[0]; }
double UnitsOut(units::UnitSystem u) { return u == units::UnitSystem::kImperial ? 1 : u == units::UnitSystem::kMetric ? 2 : 0; }
double WeatherOut(const ThermalRatingWeather* w) { return w == nullptr ? 0 : w->temperature_air; }
double CableOut(const ThermalRatingCable* c) { return c == nullptr ? 0 : *c->diameter(); }
Vd State(const CableHeatTransferState& s) { return {s.heat_convection, s.heat_radiation, s.heat_resistance, s.heat_solar, s.heat_storage}; }

struct AThermalCable : AdaptorOf<AThermalCable> {
  ThermalRatingCable s_;
  ThermalSpec t_;
  std::string Group(const std::string&) const override { return "cable"; }
  void Set(const std::string& s, const Vd& v) override {
    if (!t_.Has(s)) Bad(s);
    t_.in[s] = v;
    s_.set_cable_base(t_.Base());
  }
  Vd Query(const std::string& q, const Vd& a) override {
    if (q == "resistance") return {s_.Resistance(a[0])};
    if (q == "get") {
      Vd r = {*s_.diameter(), *s_.absorptivity(), *s_.emissivity(), *s_.component_core()->capacity_heat(), *s_.component_shell()->capacity_heat(), (double)s_.resistances_ac()->size()};
      for (const auto& p : *s_.resistances_ac()) { r.push_back(p.temperature); r.push_back(p.resistance); }
      return r;
    }
    Bad(q); return {};
  }
  bool Validate(bool w, std::list<ErrorMessage>* m) override { return s_.Validate(w, m); }
  std::vector<bool> Parts(bool w) override {
    std::vector<bool> r;
    if (s_.cable_base()) r.push_back(s_.cable_base()->Validate(w, nullptr));
    r.push_back(s_.component_core()->Validate(w, nullptr));
    r.push_back(s_.component_shell()->Validate(w, nullptr));
    return r;
  }
};
REG_CLASS("ThermalCable", AThermalCable)

// inputs shared by the heat transfer classes
template <class D, class T>
struct Heat : AdaptorOf<D> {
  T s_;
  ThermalSpec t_;
  std::string Group(const std::string& s) const override { return t_.Has(s) ? "cable" : s; }
  virtual bool More(const std::string&, const Vd&) { return false; }
  void Set(const std::string& s, const Vd& v) override {
    if (t_.Has(s)) { t_.in[s] = v; s_.set_cable(t_.Build()); }
    else if (s == "weather") s_.set_weather(Weather(v));
    else if (s == "units") s_.set_units(Units(v));
    else if (!More(s, v)) this->Bad(s);
  }
  bool Validate(bool w, std::list<ErrorMessage>* m) override { return s_.Validate(w, m); }
  std::vector<bool> Parts(bool w) override {
    std::vector<bool> r;
    if (s_.cable()) r.push_back(s_.cable()->Validate(w, nullptr));
    if (s_.weather()) r.push_back(s_.weather()->Validate(w, nullptr));
    return r;
  }
  Vd Common() const { return {CableOut(s_.cable()), WeatherOut(s_.weather()), UnitsOut(s_.units())}; }
};

struct AHeat : Heat<AHeat, CableHeatTransferSolver> {
  Vd Query(const std::string& q, const Vd& a) override {
    if (q == "convection") return {s_.HeatConvection(a[0])};
    if (q == "radiation") return {s_.HeatRadiation(a[0])};
    if (q == "resistance") return {s_.HeatResistance(a[0], a[1])};
    if (q == "solar") return {s_.HeatSolar()};
    if (q == "stored") return {s_.HeatStored(a[0], a[1])};
    if (q == "get") return Common();
    Bad(q); return {};
  }
};
REG_CLASS("HeatSolver", AHeat)

struct ASteadyCurrent : Heat<ASteadyCurrent, SteadyCableCurrentSolver> {
  bool More(const std::string& s, const Vd& v) override {
    if (s != "temperature") return false;
    s_.set_temperature_cable(One(v));
    return true;
  }
  Vd Query(const std::string& q, const Vd&) override {
    if (q == "current") return {s_.Current()};
    if (q == "state") return State(s_.StateHeatTransfer());
    if (q == "get") { Vd r = Common(); r.push_back(s_.temperature_cable()); return r; }
    Bad(q); return {};
  }
};
REG_CLASS("SteadyCurrent", ASteadyCurrent)

struct ASteadyTemperature : Heat<ASteadyTemperature, SteadyCableTemperatureSolver> {
  bool More(const std::string& s, const Vd& v) override {
    if (s != "current") return false;
    s_.set_current(One(v));
    return true;
  }
  Vd Query(const std::string& q, const Vd&) override {
    if (q == "temperature") return {s_.TemperatureCable()};
    if (q == "state") {
      Vd r = State(s_.StateHeatTransfer());
      r.push_back(s_.TemperatureCable());
      return r;
    }
    if (q == "get") { Vd r = Common(); r.push_back(s_.current()); return r; }
    Bad(q); return {};
  }
};
REG_CLASS("SteadyTemperature", ASteadyTemperature)

struct ATransient : Heat<ATransient, TransientCableTemperatureSolver> {
  bool More(const std::string& s, const Vd& v) override {
    if (s == "steady") s_.set_current_steady(One(v));
    else if (s == "step") s_.set_current_step(One(v));
    else if (s == "duration") s_.set_duration(v.empty() ? -9999 : (int)v[0]);
    else return false;
    return true;
  }
  Vd Query(const std::string& q, const Vd&) override {
    if (q == "points") {
      Vd r;
      const std::list<TemperaturePoint>* p = s_.PointsTemperature();
      if (p == nullptr) return {-999999};
      for (const TemperaturePoint& x : *p) { r.push_back(x.time); r.push_back(x.temperature); }
      return r;
    }
    if (q == "get") { Vd r = Common(); r.push_back(s_.current_steady()); r.push_back(s_.current_step()); r.push_back(s_.duration()); return r; }
    Bad(q); return {};
  }
};
REG_CLASS("Transient", ATransient)

struct ASolar : AdaptorOf<ASolar> {
  SolarRadiationSolver s_;
  void Set(const std::string& s, const Vd& v) override {
    if (s == "azimuth") s_.set_azimuth_cable(One(v));
    else if (s == "day") s_.set_day(v.empty() ? -9999 : (int)v[0]);
    else if (s == "elevation") s_.set_elevation(One(v));
    else if (s == "hour") s_.set_hour(v.empty() ? -9999 : (int)v[0]);
    else if (s == "latitude") s_.set_latitude(One(v));
    else if (s == "quality") s_.set_quality_atmosphere(v.empty() || v[0] < 0.5 || v[0] > 2.5 ? AtmosphereQualityType::kNull : v[0] < 1.5 ? AtmosphereQualityType::kClear : AtmosphereQualityType::kIndustrial);
    else if (s == "units") s_.set_units(Units(v));
    else Bad(s);
  }
  Vd Query(const std::string& q, const Vd&) override {
    if (q == "altitude") return {s_.AltitudeSun()};
    if (q == "azimuth") return {s_.AzimuthSun()};
    if (q == "radiation") return {s_.Radiation()};
    if (q == "get") return {s_.azimuth_cable(), (double)s_.day(), s_.elevation(), (double)s_.hour(), s_.latitude(),
                            s_.quality() == AtmosphereQualityType::kClear ? 1.0 : s_.quality() == AtmosphereQualityType::kIndustrial ? 2.0 : 0.0, UnitsOut(s_.units())};
    Bad(q); return {};
  }
  bool Validate(bool w, std::list<ErrorMessage>* m) override { return s_.Validate(w, m); }
};
REG_CLASS("Solar", ASolar)
}  // namespace
