// Cable elongation, reloading, line cables and sagging to constraints
#include "sag.h"

#include <cmath>

#include "models/sagtension/cable_component_elongation_model.h"
#include "models/sagtension/cable_strainer.h"
#include "models/sagtension/catenary_cable_reloader.h"
#include "models/sagtension/catenary_cable_unloader.h"
#include "models/sagtension/line_cable_reloader.h"
#include "models/sagtension/line_cable_sagger.h"
#include "models/sagtension/line_cable_unloader.h"

CableComponent MakeComponent(int kind, double f, double lim, double mc, double mt, double al, double sy, double m) {
  static const double creep[2][5] = {{47.1, 36211.3, 12201.4, -72392, 46338}, {-544.8, 21426.8, -18842.2, 5495, 0}};
  static const double load[2][5] = {{-69.3, 38629, 3998.1, -45713, 27892}, {-1213, 44308.1, -14004.4, -37618, 30676}};
  static const double limits[2][2] = {{22406, 19154}, {7535, 20252}};
  static const double alpha[2] = {0.0000064, 0.0000128};
  static const double tens[2] = {37000 * 100.0, 64000 * 100.0};
  static const double heat[2] = {74.3688, 324.3654};
  const double area = 0.7264;
  CableComponent c;
  for (int i = 0; i < 5; i++) {
    c.coefficients_polynomial_creep.push_back(creep[kind][i] * area * f * std::pow(m, i) / sy);
    c.coefficients_polynomial_loadstrain.push_back(load[kind][i] * area * f * std::pow(m, i) / sy);
  }
  c.capacity_heat = heat[kind];
  c.coefficient_expansion_linear_thermal = alpha[kind] * al;
  c.load_limit_polynomial_creep = limits[kind][0] * area * f * lim;
  c.load_limit_polynomial_loadstrain = limits[kind][1] * area * f * lim;
  c.modulus_compression_elastic_area = mc * 1e5 * area;
  c.modulus_tension_elastic_area = tens[kind] * area * f * mt;
  c.scale_polynomial_x = 0.01 * m;
  c.scale_polynomial_y = sy;
  return c;
}

const Cable* MakeCable(const Vd& v) {
  if (v.empty()) return nullptr;
  Cable* c = TheArena().Make<Cable>();
  const double mt[2] = {1.1, 1.0};
  for (int k = 0; k < 2; k++) {
    CableComponent x = MakeComponent(k, v[2 + k], v[6], v[4 + k], mt[k], 1, v[11], v[12]);
    if (v[k] < 0.5) {
      x.coefficients_polynomial_creep.assign(5, 0);
      x.coefficients_polynomial_loadstrain.assign(5, 0);
    }
    (k == 0 ? c->component_core : c->component_shell) = x;
  }
  c->area_physical = 0.7264 / 144;
  c->temperature_properties_components = v[7];
  c->weight_unit = v[8];
  c->diameter = v[9];
  c->strength_rated = v[10];
  c->absorptivity = 0.8;
  c->emissivity = 0.8;
  return c;
}
const SagTensionCable* MakeSagCable(const Vd& v) {
  if (v.empty()) return nullptr;
  SagTensionCable* s = TheArena().Make<SagTensionCable>();
  s->set_cable_base(MakeCable(v));
  return s;
}
SagTensionCableComponent::PolynomialType PolyType(double d) {
  typedef SagTensionCableComponent::PolynomialType T;
  return d < -0.5 || d > 1.5 ? T::kNull : d < 0.5 ? T::kCreep : T::kLoadStrain;
}
CableConditionType Condition(double d) {
  return d < -0.5 || d > 2.5 ? CableConditionType::kNull : d < 0.5 ? CableConditionType::kInitial
       : d < 1.5 ? CableConditionType::kCreep : CableConditionType::kLoad;
}
CableState MakeState(const Vd& v) {
  CableState s;
  if (!v.empty()) { s.temperature = v[0]; s.type_polynomial = PolyType(v[1]); }
  return s;
}
CableStretchState MakeStretch(const Vd& v) {
  CableStretchState s;
  if (!v.empty()) { s.temperature = v[0]; s.type_polynomial = PolyType(v[1]); s.load = v[2]; }
  return s;
}
const WeatherLoadCase* MakeCase(const Vd& v) {
  if (v.empty()) return nullptr;
  WeatherLoadCase* w = TheArena().Make<WeatherLoadCase>();
  w->thickness_ice = v[0];
  w->density_ice = v[1];
  w->pressure_wind = v[2];
  w->temperature_cable = v[3];
  return w;
}

static Vd Get(const std::map<std::string, Vd>& m, const std::string& k) {
  auto i = m.find(k);
  return i == m.end() ? Vd() : i->second;
}
static CableConstraint::LimitType LimitTypeOf(double d) {
  typedef CableConstraint::LimitType T;
  static const T t[5] = {T::kCatenaryConstant, T::kHorizontalTension, T::kLength, T::kSag, T::kSupportTension};
  return d < 0.5 || d > 5.5 ? T::kNull : t[(int)(d + 0.5) - 1];
}
// case values, then type of limit, condition, limit
static CableConstraint MakeConstraint(const Vd& wc, double type, double cond, double limit) {
  CableConstraint k;
  k.case_weather = MakeCase(wc);
  k.type_limit = LimitTypeOf(type);
  k.condition = Condition(cond);
  k.limit = limit;
  return k;
}
LineCable* LineSpec::Build() const {
  LineCable* l = TheArena().Make<LineCable>();
  l->set_cable(MakeCable(Get(in, "cable")));
  const Vd g = Get(in, "geometry");
  if (!g.empty()) l->set_spacing_attachments_ruling_span(Vector3d(g[0], 0, g[1]));
  l->set_weathercase_stretch_creep(MakeCase(Get(in, "creep")));
  l->set_weathercase_stretch_load(MakeCase(Get(in, "load")));
  const Vd k = Get(in, "constraint");
  CableConstraint con;
  if (!k.empty()) con = MakeConstraint(Get(in, "case"), k[0], k[1], k[2]);
  else con.case_weather = MakeCase(Get(in, "case"));
  l->set_constraint(con);
  // two structures with dead-end hardware, so that the cable can be valid
  Structure* s = TheArena().Make<Structure>();
  s->height = 100;
  StructureAttachment a;
  a.offset_longitudinal = a.offset_transverse = a.offset_vertical_top = 0;
  s->attachments.push_back(a);
  Hardware* h = TheArena().Make<Hardware>();
  h->type = Hardware::HardwareType::kDeadEnd;
  h->area_cross_section = 0;
  h->length = 0;
  h->weight = 0;
  for (int i = 0; i < 2; i++) {
    LineStructure* ls = TheArena().Make<LineStructure>();
    ls->set_station(1000 * i);
    ls->set_height_adjustment(0);
    ls->set_offset(0);
    ls->set_rotation(0);
    ls->set_structure(s);
    ls->AttachHardware(0, h);
    LineCableConnection c;
    c.line_structure = ls;
    c.index_attachment = 0;
    l->AddConnection(c);
  }
  return l;
}

namespace {
typedef CableElongationModel::ComponentType CT;
CT Part(double d) { return d < 0.5 ? CT::kCombined : d < 1.5 ? CT::kCore : CT::kShell; }

struct AComponent : AdaptorOf<AComponent> {
  CableComponentElongationModel s_;
  void Set(const std::string& s, const Vd& v) override {
    if (s == "component") {
      if (v.empty()) { s_.set_component_cable(nullptr); return; }
      SagTensionCableComponent* c = TheArena().Make<SagTensionCableComponent>();
      c->set_component_base(TheArena().Make<CableComponent>(
          MakeComponent(v[0] > 0.5, v[1], v[2], v[3], v[4], v[5], v[6], v[7])));
      s_.set_component_cable(c);
    } else if (s == "state") s_.set_state(v.empty() ? nullptr : TheArena().Make<CableState>(MakeState(v)));
    else if (s == "stretch") s_.set_state_stretch(v.empty() ? nullptr : TheArena().Make<CableStretchState>(MakeStretch(v)));
    else if (s == "tref") s_.set_temperature_reference(v.empty() ? nullptr : TheArena().Make<double>(v[0]));
    else Bad(s);
  }
  Vd Query(const std::string& q, const Vd& a) override {
    if (q == "load") return {s_.Load(a[0])};
    if (q == "strain") return {s_.Strain(a[0])};
    if (q == "slope") return {s_.Slope(a[0])};
    if (q == "thermal") return {s_.StrainThermal()};
    if (q == "points") { Vd r; for (const auto& p : s_.PointsRegions()) { r.push_back(p.x); r.push_back(p.y); } return r; }
    if (q == "get") return {s_.state()->temperature, s_.state_stretch()->load, *s_.temperature_reference()};
    Bad(q); return {};
  }
  bool Validate(bool w, std::list<ErrorMessage>* m) override { return s_.Validate(w, m); }
  std::vector<bool> Parts(bool w) override {
    std::vector<bool> r;
    if (s_.component_cable()) r.push_back(s_.component_cable()->Validate(w, nullptr));
    if (s_.state()) r.push_back(s_.state()->Validate(w, nullptr));
    if (s_.state_stretch()) r.push_back(s_.state_stretch()->Validate(w, nullptr));
    return r;
  }
};
REG_CLASS("Component", AComponent)

struct AElongation : AdaptorOf<AElongation> {
  CableElongationModel s_;
  void Set(const std::string& s, const Vd& v) override {
    if (s == "cable") s_.set_cable(MakeSagCable(v));
    else if (s == "state") s_.set_state(MakeState(v));
    else if (s == "stretch") s_.set_state_stretch(MakeStretch(v));
    else Bad(s);
  }
  Vd Query(const std::string& q, const Vd& a) override {
    if (q == "load") return {s_.Load(Part(a[0]), a[1])};
    if (q == "strain") return {s_.Strain(Part(a[0]), a[1])};
    if (q == "slope") return {s_.Slope(Part(a[0]), a[1])};
    if (q == "get") return {s_.state().temperature, s_.state_stretch().temperature, s_.state_stretch().load, *s_.cable()->strength_rated()};
    Bad(q); return {};
  }
  bool Validate(bool w, std::list<ErrorMessage>* m) override { return s_.Validate(w, m); }
  std::vector<bool> Parts(bool w) override {
    std::vector<bool> r{s_.state().Validate(w, nullptr), s_.state_stretch().Validate(w, nullptr)};
    if (s_.cable()) r.push_back(s_.cable()->Validate(w, nullptr));
    return r;
  }
};
REG_CLASS("Elongation", AElongation)

// v: temperature, type, stretch temperature, stretch type, stretch load
const CableElongationModel* Model(const SagTensionCable* c, const Vd& v) {
  if (v.empty()) return nullptr;
  CableElongationModel* m = TheArena().Make<CableElongationModel>();
  m->set_cable(c);
  m->set_state(MakeState({v[0], v[1]}));
  m->set_state_stretch(MakeStretch({v[2], v[3], v[4]}));
  return m;
}
struct Models {
  const SagTensionCable* cable = nullptr;
  Vd start, finish;
};

struct AStrainer : AdaptorOf<AStrainer> {
  CableStrainer s_;
  Models m_;
  void Set(const std::string& s, const Vd& v) override {
    if (s == "cable") { m_.cable = MakeSagCable(v); s_.set_model_start(Model(m_.cable, m_.start)); s_.set_model_finish(Model(m_.cable, m_.finish)); }
    else if (s == "start") { m_.start = v; s_.set_model_start(Model(m_.cable, v)); }
    else if (s == "finish") { m_.finish = v; s_.set_model_finish(Model(m_.cable, v)); }
    else if (s == "length") s_.set_length_start(v.empty() ? -999999 : v[0]);
    else if (s == "loads") { s_.set_load_start(v.empty() ? -999999 : v[0]); s_.set_load_finish(v.empty() ? -999999 : v[1]); }
    else Bad(s);
  }
  Vd Query(const std::string& q, const Vd&) override {
    if (q == "length") return {s_.LengthFinish()};
    if (q == "get") return {s_.length_start(), s_.load_start(), s_.load_finish(), s_.model_start()->state().temperature, s_.model_finish()->state().temperature};
    Bad(q); return {};
  }
  bool Validate(bool w, std::list<ErrorMessage>* m) override { return s_.Validate(w, m); }
  std::vector<bool> Parts(bool w) override {
    std::vector<bool> r;
    if (s_.model_start()) r.push_back(s_.model_start()->Validate(w, nullptr));
    if (s_.model_finish()) r.push_back(s_.model_finish()->Validate(w, nullptr));
    return r;
  }
};
REG_CLASS("Strainer", AStrainer)

// v: spacing x, z, load transverse, vertical, tension
const Catenary3d* Cat(const Vd& v) {
  if (v.empty()) return nullptr;
  Catenary3d* c = TheArena().Make<Catenary3d>();
  c->set_spacing_endpoints(Vector3d(v[0], 0, v[1]));
  c->set_weight_unit(Vector3d(0, v[2], v[3]));
  c->set_tension_horizontal(v[4]);
  return c;
}

struct AUnloader : AdaptorOf<AUnloader> {
  CatenaryCableUnloader s_;
  Models m_;
  void Set(const std::string& s, const Vd& v) override {
    if (s == "cable") { m_.cable = MakeSagCable(v); s_.set_model_reference(Model(m_.cable, m_.start)); s_.set_model_unloaded(Model(m_.cable, m_.finish)); }
    else if (s == "start") { m_.start = v; s_.set_model_reference(Model(m_.cable, v)); }
    else if (s == "finish") { m_.finish = v; s_.set_model_unloaded(Model(m_.cable, v)); }
    else if (s == "catenary") s_.set_catenary(Cat(v));
    else Bad(s);
  }
  Vd Query(const std::string& q, const Vd&) override {
    if (q == "length") return {s_.LengthUnloaded()};
    if (q == "get") return {s_.catenary()->tension_horizontal(), s_.model_reference()->state().temperature, s_.model_unloaded()->state().temperature};
    Bad(q); return {};
  }
  bool Validate(bool w, std::list<ErrorMessage>* m) override { return s_.Validate(w, m); }
  std::vector<bool> Parts(bool w) override {
    std::vector<bool> r;
    if (s_.catenary()) r.push_back(s_.catenary()->Validate(w, nullptr));
    if (s_.model_reference()) r.push_back(s_.model_reference()->Validate(w, nullptr));
    if (s_.model_unloaded()) r.push_back(s_.model_unloaded()->Validate(w, nullptr));
    return r;
  }
};
REG_CLASS("Unloader", AUnloader)

struct AReloader : AdaptorOf<AReloader> {
  CatenaryCableReloader s_;
  Models m_;
  void Set(const std::string& s, const Vd& v) override {
    if (s == "cable") { m_.cable = MakeSagCable(v); s_.set_model_reference(Model(m_.cable, m_.start)); s_.set_model_reloaded(Model(m_.cable, m_.finish)); }
    else if (s == "start") { m_.start = v; s_.set_model_reference(Model(m_.cable, v)); }
    else if (s == "finish") { m_.finish = v; s_.set_model_reloaded(Model(m_.cable, v)); }
    else if (s == "catenary") s_.set_catenary(Cat(v));
    else if (s == "weight") s_.set_weight_unit_reloaded(v.empty() ? nullptr : TheArena().Make<Vector3d>(Vector3d(0, v[0], v[1])));
    else Bad(s);
  }
  Vd Query(const std::string& q, const Vd&) override {
    if (q == "tension") return {s_.TensionHorizontal()};
    if (q == "catenary") {
      const Catenary3d c = s_.CatenaryReloaded();
      return {c.tension_horizontal(), c.spacing_endpoints().x(), c.spacing_endpoints().z(), c.weight_unit().y(), c.weight_unit().z(), c.Length()};
    }
    if (q == "unloaded") { const double l = s_.LengthUnloaded(); return {s_.TensionHorizontal(), l}; }
    if (q == "get") return {s_.catenary()->tension_horizontal(), s_.model_reference()->state().temperature, s_.model_reloaded()->state().temperature, s_.weight_unit_reloaded()->z()};
    Bad(q); return {};
  }
  bool Validate(bool w, std::list<ErrorMessage>* m) override { return s_.Validate(w, m); }
  std::vector<bool> Parts(bool w) override {
    std::vector<bool> r;
    if (s_.catenary()) r.push_back(s_.catenary()->Validate(w, nullptr));
    if (s_.model_reference()) r.push_back(s_.model_reference()->Validate(w, nullptr));
    if (s_.model_reloaded()) r.push_back(s_.model_reloaded()->Validate(w, nullptr));
    return r;
  }
};
REG_CLASS("Reloader", AReloader)

struct ARulingSpan : AdaptorOf<ARulingSpan> {
  LineCable s_;
  LineSpec l_;
  std::string Group(const std::string& s) const override { return l_.Has(s) ? "line" : s; }
  void Set(const std::string& s, const Vd& v) override {
    if (!l_.Has(s)) Bad(s);
    l_.in[s] = v;
    // through the setters of this line cable
    const LineCable* b = l_.Build();
    s_.set_cable(b->cable());
    s_.set_spacing_attachments_ruling_span(b->spacing_attachments_ruling_span());
    s_.set_weathercase_stretch_creep(b->weathercase_stretch_creep());
    s_.set_weathercase_stretch_load(b->weathercase_stretch_load());
    s_.set_constraint(b->constraint());
    s_.ClearConnections();
    for (const auto& c : *b->connections()) s_.AddConnection(c);
  }
  Vd Query(const std::string& q, const Vd&) override {
    if (q == "catenary") {
      const Catenary3d c = s_.CatenaryRulingSpan();
      return {c.tension_horizontal(), c.spacing_endpoints().x(), c.spacing_endpoints().z(), c.weight_unit().y(), c.weight_unit().z()};
    }
    if (q == "get") return {s_.cable()->weight_unit, s_.spacing_attachments_ruling_span().x(), s_.weathercase_stretch_creep()->temperature_cable,
                            s_.weathercase_stretch_load()->temperature_cable, s_.constraint().limit, s_.constraint().case_weather->temperature_cable};
    Bad(q); return {};
  }
  bool Validate(bool w, std::list<ErrorMessage>* m) override { return s_.Validate(w, m); }
  std::vector<bool> Parts(bool w) override {
    std::vector<bool> r;
    r.push_back(s_.constraint().Validate(w, nullptr));
    if (s_.cable()) r.push_back(s_.cable()->Validate(w, nullptr));
    if (s_.weathercase_stretch_creep()) r.push_back(s_.weathercase_stretch_creep()->Validate(w, nullptr));
    if (s_.weathercase_stretch_load()) r.push_back(s_.weathercase_stretch_load()->Validate(w, nullptr));
    return r;
  }
};
REG_CLASS("RulingSpan", ARulingSpan)

struct ALineReloader : AdaptorOf<ALineReloader> {
  LineCableReloader s_;
  LineSpec l_;
  std::string Group(const std::string& s) const override { return l_.Has(s) ? "line" : s; }
  void Set(const std::string& s, const Vd& v) override {
    if (l_.Has(s)) { l_.in[s] = v; s_.set_line_cable(l_.Build()); }
    else if (s == "weather") s_.set_weathercase_reloaded(MakeCase(v));
    else if (s == "condition") s_.set_condition_reloaded(v.empty() ? CableConditionType::kNull : Condition(v[0]));
    else Bad(s);
  }
  // after the answers: creep stretch load, load stretch load, horizontal tension,
  // horizontal tension of the constraint catenary
  Vd Query(const std::string& q, const Vd& a) override {
    Vd r;
    if (q == "tension") r = {s_.TensionHorizontal()};
    else if (q == "catenary") {
      const Catenary3d c = s_.CatenaryReloaded();
      r = {c.tension_horizontal(), c.spacing_endpoints().x(), c.spacing_endpoints().z(), c.weight_unit().y(), c.weight_unit().z()};
    } else if (q == "avg") r = {s_.TensionAverageComponent(Part(a[0]))};
    else if (q == "horizontal") r = {s_.TensionHorizontalComponent(Part(a[0]))};
    else if (q == "state") { const CableState t = s_.StateReloaded(); r = {t.temperature, (double)(t.type_polynomial == SagTensionCableComponent::PolynomialType::kLoadStrain)}; }
    else if (q == "creep" || q == "load") {
      const CableStretchState t = q == "creep" ? s_.StretchStateCreep() : s_.StretchStateLoad();
      r = {t.temperature, (double)(t.type_polynomial == SagTensionCableComponent::PolynomialType::kLoadStrain), t.load};
    } else if (q == "get") return {s_.weathercase_reloaded()->temperature_cable, (double)(s_.condition_reloaded() == CableConditionType::kInitial), s_.line_cable()->constraint().limit};
    else Bad(q);
    r.push_back(s_.StretchStateCreep().load);
    r.push_back(s_.StretchStateLoad().load);
    r.push_back(s_.TensionHorizontal());
    r.push_back(s_.line_cable()->CatenaryRulingSpan().tension_horizontal());
    return r;
  }
  bool Validate(bool w, std::list<ErrorMessage>* m) override { return s_.Validate(w, m); }
  std::vector<bool> Parts(bool w) override {
    std::vector<bool> r;
    if (s_.line_cable()) r.push_back(s_.line_cable()->Validate(w, nullptr));
    if (s_.weathercase_reloaded()) r.push_back(s_.weathercase_reloaded()->Validate(w, nullptr));
    return r;
  }
};
REG_CLASS("LineReloader", ALineReloader)

struct ALineUnloader : AdaptorOf<ALineUnloader> {
  LineCableUnloader s_;
  LineSpec l_;
  std::string Group(const std::string& s) const override { return l_.Has(s) ? "line" : s; }
  void Set(const std::string& s, const Vd& v) override {
    if (l_.Has(s)) { l_.in[s] = v; s_.set_line_cable(l_.Build()); }
    else if (s == "spacing") s_.set_spacing_attachments(v.empty() ? Vector3d() : Vector3d(v[0], 0, v[1]));
    else if (s == "temperature") s_.set_temperature_unloaded(v.empty() ? -999999 : v[0]);
    else if (s == "condition") s_.set_condition_unloaded(v.empty() ? CableConditionType::kNull : Condition(v[0]));
    else Bad(s);
  }
  Vd Query(const std::string& q, const Vd&) override {
    Vd r;
    if (q == "length") r = {s_.LengthUnloaded()};
    else if (q == "creep" || q == "load") {
      const CableStretchState t = q == "creep" ? s_.StretchStateCreep() : s_.StretchStateLoad();
      r = {t.temperature, (double)(t.type_polynomial == SagTensionCableComponent::PolynomialType::kLoadStrain), t.load};
    } else if (q == "get") return {s_.spacing_attachments().x(), s_.temperature_unloaded(), (double)(s_.condition_unloaded() == CableConditionType::kInitial), s_.line_cable()->constraint().limit};
    else Bad(q);
    r.push_back(s_.StretchStateCreep().load);
    r.push_back(s_.StretchStateLoad().load);
    r.push_back(s_.LengthUnloaded());
    r.push_back(s_.line_cable()->CatenaryRulingSpan().tension_horizontal());
    return r;
  }
  bool Validate(bool w, std::list<ErrorMessage>* m) override { return s_.Validate(w, m); }
  std::vector<bool> Parts(bool w) override {
    std::vector<bool> r;
    if (s_.line_cable()) r.push_back(s_.line_cable()->Validate(w, nullptr));
    return r;
  }
};
REG_CLASS("LineUnloader", ALineUnloader)

// constraints: per constraint ice thickness, density, wind, temperature, type,
// condition, limit
struct ASagger : AdaptorOf<ASagger> {
  LineCableSagger s_;
  LineSpec l_;
  // a sagger writes the limit of its line cable, so a copy is given its own
  void Own() { if (s_.line_cable()) s_.set_line_cable(l_.Build()); }
  Adaptor* Clone() const override { ASagger* c = new ASagger(*this); c->Own(); return c; }
  void Assign(const Adaptor& that) override {
    const ASagger& t = static_cast<const ASagger&>(that);
    if (&t == this) { s_ = t.s_; return; }
    *this = t;
    Own();
  }
  std::string Group(const std::string& s) const override { return l_.Has(s) ? "line" : s; }
  const std::vector<CableConstraint>* k_ = nullptr;
  void Set(const std::string& s, const Vd& v) override {
    if (s == "constraints") {
      std::vector<CableConstraint>* k = nullptr;
      if (!v.empty()) {
        k = TheArena().Make<std::vector<CableConstraint>>();
        for (size_t i = 0; i + 6 < v.size(); i += 7)
          k->push_back(MakeConstraint({v[i], v[i + 1], v[i + 2], v[i + 3]}, v[i + 4], v[i + 5], v[i + 6]));
      }
      k_ = k;
      s_.set_constraints_design(k);
    } else if (l_.Has(s)) {
      l_.in[s] = v;
      s_.set_line_cable(l_.Build());
    } else Bad(s);
  }
  // after the answers: the controlling index, the limit of the sagged line cable,
  // its stretch loads, the horizontal tension of its ruling span
  // and the horizontal tension of its catenary under each design constraint
  Vd Query(const std::string& q, const Vd& a) override {
    Vd r;
    const int n = k_ ? k_->size() : 0;
    const int i = n == 0 || a.empty() ? 0 : ((int)a[0]) % n;
    if (q == "index") r = {(double)s_.IndexConstraintControlling()};
    else if (q == "limit") r = {s_.LimitConstraintSaggedLineCable()};
    else if (q == "capacity") r = {s_.CapacityAllowable(i)};
    else if (q == "constant") r = {s_.CatenaryConstantActual(i)};
    else if (q == "tension") r = {s_.TensionHorizontalActual(i)};
    else if (q == "support") r = {s_.TensionSupportActual(i)};
    else Bad(q);
    r.push_back(s_.IndexConstraintControlling());
    LineCableReloader l;
    l.set_line_cable(s_.line_cable());
    l.set_weathercase_reloaded(s_.line_cable()->constraint().case_weather);
    l.set_condition_reloaded(CableConditionType::kInitial);
    // (a sagger that fails leaves the limit of its line cable as it finds it)
    if (s_.IndexConstraintControlling() < 0) return r;
    r.push_back(s_.line_cable()->constraint().limit);
    r.push_back(l.StretchStateCreep().load);
    r.push_back(l.StretchStateLoad().load);
    r.push_back(s_.line_cable()->CatenaryRulingSpan().tension_horizontal());
    for (int j = 0; j < n; j++) r.push_back(s_.TensionHorizontalActual(j));
    return r;
  }
  bool Validate(bool w, std::list<ErrorMessage>* m) override { return s_.Validate(w, m); }
  std::vector<bool> Parts(bool w) override {
    std::vector<bool> r;
    if (s_.line_cable()) r.push_back(s_.line_cable()->Validate(w, nullptr));
    if (k_) for (const auto& k : *k_) r.push_back(k.Validate(w, nullptr));
    return r;
  }
};
REG_CLASS("Sagger", ASagger)
}  // namespace
