// CableAttachmentEquilibriumSolver, CablePositionLocator
#include "models/transmissionline/cable_attachment_equilibrium_solver.h"
#include "models/transmissionline/cable_position_locator.h"
#include "obj.h"

namespace {
AxisDirectionType Dir(double d) { return d > 0.5 ? AxisDirectionType::kPositive : d < -0.5 ? AxisDirectionType::kNull : AxisDirectionType::kNegative; }

// v: spacing x, spacing z, load transverse, load vertical, tension, direction
const Catenary3d* Cat(const Vd& v) {
  if (v.empty()) return nullptr;
  Catenary3d* c = TheArena().Make<Catenary3d>();
  c->set_spacing_endpoints(Vector3d(v[0], 0, v[1]));
  c->set_weight_unit(Vector3d(0, v[2], v[3]));
  c->set_tension_horizontal(v[4]);
  c->set_direction_transverse(Dir(v[5]));
  return c;
}

struct AEquilibrium : AdaptorOf<AEquilibrium> {
  CableAttachmentEquilibriumSolver s_;
  void Set(const std::string& s, const Vd& v) override {
    if (s == "angle") s_.set_angle_catenaries(v.empty() ? -999999 : v[0]);
    else if (s == "hardware") s_.set_angle_hardware(v.empty() ? -999999 : v[0]);
    else if (s == "back") s_.set_catenary_back(Cat(v));
    else if (s == "ahead") s_.set_catenary_ahead(Cat(v));
    else if (s == "dir") s_.set_direction_catenaries(v.empty() ? AxisDirectionType::kNull : Dir(v[0]));
    else Bad(s);
  }
  Vd Query(const std::string& q, const Vd&) override {
    if (q == "angle") return {s_.AngleEquilibrium()};
    if (q == "imbalance") return {s_.TensionImbalance()};
    if (q == "both") { const double a = s_.TensionImbalance(); return {s_.AngleEquilibrium(), a}; }
    if (q == "get") return {s_.angle_catenaries(), s_.angle_hardware(), (double)(s_.direction_catenaries() == AxisDirectionType::kPositive),
                            s_.catenary_back()->tension_horizontal(), s_.catenary_ahead()->tension_horizontal()};
    Bad(q); return {};
  }
  bool Validate(bool w, std::list<ErrorMessage>* m) override { return s_.Validate(w, m); }
  std::vector<bool> Parts(bool w) override {
    std::vector<bool> r;
    if (s_.catenary_back()) r.push_back(s_.catenary_back()->Validate(w, nullptr));
    if (s_.catenary_ahead()) r.push_back(s_.catenary_ahead()->Validate(w, nullptr));
    return r;
  }
};
REG_CLASS("Equilibrium", AEquilibrium)

// A line with two cables: cable 0 on the first attachment of every structure,
// cable 1 on the second attachment of the first three.
// v: n, then per structure: distance from the previous one, elevation, rotation
// of the line, hardware length, transverse offset of the first attachment
struct LineBox {
  TransmissionLine line;
  std::list<Structure> structures;
  std::list<Hardware> hardware;
};
const TransmissionLine* MakeLine(const Vd& v) {
  if (v.empty()) return nullptr;
  LineBox* b = TheArena().Make<LineBox>();
  const int n = std::max(0, std::min((int)v[0], (int)(v.size() - 1) / 5));
  const int last1 = n < 3 ? n - 1 : 2;
  double station = 0;
  b->line.set_origin(Point3d<double>(1000, -500, 20));
  for (int i = 0; i < n; i++) {
    const double* p = &v[1 + 5 * i];
    if (i > 0) station += p[0];
    AlignmentPoint a;
    a.station = station;
    a.elevation = p[1];
    a.rotation = i == 0 || i == n - 1 ? 0 : p[2];
    b->line.AddAlignmentPoint(a);
  }
  station = 0;
  for (int i = 0; i < n; i++) {
    const double* p = &v[1 + 5 * i];
    if (i > 0) station += p[0];
    b->structures.push_back(Structure());
    Structure& s = b->structures.back();
    s.height = 100;
    for (int k = 0; k < 2; k++) {
      StructureAttachment at;
      at.offset_longitudinal = 0;
      at.offset_transverse = k == 0 ? p[4] : p[4] + 30;
      at.offset_vertical_top = 0;
      s.attachments.push_back(at);
    }
    LineStructure ls;
    ls.set_station(station);
    ls.set_height_adjustment(0);
    ls.set_offset(0);
    ls.set_rotation(0);
    ls.set_structure(&s);
    for (int k = 0; k < 2; k++) {
      const int last = k == 0 ? n - 1 : last1;
      if (k == 1 && i > last) continue;
      b->hardware.push_back(Hardware());
      Hardware& h = b->hardware.back();
      h.type = i == 0 || i == last ? Hardware::HardwareType::kDeadEnd : Hardware::HardwareType::kSuspension;
      h.area_cross_section = 0;
      h.length = p[3];
      h.weight = 50;
      ls.AttachHardware(k, &h);
    }
    b->line.AddLineStructure(ls);
  }
  for (int k = 0; k < 2; k++) {
    const int last = k == 0 ? n - 1 : last1;
    LineCable c;
    int i = 0;
    for (const LineStructure& s : *b->line.line_structures()) {
      if (i++ > last) break;
      LineCableConnection con;
      con.line_structure = &s;
      con.index_attachment = k;
      c.AddConnection(con);
    }
    b->line.AddLineCable(c);
  }
  return &b->line;
}

struct ALocator : AdaptorOf<ALocator> {
  CablePositionLocator s_;
  void Set(const std::string& s, const Vd& v) override {
    if (s == "line") s_.set_transmission_line(MakeLine(v));
    else if (s == "index") s_.set_index_line_cable(v.empty() ? -9999 : (int)v[0]);
    else if (s == "tension") s_.set_tension_horizontal(v.empty() ? -999999 : v[0]);
    else if (s == "weight") s_.set_weight_unit(v.empty() ? nullptr : TheArena().Make<Vector3d>(Vector3d(0, v[0], v[1])));
    else if (s == "dir") s_.set_direction_wind(v.empty() ? AxisDirectionType::kNull : Dir(v[0]));
    else Bad(s);
  }
  Vd Query(const std::string& q, const Vd& a) override {
    Vd r;
    if (q == "attach") {
      const std::vector<Point3d<double>>* p = s_.PointsCableAttachment();
      if (p == nullptr) return r;
      // structure attachment, cable attachment
      const LineCable& c = *std::next(s_.transmission_line()->line_cables()->begin(), s_.index_line_cable());
      size_t k = 0;
      for (const LineCableConnection& con : *c.connections()) {
        const Point3d<double> x = s_.transmission_line()->PointXyzLineStructureAttachment(
            s_.transmission_line()->IndexLineStructure(con.line_structure), con.index_attachment);
        for (double d : V3(x)) r.push_back(d);
        for (double d : V3(p->at(k))) r.push_back(d);
        k++;
      }
      if (k != p->size()) r.push_back(-1);
      return r;
    }
    if (q == "points") {
      // the points first: the query must not depend on another one before it
      const std::list<Point3d<double>> pts = s_.PointsCable((int)a[0], (int)a[1]);
      const std::vector<Point3d<double>>* p = s_.PointsCableAttachment();
      r.push_back(p == nullptr ? 0 : (double)p->size());
      r.push_back((double)pts.size());
      if (!pts.empty() && p != nullptr && a[0] >= 0 && a[0] + 1 < p->size()) {
        for (double d : V3(p->at((int)a[0]))) r.push_back(d);
        for (double d : V3(p->at((int)a[0] + 1))) r.push_back(d);
      }
      for (const Point3d<double>& x : pts) for (double d : V3(x)) r.push_back(d);
      return r;
    }
    if (q == "get") return {(double)s_.index_line_cable(), s_.tension_horizontal(), s_.weight_unit()->y(), s_.weight_unit()->z(), (double)(s_.direction_wind() == AxisDirectionType::kPositive)};
    Bad(q); return {};
  }
  bool Validate(bool w, std::list<ErrorMessage>* m) override { return s_.Validate(w, m); }
  std::vector<bool> Parts(bool w) override {
    std::vector<bool> r;
    if (s_.transmission_line()) r.push_back(s_.transmission_line()->Validate(w, nullptr));
    return r;
  }
};
REG_CLASS("Locator", ALocator)
}  // namespace
