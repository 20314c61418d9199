// TransmissionLine component: up to three live lines.
#include <cmath>
#include <memory>

#include "jv.h"
#include "models/transmissionline/transmission_line.h"

namespace {
const double kUnit = 8.0;
const int kSlots = 3;
double U(const JV& v) { return v.n() / kUnit; }
std::string UI(double d) {
  const double n = d * kUnit;
  if (n == std::floor(n) && std::abs(n) < 1e9) return std::to_string((long)n);
  return "-777777777";
}

class LineComponent : public Component {
 public:
  void Reset(const JV& cmd) override {
    for (auto& l : lines_) l.reset();
    types_.clear();
    for (const JV& t : cmd["types"].a) {
      std::unique_ptr<Structure> s(new Structure());
      s->height = U(t["height"]);
      for (const JV& at : t["atts"].a) {
        StructureAttachment sa;
        sa.offset_longitudinal = U(at["l"]);
        sa.offset_transverse = U(at["t"]);
        sa.offset_vertical_top = U(at["v"]);
        s->attachments.push_back(sa);
      }
      types_.push_back(std::move(s));
    }
    hardware_[1].type = Hardware::HardwareType::kDeadEnd;
    hardware_[2].type = Hardware::HardwareType::kSuspension;
    for (int i = 1; i <= 2; i++) {
      hardware_[i].area_cross_section = 0;
      hardware_[i].length = 1;
      hardware_[i].weight = 50;
    }
    lines_[0].reset(new TransmissionLine());
  }

  void Do(const JV& c, JW& w) override {
    const std::string& op = c["op"].s;
    const int o = c["o"].n();
    if (op == "new") { lines_[o].reset(new TransmissionLine()); return; }
    if (op == "copy") { lines_[o].reset(new TransmissionLine(*lines_[c["from"].n()])); Views(w); return; }
    if (op == "assign") { *lines_[o] = *lines_[c["from"].n()]; Views(w); return; }
    if (op == "destroy") { lines_[o].reset(); Views(w); return; }
    TransmissionLine& t = *lines_.at(o);
    if (op == "addAP") { w.i("ret", t.AddAlignmentPoint(Point(c))); Views(w); }
    else if (op == "modAP") { w.i("ret", t.ModifyAlignmentPoint(c["i"].n(), Point(c))); Views(w); }
    else if (op == "delAP") { w.b("ret", t.DeleteAlignmentPoint(c["i"].n())); Views(w); }
    else if (op == "addLS") { w.i("ret", t.AddLineStructure(Struct(c))); Views(w); }
    else if (op == "modLS") { w.b("ret", t.ModifyLineStructure(c["i"].n(), Struct(c))); Views(w); }
    else if (op == "delLS") { w.b("ret", t.DeleteLineStructure(c["i"].n())); Views(w); }
    else if (op == "addLC") { const LineCable lc = Cable_(c); w.i("ret", t.AddLineCable(lc)); Views(w); }
    else if (op == "modLC") { const LineCable lc = Cable_(c); w.i("ret", t.ModifyLineCable(c["i"].n(), lc)); Views(w); }
    else if (op == "delLC") { w.b("ret", t.DeleteLineCable(c["i"].n())); Views(w); }
    else if (op == "modAPa") { w.i("ret", t.ModifyAlignmentPoint(c["i"].n(), *std::next(t.alignment()->points()->begin(), c["j"].n()))); Views(w); }
    else if (op == "modLSa") { w.b("ret", t.ModifyLineStructure(c["i"].n(), *std::next(t.line_structures()->begin(), c["j"].n()))); Views(w); }
    else if (op == "modLCa") { w.i("ret", t.ModifyLineCable(c["i"].n(), *std::next(t.line_cables()->begin(), c["j"].n()))); Views(w); }
    else if (op == "addLCa") { w.i("ret", t.AddLineCable(*std::next(t.line_cables()->begin(), c["j"].n()))); Views(w); }
    else if (op == "origin") { t.set_origin(Point3d<double>(U(c["p"][0]), U(c["p"][1]), U(c["p"][2]))); w.i("ret", 0); Views(w); }
    else if (op == "qAl") Points(w, t.PointsXyzAlignment());
    else if (op == "qLS") Points(w, t.PointsXyzLineStructures());
    else if (op == "qSta") P(w, t.PointXyzAlignment(U(c["s"])));
    else if (op == "qLSi") P(w, t.PointXyzLineStructure(c["i"].n()));
    else if (op == "qAtt") P(w, t.PointXyzLineStructureAttachment(c["i"].n(), c["a"].n()));
    else if (op == "qHas") w.b("r", t.HasConnection(c["i"].n(), c["a"].n()));
    else if (op == "qIdx") {
      const std::list<LineStructure>& l = *lines_.at(c["from"].n())->line_structures();
      const int i = c["i"].n();
      w.i("r", t.IndexLineStructure(i >= 0 && i < (int)l.size() ? &*std::next(l.begin(), i) : nullptr));
    } else if (op == "qVal") {
      std::list<ErrorMessage> m;
      w.b("r", t.Validate(true, &m));
      w.i("msgs", m.size());
    } else throw std::runtime_error("harness: op " + op);
  }

 private:
  AlignmentPoint Point(const JV& c) {
    AlignmentPoint p;
    p.station = U(c["p"][0]); p.elevation = U(c["p"][1]); p.rotation = U(c["p"][2]);
    return p;
  }
  LineStructure Struct(const JV& c) {
    LineStructure s;
    const JV& x = c["x"];
    s.set_station(U(x[0])); s.set_height_adjustment(U(x[1])); s.set_offset(U(x[2])); s.set_rotation(U(x[3]));
    const int ty = x[4].n();
    s.set_structure(ty == 0 ? nullptr : types_.at(ty - 1).get());
    const JV& hw = c["hw"];
    for (size_t a = 0; a < hw.a.size(); a++) {
      if (hw[a].n() != 0) s.AttachHardware(a, &hardware_[hw[a].n()]);
    }
    return s;
  }
  LineCable Cable_(const JV& c) {
    LineCable lc;
    const int tag = c["tag"].n();
    Tag(&lc, tag);
    for (const JV& x : c["cn"].a) {
      const int s = x[0].n(), i = x[1].n();
      if (s < 0 || s >= kSlots || !lines_[s]) continue;
      const std::list<LineStructure>& l = *lines_[s]->line_structures();
      if (i < 0 || i >= (int)l.size()) continue;
      LineCableConnection con;
      con.line_structure = &*std::next(l.begin(), i);
      con.index_attachment = x[2].n();
      lc.AddConnection(con);
    }
    return lc;
  }
  // the non-connection fields of a cable all follow from its tag
  void Tag(LineCable* lc, int tag) {
    CableConstraint k;
    k.limit = tag;
    k.note = std::to_string(tag);
    lc->set_constraint(k);
    lc->set_cable(&cables_[tag % 3]);
    lc->set_spacing_attachments_ruling_span(Vector3d(tag, 0, -tag));
    lc->set_weathercase_stretch_creep(&weather_[tag % 2]);
    lc->set_weathercase_stretch_load(&weather_[(tag + 1) % 2]);
  }
  int TagOf(const LineCable& lc) {
    const int tag = (int)lc.constraint().limit;
    const Vector3d s = lc.spacing_attachments_ruling_span();
    const bool same = lc.constraint().note == std::to_string(tag) && tag > 0
        && lc.cable() == &cables_[tag % 3] && s.x() == tag && s.y() == 0 && s.z() == -tag
        && lc.weathercase_stretch_creep() == &weather_[tag % 2]
        && lc.weathercase_stretch_load() == &weather_[(tag + 1) % 2];
    return same ? tag : -1;
  }
  static std::string P3(const Point3d<double>& p) {
    return "[" + JW::num(p.x) + "," + JW::num(p.y) + "," + JW::num(p.z) + "]";
  }
  static void P(JW& w, const Point3d<double>& p) { w.raw("r", P3(p)); }
  static void Points(JW& w, const std::vector<Point3d<double>>* v) {
    if (v == nullptr) { w.raw("r", "[-1]"); return; }
    std::string r = "[";
    for (size_t k = 0; k < v->size(); k++) { if (k) r += ','; r += P3(v->at(k)); }
    w.raw("r", r + "]");
  }
  int TypeOf(const Structure* s) {
    if (s == nullptr) return 0;
    for (size_t k = 0; k < types_.size(); k++) if (types_[k].get() == s) return k + 1;
    return -1;
  }
  int HwOf(const Hardware* h) {
    return h == nullptr ? 0 : h == &hardware_[1] ? 1 : h == &hardware_[2] ? 2 : -1;
  }
  std::string View(const TransmissionLine& t) {
    std::string r = "{\"al\":[";
    bool f = true;
    for (const AlignmentPoint& p : *t.alignment()->points()) {
      if (!f) r += ','; f = false;
      r += "[" + UI(p.station) + "," + UI(p.elevation) + "," + UI(p.rotation) + "]";
    }
    r += "],\"st\":[";
    f = true;
    for (const LineStructure& s : *t.line_structures()) {
      if (!f) r += ','; f = false;
      r += "[" + UI(s.station()) + "," + UI(s.height_adjustment()) + "," + UI(s.offset()) + ","
           + UI(s.rotation()) + "," + std::to_string(TypeOf(s.structure())) + ",[";
      bool g = true;
      for (const Hardware* h : *s.hardwares()) { if (!g) r += ','; g = false; r += std::to_string(HwOf(h)); }
      r += "]]";
    }
    r += "],\"cb\":[";
    f = true;
    for (const LineCable& c : *t.line_cables()) {
      if (!f) r += ','; f = false;
      r += "[" + std::to_string(TagOf(c)) + ",[";
      bool g = true;
      for (const LineCableConnection& k : *c.connections()) {
        if (!g) r += ','; g = false;
        int idx = -1, j = 0;
        for (const LineStructure& s : *t.line_structures()) { if (&s == k.line_structure) idx = j; j++; }
        r += "[" + std::to_string(idx) + "," + std::to_string(k.index_attachment) + "]";
      }
      r += "]]";
    }
    const Point3d<double> o = t.origin();
    r += "],\"org\":[" + UI(o.x) + "," + UI(o.y) + "," + UI(o.z) + "]}";
    return r;
  }
  void Views(JW& w) {
    std::string r = "[";
    for (int s = 0; s < kSlots; s++) {
      if (s) r += ',';
      r += lines_[s] ? View(*lines_[s]) : "{\"gone\":true}";
    }
    w.raw("views", r + "]");
  }

  std::unique_ptr<TransmissionLine> lines_array_[kSlots];
  struct Slots {
    std::unique_ptr<TransmissionLine>* p;
    std::unique_ptr<TransmissionLine>& operator[](int i) { return p[i]; }
    std::unique_ptr<TransmissionLine>& at(int i) {
      if (i < 0 || i >= kSlots || !p[i]) throw std::runtime_error("harness: dead slot");
      return p[i];
    }
    std::unique_ptr<TransmissionLine>* begin() { return p; }
    std::unique_ptr<TransmissionLine>* end() { return p + kSlots; }
  } lines_ = {lines_array_};
  std::vector<std::unique_ptr<Structure>> types_;
  Hardware hardware_[3];
  Cable cables_[3];
  WeatherLoadCase weather_[2];
};
Component* Make() { return new LineComponent(); }
Register reg("line", Make);
}  // namespace
