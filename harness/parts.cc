// Alignments, line cables and line structures on their own (LineParts.tla).
#include <memory>

#include "jv.h"
#include "models/transmissionline/alignment.h"
#include "models/transmissionline/line_cable.h"
#include "models/transmissionline/line_structure.h"

namespace {
class PartsComponent : public Component {
 public:
  void Reset(const JV& c) override {
    for (int n = 0; n < 6; n++) {
      types_[n].attachments.resize(n);
      types_[n].height = 50;
    }
    hardware_[1].type = Hardware::HardwareType::kDeadEnd;
    hardware_[2].type = Hardware::HardwareType::kSuspension;
    for (const JV& s : c["s"].a) {
      structures_.push_back(std::unique_ptr<LineStructure>(new LineStructure()));
      structures_.back()->set_station(s.n());
    }
  }
  void Do(const JV& c, JW& w) override {
    const std::string& op = c["op"].s;
    const int o = c["o"].n();
    long ret = 0;
    if (op == "addA") ret = al_[o].AddPoint(Point(c));
    else if (op == "modA") ret = al_[o].ModifyPoint(c["i"].n(), Point(c));
    else if (op == "modAa") ret = al_[o].ModifyPoint(c["i"].n(), *std::next(al_[o].points()->begin(), c["j"].n()));
    else if (op == "delA") ret = al_[o].DeletePoint(c["i"].n());
    else if (op == "copyA") al_[o] = al_[c["from"].n()];
    else if (op == "seg") ret = al_[o].IndexSegment(c["s"].n());
    else if (op == "inr") ret = al_[o].IsValidStation(c["s"].n());
    else if (op == "setS") structures_[o]->set_structure(c["ty"].n() < 0 ? nullptr : &types_[c["ty"].n()]);
    else if (op == "att") structures_[o]->AttachHardware(c["i"].n(), &hardware_[c["h"].n()]);
    else if (op == "det") structures_[o]->DetachHardware(c["i"].n());
    else if (op == "addC") ret = cb_[o].AddConnection(Conn(c));
    else if (op == "modC") ret = cb_[o].ModifyConnection(c["i"].n(), Conn(c));
    else if (op == "modCa") ret = cb_[o].ModifyConnection(c["i"].n(), *std::next(cb_[o].connections()->begin(), c["j"].n()));
    else if (op == "delC") ret = cb_[o].DeleteConnection(c["i"].n());
    else if (op == "clrC") cb_[o].ClearConnections();
    else if (op == "copyC") cb_[o] = cb_[c["from"].n()];
    else if (op == "okC") ret = cb_[o].ValidateConnections();
    else throw std::runtime_error("harness: op " + op);
    w.i("ret", ret);
    w.raw("view", View());
  }

 private:
  AlignmentPoint Point(const JV& c) {
    AlignmentPoint p;
    p.station = c["p"][0].n();
    p.elevation = c["p"][1].n();
    p.rotation = c["p"][2].n();
    return p;
  }
  LineCableConnection Conn(const JV& c) {
    LineCableConnection x;
    const int k = c["k"].n();
    x.line_structure = k < 0 ? nullptr : structures_.at(k).get();
    x.index_attachment = c["at"].n();
    return x;
  }
  static std::string I(double d) { return d == (int)d ? std::to_string((int)d) : "-777777"; }
  std::string View() {
    std::string r = "{\"al\":[";
    for (int a = 0; a < 2; a++) {
      if (a) r += ',';
      std::string q;
      for (const AlignmentPoint& p : *al_[a].points()) q += std::string(q.empty() ? "" : ",") + "[" + I(p.station) + "," + I(p.elevation) + "," + I(p.rotation) + "]";
      r += "[" + q + "]";
    }
    r += "],\"st\":[";
    for (size_t k = 0; k < structures_.size(); k++) {
      if (k) r += ',';
      const Structure* s = structures_[k]->structure();
      const int ty = s == nullptr ? -1 : (int)(s - types_);
      std::string q;
      for (const Hardware* h : *structures_[k]->hardwares())
        q += std::string(q.empty() ? "" : ",") + (h == nullptr ? "0" : std::to_string(h - hardware_));
      r += "[" + I(structures_[k]->station()) + "," + std::to_string(ty) + ",[" + q + "]]";
    }
    r += "],\"cb\":[";
    for (int a = 0; a < 2; a++) {
      if (a) r += ',';
      std::string q;
      for (const LineCableConnection& x : *cb_[a].connections()) {
        int k = -1;
        for (size_t j = 0; j < structures_.size(); j++) if (structures_[j].get() == x.line_structure) k = j;
        q += std::string(q.empty() ? "" : ",") + "[" + std::to_string(k) + "," + std::to_string(x.index_attachment) + "]";
      }
      r += "[" + q + "]";
    }
    return r + "]}";
  }
  Structure types_[6];
  Hardware hardware_[3];
  std::vector<std::unique_ptr<LineStructure>> structures_;
  Alignment al_[2];
  LineCable cb_[2];
};
Component* Make() { return new PartsComponent(); }
Register reg("parts", Make);
}  // namespace
