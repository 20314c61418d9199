#include "obj.h"

#include <algorithm>

Arena& TheArena() { static Arena a; return a; }
std::map<std::string, AdaptorFactory>& Classes() { static std::map<std::string, AdaptorFactory> m; return m; }

namespace {
Vd Nums(const JV& a, const JV& d) {
  Vd r;
  for (size_t k = 0; k < a.a.size(); k++) r.push_back((double)a.a[k].i / (double)d.a.at(k).i);
  return r;
}
struct Slot {
  std::unique_ptr<Adaptor> obj;
  std::string cls;
  std::map<std::string, Vd> inputs;  // current inputs, for the fresh object
};
class ObjComponent : public Component {
 public:
  ~ObjComponent() override { for (auto& s : slots_) s.obj.reset(); TheArena().Clear(); }
  void Reset(const JV&) override { TheArena().Clear(); }
  void Do(const JV& c, JW& w) override {
    const std::string& op = c["op"].s;
    Slot& s = slots_[c["o"].n()];
    if (op == "new" || op == "copy" || op == "destroy") {
    } else if (!s.obj) {
      throw std::runtime_error("harness: no object");
    }
    if (c.has("from") && !slots_[c["from"].n()].obj) throw std::runtime_error("harness: no object");
    TheArena().End();
    if (op == "copy" || op == "assign") { TheArena().Forget(Key(c["o"].n())); TheArena().Forget(Key(c["from"].n())); }
    if (op == "new") {
      s.obj.reset();
      TheArena().Forget(Key(c["o"].n()));
      s.cls = c["cls"].s;
      s.inputs.clear();
      s.obj.reset(Create(s.cls));
    } else if (op == "set") {
      const Vd v = Nums(c["v"], c["d"]);
      s.inputs[c["s"].s] = v;
      TheArena().Begin(Key(c["o"].n()) + s.obj->Group(c["s"].s), c.has("in"));
      s.obj->Set(c["s"].s, v);
      TheArena().End();
    } else if (op == "q") {
      const Vd a = Nums(c["a"], c["d"]);
      w.ds("r", s.obj->Query(c["q"].s, a));
      if (c.has("fresh")) {
        std::unique_ptr<Adaptor> f(Create(s.cls));
        for (auto& kv : s.inputs) f->Set(kv.first, kv.second);
        w.ds("f", f->Query(c["q"].s, a));
      }
    } else if (op == "val") {
      // the list is appended to
      std::list<ErrorMessage> m(1);
      m.front().title = m.front().description = "earlier";
      const bool r = s.obj->Validate(c["w"].n() != 0, c["m"].n() != 0 ? &m : nullptr);
      w.b("ok", r);
      w.b("kept", !m.empty() && m.front().title == "earlier" && m.front().description == "earlier");
      if (!m.empty()) m.pop_front();
      w.i("n", m.size());
      w.i("blank", std::count_if(m.begin(), m.end(), [](const ErrorMessage& e) { return e.title.empty() || e.description.empty(); }));
      std::string parts = "[";
      for (bool b : s.obj->Parts(c["w"].n() != 0)) { if (parts.size() > 1) parts += ','; parts += b ? "true" : "false"; }
      w.raw("parts", parts + "]");
    } else if (op == "copy") {
      Slot& f = slots_[c["from"].n()];
      Adaptor* n = f.obj->Clone();
      s.obj.reset(n);
      s.cls = f.cls;
      s.inputs = f.inputs;
    } else if (op == "assign") {
      Slot& f = slots_[c["from"].n()];
      s.obj->Assign(*f.obj);
      s.cls = f.cls;
      const std::map<std::string, Vd> in = f.inputs;
      s.inputs = in;
    } else if (op == "destroy") {
      s.obj.reset();
      s.cls.clear();
      s.inputs.clear();
    } else throw std::runtime_error("harness: op " + op);
  }

 private:
  Adaptor* Create(const std::string& cls) {
    if (!Classes().count(cls)) throw std::runtime_error("harness: class " + cls);
    return Classes()[cls]();
  }
  static std::string Key(int o) { return std::to_string(o) + "/"; }
  Slot slots_[3];
};
Component* Make() { return new ObjComponent(); }
Register reg("obj", Make);
}  // namespace
