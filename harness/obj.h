// Generic "set inputs, ask for results" objects.
#ifndef VERIF_OBJ_H_
#define VERIF_OBJ_H_
#include <algorithm>
#include <functional>
#include <list>
#include <memory>
#include <typeindex>

#include "jv.h"
#include "models/base/error_message.h"

typedef std::vector<double> Vd;

// Pointees handed to the library live until the end of the history.  An input
// is replaced either by a new pointer, or in place: what the object's previous
// pointers for this input point at is changed and they are set again.
struct Arena {
  typedef std::pair<std::type_index, std::shared_ptr<void>> Entry;
  std::vector<std::shared_ptr<void>> keep;
  std::map<std::string, std::vector<Entry>> last;  // (object, input) -> pointees, in order
  std::string key;                                 // current (object, input); empty: none
  bool reuse = false;
  size_t at = 0;
  void Begin(const std::string& k, bool in_place) { key = k; reuse = in_place; at = 0; }
  void End() { if (!key.empty()) last[key].resize(std::min(at, last[key].size()), Entry(typeid(void), nullptr)); key.clear(); }
  // forgets an object's pointees: they are shared with a copy or gone
  void Forget(const std::string& prefix) {
    for (auto it = last.begin(); it != last.end();) it = it->first.compare(0, prefix.size(), prefix) == 0 ? last.erase(it) : std::next(it);
  }
  void Clear() { last.clear(); keep.clear(); key.clear(); }
  template <class T> T* Make(const T& v) {
    if (key.empty()) return New(v);
    std::vector<Entry>& e = last[key];
    const size_t k = at++;
    if (reuse && k < e.size() && e[k].first == typeid(T)) {
      T* p = static_cast<T*>(e[k].second.get());
      *p = v;
      return p;
    }
    T* p = New(v);
    if (k < e.size()) e[k] = Entry(typeid(T), keep.back());
    else e.push_back(Entry(typeid(T), keep.back()));
    return p;
  }
  template <class T> T* Make() { return Make(T()); }

 private:
  template <class T> T* New(const T& v) { auto p = std::make_shared<T>(v); keep.push_back(p); return p.get(); }
};
Arena& TheArena();

struct Adaptor {
  virtual ~Adaptor() {}
  // v empty: the null / unset value
  virtual void Set(const std::string& slot, const Vd& v) = 0;
  virtual Vd Query(const std::string& q, const Vd& a) = 0;
  // the group of inputs whose pointees are built together
  virtual std::string Group(const std::string& slot) const { return slot; }
  virtual bool Validate(bool warn, std::list<ErrorMessage>* m) = 0;
  // validity of the objects this one is composed of, each asked on its own
  virtual std::vector<bool> Parts(bool) { return {}; }
  virtual Adaptor* Clone() const = 0;
  virtual void Assign(const Adaptor& that) = 0;
  void Bad(const std::string& what) const { throw std::runtime_error("harness: unknown " + what); }
};
// CRTP base giving Clone/Assign through T's own copy operations
template <class D>
struct AdaptorOf : Adaptor {
  Adaptor* Clone() const override { return new D(static_cast<const D&>(*this)); }
  void Assign(const Adaptor& that) override { static_cast<D&>(*this) = static_cast<const D&>(that); }
};
typedef Adaptor* (*AdaptorFactory)();
std::map<std::string, AdaptorFactory>& Classes();
struct RegClass { RegClass(const char* n, AdaptorFactory f) { Classes()[n] = f; } };
#define REG_CLASS(name, type) static Adaptor* Make_##type() { return new type(); } \
  static RegClass reg_##type(name, Make_##type);

// small conversions
template <class P> Vd V3(const P& p) { return {p.x, p.y, p.z}; }
template <class P> Vd V2(const P& p) { return {p.x, p.y}; }
template <class V> Vd VV3(const V& v) { return {v.x(), v.y(), v.z()}; }
template <class V> Vd VV2(const V& v) { return {v.x(), v.y()}; }
#endif
