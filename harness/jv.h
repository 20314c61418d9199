// Minimal JSON values for harness commands, and a JSON line writer.
#ifndef VERIF_JV_H_
#define VERIF_JV_H_
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>

struct JV {
  enum T { NUL, INT, STR, ARR, OBJ, BOOL } t = NUL;
  long i = 0;
  std::string s;
  std::vector<JV> a;
  std::map<std::string, JV> o;
  const JV& operator[](const std::string& k) const {
    auto it = o.find(k);
    if (it == o.end()) throw std::runtime_error("harness: missing field " + k);
    return it->second;
  }
  const JV& operator[](int k) const { return a.at(k); }
  bool has(const std::string& k) const { return o.count(k) > 0; }
  int n() const { return (int)i; }
};

struct JParser {
  const char* p;
  explicit JParser(const std::string& s) : p(s.c_str()) {}
  void ws() { while (*p == ' ' || *p == '\t') p++; }
  JV val() {
    ws();
    JV v;
    if (*p == '{') {
      v.t = JV::OBJ; p++; ws();
      while (*p && *p != '}') {
        JV k = val(); ws();
        if (*p == ':') p++;
        v.o[k.s] = val(); ws();
        if (*p == ',') p++;
        ws();
      }
      if (*p) p++;
    } else if (*p == '[') {
      v.t = JV::ARR; p++; ws();
      while (*p && *p != ']') {
        v.a.push_back(val()); ws();
        if (*p == ',') p++;
        ws();
      }
      if (*p) p++;
    } else if (*p == '"') {
      v.t = JV::STR; p++;
      while (*p && *p != '"') {
        if (*p == '\\' && p[1]) { p++; v.s += *p == 'n' ? '\n' : *p; p++; }
        else v.s += *p++;
      }
      if (*p) p++;
    } else if (!strncmp(p, "true", 4)) { v.t = JV::BOOL; v.i = 1; p += 4; }
    else if (!strncmp(p, "false", 5)) { v.t = JV::BOOL; v.i = 0; p += 5; }
    else if (!strncmp(p, "null", 4)) { p += 4; }
    else { char* e; v.t = JV::INT; v.i = strtol(p, &e, 10); if (e == p) throw std::runtime_error("harness: bad json"); p = e; }
    return v;
  }
};

// Writes one JSON object; doubles are written as the two halves of their bits.
struct JW {
  std::string s;
  bool first = true;
  JW() : s("{") {}
  void key(const std::string& k) { if (!first) s += ','; first = false; s += '"'; s += k; s += "\":"; }
  static std::string num(double d) {
    uint64_t b; memcpy(&b, &d, 8);
    char buf[64];
    snprintf(buf, sizeof buf, "[%d,%d]", (int32_t)(b >> 32), (int32_t)(b & 0xffffffffu));
    return buf;
  }
  static std::string str(const std::string& x) {
    std::string r = "\"";
    for (char c : x) {
      if (c == '"' || c == '\\') { r += '\\'; r += c; }
      else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
      else r += c;
    }
    return r + "\"";
  }
  void raw(const std::string& k, const std::string& v) { key(k); s += v; }
  void d(const std::string& k, double v) { raw(k, num(v)); }
  void i(const std::string& k, long v) { raw(k, std::to_string(v)); }
  void b(const std::string& k, bool v) { raw(k, v ? "true" : "false"); }
  void st(const std::string& k, const std::string& v) { raw(k, str(v)); }
  void ds(const std::string& k, const std::vector<double>& v) {
    std::string r = "[";
    for (size_t j = 0; j < v.size(); j++) { if (j) r += ','; r += num(v[j]); }
    raw(k, r + "]");
  }
};
inline std::string Dump(const JV& v) {
  switch (v.t) {
    case JV::INT: return std::to_string(v.i);
    case JV::STR: return JW::str(v.s);
    case JV::BOOL: return v.i ? "true" : "false";
    case JV::ARR: { std::string r = "["; for (size_t j = 0; j < v.a.size(); j++) { if (j) r += ','; r += Dump(v.a[j]); } return r + "]"; }
    case JV::OBJ: { std::string r = "{"; bool f = true; for (auto& k : v.o) { if (!f) r += ','; f = false; r += JW::str(k.first) + ":" + Dump(k.second); } return r + "}"; }
    default: return "null";
  }
}

// A component under test: one history at a time, one command at a time.
struct Component {
  virtual ~Component() {}
  virtual void Reset(const JV& cmd) = 0;
  virtual void Do(const JV& cmd, JW& out) = 0;
};
typedef Component* (*ComponentFactory)();
std::map<std::string, ComponentFactory>& Registry();
struct Register { Register(const char* n, ComponentFactory f) { Registry()[n] = f; } };
#endif
