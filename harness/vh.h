// Common harness pieces: script reader, JSON event writer, capturing backend.
#ifndef VERIF_VH_H_
#define VERIF_VH_H_
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include "cyclus.h"

namespace vh {

inline std::string esc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}

// JSON object builder
class J {
 public:
  J() {}
  explicit J(const std::string& op) { s("op", op); }
  J& raw(const std::string& k, const std::string& v) {
    if (!b_.empty()) b_ += ",";
    b_ += "\"" + esc(k) + "\":" + v;
    return *this;
  }
  J& s(const std::string& k, const std::string& v) { return raw(k, "\"" + esc(v) + "\""); }
  J& i(const std::string& k, long long v) { return raw(k, std::to_string(v)); }
  J& b(const std::string& k, bool v) { return raw(k, v ? "true" : "false"); }
  std::string str() const { return "{" + b_ + "}"; }
  void emit() const {
    std::string o = str() + "\n";
    fwrite(o.data(), 1, o.size(), stdout);
    fflush(stdout);
  }
 private:
  std::string b_;
};

template <class T>
std::string ints(const T& v) {
  std::string o = "[";
  bool f = true;
  for (auto x : v) { if (!f) o += ","; f = false; o += std::to_string((long long)x); }
  return o + "]";
}
template <class T>
std::string strs(const T& v) {
  std::string o = "[";
  bool f = true;
  for (auto& x : v) { if (!f) o += ","; f = false; o += "\"" + esc(x) + "\""; }
  return o + "]";
}
inline std::string arr(const std::vector<std::string>& v) {
  std::string o = "[";
  for (size_t i = 0; i < v.size(); i++) { if (i) o += ","; o += v[i]; }
  return o + "]";
}

// quantities: the scripts use exact multiples of 1/scale; anything else in a result is
// reported as the sentinel kOff (and rejected by the specification)
static const long long kOff = -999999999;
inline long long qty(double x, double scale = 1.0, double tol = 1e-6) {
  if (std::isnan(x) || std::isinf(x)) return kOff;
  double y = x * scale;
  double r = std::round(y);
  if (std::fabs(r) > 2e9) return y > 0 ? 2000000000LL : -2000000000LL;
  if (std::fabs(y - r) > tol * std::max(1.0, std::fabs(r))) return kOff;
  return (long long)r;
}

struct Tok {
  std::vector<std::string> t;
  std::string line;
  explicit Tok(const std::string& l) : line(l) { std::istringstream is(l); std::string x; while (is >> x) t.push_back(x); }
  size_t n() const { return t.size(); }
  std::string s(size_t i) const { if (i >= t.size()) die(); return t[i]; }
  int i(size_t i_) const { return atoi(s(i_).c_str()); }
  double d(size_t i_) const { return atof(s(i_).c_str()); }
  void die() const { fprintf(stderr, "bad script line: %s\n", line.c_str()); exit(99); }
};

// A backend that hands every row to a callback, in arrival order.
class Capture : public cyclus::RecBackend {
 public:
  std::function<void(cyclus::Datum*)> on;
  void Notify(cyclus::DatumList data) { for (auto d : data) if (on) on(d); }
  std::string Name() { return "capture"; }
  void Flush() {}
  void Close() {}
};

inline boost::spirit::hold_any* field(cyclus::Datum* d, const std::string& f) {
  for (auto& e : d->vals()) if (f == e.first) return const_cast<boost::spirit::hold_any*>(&e.second);
  return NULL;
}
inline long long fint(cyclus::Datum* d, const std::string& f) {
  auto* v = field(d, f);
  if (!v) return kOff;
  if (v->type() == typeid(int)) return v->cast<int>();
  if (v->type() == typeid(bool)) return v->cast<bool>();
  if (v->type() == typeid(double)) return qty(v->cast<double>());
  return kOff;
}
inline double fdbl(cyclus::Datum* d, const std::string& f) {
  auto* v = field(d, f);
  if (!v) return NAN;
  if (v->type() == typeid(int)) return v->cast<int>();
  if (v->type() == typeid(float)) return v->cast<float>();
  if (v->type() == typeid(double)) return v->cast<double>();
  return NAN;
}
inline std::string fstr(cyclus::Datum* d, const std::string& f) {
  auto* v = field(d, f);
  if (!v || v->type() != typeid(std::string)) return "<none>";
  return v->cast<std::string>();
}

// main loop: read histories from stdin
inline int run(const std::function<void(const std::vector<Tok>&)>& fn) {
  cyclus::Logger::ReportLevel() = cyclus::LEV_ERROR;
  cyclus::Logger::NoMem() = true;
  cyclus::warn_limit = 0;
  std::string l;
  std::vector<Tok> cur;
  bool in = false;
  while (std::getline(std::cin, l)) {
    if (l == "QUIT") break;
    if (l.compare(0, 2, "H ") == 0) {
      cur.clear(); in = true;
      printf("@H %s\n", l.c_str() + 2); fflush(stdout);
      continue;
    }
    if (l == "END") {
      fn(cur);
      printf("@END\n"); fflush(stdout);
      in = false;
      continue;
    }
    if (in && !l.empty()) cur.push_back(Tok(l));
  }
  printf("@QUIT\n"); fflush(stdout);
  return 0;
}

}  // namespace vh
#endif
