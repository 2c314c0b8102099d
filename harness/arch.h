// Support for generated archetypes: members as values, registry of classes.
#ifndef VERIF_ARCH_H_
#define VERIF_ARCH_H_
#include <list>
#include "cyclus.h"
#include "vh.h"
namespace arch {
using vh::esc;
inline std::string leaf(const std::string& v) { return "{\"v\":\"" + esc(v) + "\",\"s\":[]}"; }
inline std::string many(const std::vector<std::string>& s) { return "{\"v\":\"\",\"s\":" + vh::arr(s) + "}"; }
inline std::string num(double x) { char b[40]; snprintf(b, sizeof b, "%.17g", x); return b; }

inline std::string dump(bool x) { return leaf(x ? "b1" : "b0"); }
inline std::string dump(int x) { return leaf("i" + std::to_string(x)); }
inline std::string dump(float x) { return leaf("d" + num(x)); }
inline std::string dump(double x) { return leaf("d" + num(x)); }
inline std::string dump(const std::string& x) { return leaf("s" + x); }
template <class A, class B> std::string dump(const std::pair<A, B>& x);
template <class A> std::string dump(const std::vector<A>& x);
template <class A> std::string dump(const std::list<A>& x);
template <class A> std::string dump(const std::set<A>& x);
template <class A, class B> std::string dump(const std::map<A, B>& x);
template <class A, class B> std::string dump(const std::pair<A, B>& x) { return many({dump(x.first), dump(x.second)}); }
template <class C> std::string seq(const C& x) { std::vector<std::string> o; for (const auto& e : x) o.push_back(dump(e)); return many(o); }
template <class A> std::string dump(const std::vector<A>& x) { return seq(x); }
template <class A> std::string dump(const std::list<A>& x) { return seq(x); }
template <class A> std::string dump(const std::set<A>& x) { return seq(x); }
template <class A, class B> std::string dump(const std::map<A, B>& x) { std::vector<std::string> o; for (const auto& e : x) o.push_back(many({dump(e.first), dump(e.second)})); return many(o); }

inline void load(const Json::Value& j, bool& x) { x = j["v"].asString() == "b1"; }
inline void load(const Json::Value& j, int& x) { x = atoi(j["v"].asString().c_str() + 1); }
inline void load(const Json::Value& j, float& x) { x = atof(j["v"].asString().c_str() + 1); }
inline void load(const Json::Value& j, double& x) { x = atof(j["v"].asString().c_str() + 1); }
inline void load(const Json::Value& j, std::string& x) { x = j["v"].asString().substr(1); }
template <class A, class B> void load(const Json::Value& j, std::pair<A, B>& x);
template <class A> void load(const Json::Value& j, std::vector<A>& x);
template <class A> void load(const Json::Value& j, std::list<A>& x);
template <class A> void load(const Json::Value& j, std::set<A>& x);
template <class A, class B> void load(const Json::Value& j, std::map<A, B>& x);
template <class A, class B> void load(const Json::Value& j, std::pair<A, B>& x) { load(j["s"][0u], x.first); load(j["s"][1u], x.second); }
template <class A> void load(const Json::Value& j, std::vector<A>& x) { x.clear(); for (unsigned i = 0; i < j["s"].size(); i++) { A a; load(j["s"][i], a); x.push_back(a); } }
template <class A> void load(const Json::Value& j, std::list<A>& x) { x.clear(); for (unsigned i = 0; i < j["s"].size(); i++) { A a; load(j["s"][i], a); x.push_back(a); } }
template <class A> void load(const Json::Value& j, std::set<A>& x) { x.clear(); for (unsigned i = 0; i < j["s"].size(); i++) { A a; load(j["s"][i], a); x.insert(a); } }
template <class A, class B> void load(const Json::Value& j, std::map<A, B>& x) {
  x.clear();
  for (unsigned i = 0; i < j["s"].size(); i++) { A a; B b; load(j["s"][i]["s"][0u], a); load(j["s"][i]["s"][1u], b); x[a] = b; }
}
// a declared default as the annotations report it
inline std::string told(const Json::Value& j, bool*) { return dump(j.asBool()); }
inline std::string told(const Json::Value& j, int*) { return j.isString() ? leaf("n" + j.asString()) : dump(j.asInt()); }
inline std::string told(const Json::Value& j, float*) { return dump((float)j.asDouble()); }
inline std::string told(const Json::Value& j, double*) { return dump(j.asDouble()); }
inline std::string told(const Json::Value& j, std::string*) { return dump(j.asString()); }
template <class T> std::string told(const Json::Value&, T*) { return ""; }

struct Buf { std::string name; double cap; std::vector<int> ids; };
struct Class {
  std::function<cyclus::Agent*(cyclus::Context*)> make;
  std::function<std::string(cyclus::Agent*)> vals;                                      // [{n,v}]
  std::function<void(cyclus::Agent*, const std::string&, const Json::Value&)> set;
  std::function<std::vector<Buf>(cyclus::Agent*)> bufs;
  std::function<void(cyclus::Agent*, const std::string&, cyclus::Resource::Ptr)> push;
  std::function<std::string(cyclus::Agent*, const std::string&, const Json::Value&)> told;
};
inline std::map<std::string, Class>& classes() { static std::map<std::string, Class> m; return m; }

struct Vals { std::vector<std::string> o; template <class T> void operator()(const char* n, T& x) { o.push_back(std::string("{\"n\":\"") + n + "\",\"v\":" + dump(x) + "}"); } };
struct Set { const std::string& n; const Json::Value& j; template <class T> void operator()(const char* m, T& x) { if (n == m) load(j, x); } };
struct Told { const std::string& n; const Json::Value& j; std::string o; template <class T> void operator()(const char* m, T& x) { if (n == m) o = told(j, (T*)0); } };
inline cyclus::Material::Ptr cast(cyclus::Resource::Ptr r, cyclus::Material*) { return boost::dynamic_pointer_cast<cyclus::Material>(r); }
inline cyclus::Product::Ptr cast(cyclus::Resource::Ptr r, cyclus::Product*) { return boost::dynamic_pointer_cast<cyclus::Product>(r); }
struct Bufs {
  std::vector<Buf> o;
  template <class T> void operator()(const char* n, cyclus::toolkit::ResBuf<T>& b) {
    Buf x{n, b.capacity(), {}};
    auto v = b.PopN(b.count());
    for (auto& r : v) x.ids.push_back(r->obj_id());
    b.Push(v);
    o.push_back(x);
  }
};
struct Push {
  const std::string& n; cyclus::Resource::Ptr r;
  template <class T> void operator()(const char* m, cyclus::toolkit::ResBuf<T>& b) { if (n == m) b.Push(cast(r, (T*)0)); }
};
template <class A> struct Reg {
  Reg(const char* name) {
    Class c;
    c.make = [](cyclus::Context* x) -> cyclus::Agent* { return new A(x); };
    c.vals = [](cyclus::Agent* a) { Vals v; visit(*dynamic_cast<A*>(a), v); return vh::arr(v.o); };
    c.set = [](cyclus::Agent* a, const std::string& n, const Json::Value& j) { Set s{n, j}; visit(*dynamic_cast<A*>(a), s); };
    c.bufs = [](cyclus::Agent* a) { Bufs b; visitbufs(*dynamic_cast<A*>(a), b); return b.o; };
    c.push = [](cyclus::Agent* a, const std::string& n, cyclus::Resource::Ptr r) { Push p{n, r}; visitbufs(*dynamic_cast<A*>(a), p); };
    c.told = [](cyclus::Agent* a, const std::string& n, const Json::Value& j) { Told t{n, j}; visit(*dynamic_cast<A*>(a), t); return t.o; };
    classes()[name] = c;
  }
};
}
#endif
