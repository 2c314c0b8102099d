// Drives archetypes generated by the project's preprocessor: input validation, loading,
// cloning, saving and restoring.  The classes come from generated translation units.
#include <unistd.h>
#include <sys/stat.h>
#include "arch.h"
#include "sqlite_back.h"
#include "hdf5_back.h"
#include "xml_parser.h"
#include "infile_tree.h"
#include "db_init.h"
#include "agent.h"
using namespace cyclus;
namespace cyclus { void EventLoop() {} void PyDelAgent(int) {} }

struct Slot { std::string file; int id; Inventories inv; std::vector<std::string> bufs; };
static std::string kDir;

struct World {
  Timer ti; Recorder rec; Context ctx;
  std::string cls, kind; Json::Value decl;
  std::map<int, Agent*> ag; std::map<int, Slot> slot;
  std::map<int, Resource::Ptr> res;
  int nf = 0;
  World() : rec(), ctx(&ti, &rec) { ctx.InitSim(SimInfo(5)); }
  ~World() { for (auto& s : slot) unlink(s.second.file.c_str()); }
  arch::Class& c() { return arch::classes().at(cls); }
  Agent* fresh() { Agent* a = c().make(&ctx); a->spec("v:gen:" + cls); return a; }
  template <class F> std::string saved(F f) {
    std::string fn = kDir + "/a" + std::to_string(nf++) + "." + (kind == "h5" ? "h5" : "sqlite");
    unlink(fn.c_str());
    RecBackend* b = kind == "h5" ? (RecBackend*)new Hdf5Back(fn) : (RecBackend*)new SqliteBack(fn);
    rec.RegisterBackend(b);
    try { f(); } catch (...) { rec.Close(); delete b; unlink(fn.c_str()); throw; }
    rec.Close();
    delete b;
    return fn;
  }
  Agent* restored(const std::string& fn, int id) {
    FullBackend* b = kind == "h5" ? (FullBackend*)new Hdf5Back(fn) : (FullBackend*)new SqliteBack(fn);
    Agent* m = fresh();
    try {
      std::vector<Cond> conds;
      conds.push_back(Cond("AgentId", "==", id));
      CondInjector ci(b, conds);
      PrefixInjector pi(&ci, "AgentState");
      m->Agent::InitFrom(&pi);
      pi = PrefixInjector(&ci, "AgentState" + AgentSpec(m->spec()).Sanitize());
      m->InitFrom(&pi);
    } catch (...) { delete b; throw; }
    delete b;
    return m;
  }
  vh::J& all(vh::J& j) {
    std::vector<std::string> o;
    for (auto& a : ag) {
      std::vector<std::string> bs;
      for (auto& b : c().bufs(a.second)) {
        double cap = b.cap > 1e20 ? -1 : b.cap;
        bs.push_back(vh::J().s("n", b.name).s("cap", "d" + arch::num(cap)).raw("ids", vh::ints(b.ids)).str());
      }
      o.push_back(vh::J().i("id", a.first).raw("vals", c().vals(a.second)).raw("bufs", vh::arr(bs)).i("life", a.second->lifetime()).s("proto", a.second->prototype()).str());
    }
    return j.raw("agents", vh::arr(o));
  }
};
static Json::Value parse(const std::string& s) { Json::Value v; Json::Reader r; if (!r.parse(s, v)) { fprintf(stderr, "bad json: %s\n", s.c_str()); exit(99); } return v; }
static std::string write(const Json::Value& v) {
  // plain writer (keeps text as given)
  if (v.isString()) return "\"" + vh::esc(v.asString()) + "\"";
  if (v.isBool()) return v.asBool() ? "true" : "false";
  if (v.isInt() || v.isUInt()) return std::to_string(v.asInt());
  if (v.isArray()) { std::vector<std::string> o; for (unsigned i = 0; i < v.size(); i++) o.push_back(write(v[i])); return vh::arr(o); }
  vh::J j;
  for (auto& n : v.getMemberNames()) j.raw(n, write(v[n]));
  return j.str();
}
static std::string type(const Json::Value& t) {
  static const std::map<std::string, std::string> nm = {{"std::vector", "vector"}, {"std::set", "set"}, {"std::list", "list"}, {"std::pair", "pair"}, {"std::map", "map"}, {"std::string", "string"}};
  auto short_ = [&](std::string s) { auto i = nm.find(s); return i == nm.end() ? s : i->second; };
  if (t.isString()) return vh::J().s("k", short_(t.asString())).raw("s", "[]").str();
  std::vector<std::string> o;
  for (unsigned i = 1; i < t.size(); i++) o.push_back(type(t[i]));
  return vh::J().s("k", short_(t[0u].asString())).raw("s", vh::arr(o)).str();
}

static void history(const std::vector<vh::Tok>& L) {
  World w;
  for (auto& t : L) {
    std::string op = t.s(0);
    size_t p = t.line.find('{');
    Json::Value j = p == std::string::npos ? Json::Value() : parse(t.line.substr(p));
    vh::J e(op);
    if (op == "decl") {
      w.cls = j["cls"].asString(); w.kind = j["kind"].asString(); w.decl = j["decl"];
      e.raw("decl", write(j["decl"]));
    } else if (op == "valid") {
      Agent* a = w.fresh();
      std::string res = "ok";
      try {
        std::stringstream ss;
        ss << "<grammar xmlns=\"http://relaxng.org/ns/structure/1.0\" datatypeLibrary=\"http://www.w3.org/2001/XMLSchema-datatypes\"><start><element name=\"config\"><element name=\"" << w.cls << "\">" << a->schema() << "</element></element></start></grammar>";
        XMLParser x;
        x.Init(j["xml"].asString());
        try { x.Validate(ss); } catch (std::exception& ex) { res = "refused"; }
      } catch (std::exception& ex) { res = std::string("failed: ") + ex.what(); }
      e.raw("doc", write(j["doc"])).s("res", res);
    } else if (op == "load") {
      std::string res = "ok";
      try {
        XMLParser x;
        x.Init("<agent><name>" + j["proto"].asString() + "</name>" + (j["life"].asInt() >= 0 ? "<lifetime>" + std::to_string(j["life"].asInt()) + "</lifetime>" : "") + j["xml"].asString() + "</agent>");
        InfileTree tree(x);
        Agent* a = w.fresh();
        std::string fn = w.saved([&] { a->Agent::InfileToDb(&tree, DbInit(a, true)); a->InfileToDb(&tree, DbInit(a)); });
        Agent* b;
        try { b = w.restored(fn, a->id()); } catch (...) { unlink(fn.c_str()); throw; }
        unlink(fn.c_str());
        w.ag[j["id"].asInt()] = b;
      } catch (std::exception& ex) { res = std::string("failed: ") + ex.what(); }
      e.raw("doc", write(j["doc"])).i("id", j["id"].asInt()).s("proto", j["proto"].asString()).i("life", j["life"].asInt()).s("res", res);
    } else if (op == "clone") {
      int a = j["from"].asInt(), b = j["id"].asInt();
      bool on = w.ag.count(a);
      if (on) { Agent* n = w.ag[a]->Clone(); n->spec("v:gen:" + w.cls); w.ag[b] = n; }
      e.i("from", a).i("id", b).b("on", on);
    } else if (op == "set") {
      int a = j["id"].asInt();
      bool on = w.ag.count(a);
      if (on) w.c().set(w.ag[a], j["var"].asString(), j["val"]);
      e.i("id", a).s("var", j["var"].asString()).raw("val", write(j["val"])).b("on", on);
    } else if (op == "push") {
      int a = j["id"].asInt();
      bool on = w.ag.count(a);
      int id = 0; std::string res = "ok";
      if (on) {
        Resource::Ptr r;
        double q = j["q"].asInt() / 8.0;
        if (j["kind"].asString() == "mat") { CompMap m; m[922350000] = 1; r = Material::CreateUntracked(q, Composition::CreateFromMass(m)); }
        else r = Product::CreateUntracked(q, "steel");
        id = r->obj_id();
        try { w.c().push(w.ag[a], j["buf"].asString(), r); w.res[id] = r; } catch (std::exception& ex) { res = "refused"; }
      }
      e.i("id", a).s("buf", j["buf"].asString()).i("q", j["q"].asInt()).i("res_id", id).b("on", on).s("res", res);
    } else if (op == "snap") {
      int a = j["id"].asInt(), s = j["slot"].asInt();
      bool on = w.ag.count(a);
      std::string res = "ok";
      std::vector<std::string> inv;
      if (on) {
        try {
          Agent* m = w.ag[a];
          std::string fn = w.saved([&] { m->Agent::Snapshot(DbInit(m, true)); m->Snapshot(DbInit(m)); });
          if (w.slot.count(s)) unlink(w.slot[s].file.c_str());
          Slot x; x.file = fn; x.id = m->id(); x.inv = m->SnapshotInv();
          for (auto& i : x.inv) { std::vector<int> ids; for (auto& r : i.second) ids.push_back(r->obj_id()); inv.push_back(vh::J().s("n", i.first).raw("ids", vh::ints(ids)).str()); }
          w.slot[s] = x;
        } catch (std::exception& ex) { res = std::string("failed: ") + ex.what(); }
      }
      e.i("id", a).i("slot", s).b("on", on).raw("inv", vh::arr(inv)).s("res", res);
    } else if (op == "restore") {
      int b = j["id"].asInt(), s = j["slot"].asInt();
      bool on = w.slot.count(s);
      std::string res = "ok";
      if (on) {
        try {
          Agent* m = w.restored(w.slot[s].file, w.slot[s].id);
          Inventories inv = w.slot[s].inv;
          m->InitInv(inv);
          w.ag[b] = m;
        } catch (std::exception& ex) { res = std::string("failed: ") + ex.what(); }
      }
      e.i("id", b).i("slot", s).b("on", on).s("res", res);
    } else if (op == "annot") {
      Agent* a = w.fresh();
      std::string res = "ok", ent, doc;
      std::vector<std::string> vs;
      try {
        Json::Value r = a->annotations();
        ent = r["entity"].asString(); doc = r["doc"].asString();
        for (auto& n : r["vars"].getMemberNames()) {
          const Json::Value& v = r["vars"][n];
          if (!v.isObject()) { vs.push_back(vh::J().s("n", n).s("to", v.asString()).str()); continue; }
          if (type(v["type"]).find("cyclus::") != std::string::npos) continue;   // buffers
          vh::J x;
          x.s("n", n).s("to", "").raw("t", type(v["type"])).s("doc", v["doc"].asString()).s("units", v["units"].asString()).b("int", v["internal"].isBool() && v["internal"].asBool()).b("hasd", v.isMember("default"));
          std::string d = v.isMember("default") ? w.c().told(a, n, v["default"]) : "";
          x.raw("d", d == "" ? arch::leaf("-") : d);
          vs.push_back(x.str());
        }
      } catch (std::exception& ex) { res = std::string("failed: ") + ex.what(); }
      e.s("entity", ent).s("doc", doc).raw("vars", vh::arr(vs)).s("res", res);
    } else t.die();
    w.all(e).emit();
  }
  vh::J("end").emit();
}
int main() {
  char b[] = "/tmp/verif-arch-XXXXXX";
  if (!mkdtemp(b)) return 98;
  kDir = b;
  int r = vh::run(history);
  rmdir(b);
  return r;
}
