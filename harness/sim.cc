// Loads simulations from input files through the real loaders, initialises and runs them with
// scripted agents, and restarts them from their database; reports everything observable.
#include "vh.h"
#include "xml_file_loader.h"
#include "xml_flat_loader.h"
#include "sim_init.h"
#include "greedy_solver.h"
#include "prog_solver.h"
#include "exchange_graph.h"
#include <unistd.h>
#include "hdf5_back.h"
#include "sqlite_back.h"
class SimInitTest { public: static void reg(const std::string& s, cyclus::AgentCtor* c) { cyclus::DynamicModule::man_ctors_[s] = c; } };
using namespace cyclus;
using vh::J;
using vh::Tok;

static std::string dstr(double d) { char b[40]; snprintf(b, sizeof b, "%.17g", d); return b; }
static long long q(double x) { return vh::qty(x, 64); }

struct Act { int t; Tok tk; };
struct Book { std::vector<std::pair<int, int> > pend; std::set<int> doomed; };
struct World {
  Context* ctx = NULL;
  std::map<int, Agent*> live;
  bool quiet = true;
  Book book;
};
static World* W;
static std::vector<Act> script;
static std::map<int, Book> books;
static std::set<int> snaps;   // times at which the original run was snapshot

static std::string resj(Resource::Ptr r) {
  std::string o = "[" + std::to_string(r->obj_id()) + "," + std::to_string(r->state_id()) + "," + std::to_string(q(r->quantity())) + ",\"" + vh::esc(r->package_name()) + "\",";
  Material::Ptr m = boost::dynamic_pointer_cast<Material>(r);
  if (m) {
    CompMap c = m->comp()->mass();
    compmath::Normalize(&c, 1);
    std::string s = "m";
    for (auto& kv : c) { char b[60]; snprintf(b, sizeof b, " %d:%.5g", kv.first, kv.second); s += b; }
    s += " d" + std::to_string(m->prev_decay_time());
    o += "\"" + s + "\"]";
  } else {
    o += "\"p " + vh::esc(r->units() + " ") + vh::esc(boost::dynamic_pointer_cast<Product>(r)->quality()) + "\"]";
  }
  return o;
}
static std::string lst(const std::vector<Resource::Ptr>& v) {
  std::vector<std::string> s;
  for (auto& r : v) s.push_back(resj(r));
  return vh::arr(s);
}

struct State {
  int val = 0, role = 0;
  std::string txt;
  double num = 0;
  std::vector<Resource::Ptr> mats, prods;
};

static const char* SCHEMA =
    "<interleave><element name=\"val\"><data type=\"int\"/></element>"
    "<optional><element name=\"role\"><data type=\"int\"/></element></optional>"
    "<element name=\"txt\"><data type=\"string\"/></element>"
    "<optional><element name=\"num\"><data type=\"double\"/></element></optional></interleave>";

template <class B>
class V : public B {
 public:
  explicit V(Context* c) : B(c) {}
  virtual Agent* Clone() { V* v = new V(this->context()); v->InitFrom(this); return v; }
  void InitFrom(V* m) { B::InitFrom(m); st = m->st; st.mats.clear(); st.prods.clear(); }
  virtual std::string version() { return "v1"; }
  virtual std::string schema() { return SCHEMA; }
  virtual void InfileToDb(InfileTree* qe, DbInit di) {
    InfileTree* t = qe->SubTree("config/*");
    di.NewDatum("Info")->AddVal("val", Query<int>(t, "val"))->AddVal("role", OptionalQuery<int>(t, "role", 0))
        ->AddVal("txt", Query<std::string>(t, "txt"))->AddVal("num", OptionalQuery<double>(t, "num", 0.25))->Record();
  }
  virtual void InitFrom(QueryableBackend* b) {
    QueryResult r = b->Query("Info", NULL);
    st.val = r.GetVal<int>("val");
    st.role = r.GetVal<int>("role");
    st.txt = r.GetVal<std::string>("txt");
    st.num = r.GetVal<double>("num");
  }
  virtual void Snapshot(DbInit di) {
    di.NewDatum("Info")->AddVal("val", st.val)->AddVal("role", st.role)->AddVal("txt", st.txt)->AddVal("num", st.num)->Record();
  }
  virtual Inventories SnapshotInv() { Inventories i; i["mats"] = st.mats; i["prods"] = st.prods; return i; }
  virtual void InitInv(Inventories& i) { st.mats = i["mats"]; st.prods = i["prods"]; }
  virtual void EnterNotify() {
    W->live[this->id()] = this;
    B::EnterNotify();
    if (!W->quiet) J("enter").i("t", this->context()->time()).raw("a", js()).emit();
  }
  virtual void Decommission() {
    if (!W->quiet) J("exit").i("t", this->context()->time()).i("id", this->id()).emit();
    W->live.erase(this->id());
    W->book.doomed.erase(this->id());
    B::Decommission();
  }
  virtual void Tick() { if (!W->quiet) J("tick").i("t", this->context()->time()).i("id", this->id()).emit(); }
  virtual void Tock() { Tk(); }
  void Tk();
  std::string js() {
    return J().i("id", this->id()).s("proto", this->prototype()).s("kind", this->kind()).s("spec", this->spec())
        .i("par", this->parent() ? this->parent()->id() : -1).i("et", this->enter_time()).i("life", this->lifetime())
        .i("val", st.val).i("role", st.role).s("txt", st.txt).s("num", dstr(st.num)).raw("mats", lst(st.mats)).raw("prods", lst(st.prods)).str();
  }
  State st;
};
template <> void V<Region>::Tk() {}
template <> void V<Institution>::Tk() { Institution::Tock(); }
template <> void V<Facility>::Tk() {}

class Fac : public V<Facility> {
 public:
  explicit Fac(Context* c) : V<Facility>(c) {}
  virtual Agent* Clone() { Fac* v = new Fac(context()); v->V<Facility>::InitFrom(this); return v; }
  using V<Facility>::InitFrom;
  void inv(const char* op) { J(op).i("t", context()->time()).i("id", id()).raw("mats", lst(st.mats)).raw("prods", lst(st.prods)).emit(); }
  // one supplier and one requester at a time: the order among several depends on addresses
  bool first(int role);
  virtual std::set<RequestPortfolio<Material>::Ptr> GetMatlRequests() {
    std::set<RequestPortfolio<Material>::Ptr> ps;
    if (st.role != 2 || W->quiet || !first(2)) return ps;
    RequestPortfolio<Material>::Ptr p(new RequestPortfolio<Material>());
    CompMap cm;
    cm[922350000] = 1;
    p->AddRequest(Material::CreateUntracked(1.5, Composition::CreateFromMass(cm)), this, "c", 1 + (st.val & 3));
    ps.insert(p);
    return ps;
  }
  virtual std::set<BidPortfolio<Material>::Ptr> GetMatlBids(CommodMap<Material>::type& cr) {
    std::set<BidPortfolio<Material>::Ptr> ps;
    if (st.role != 1 || st.mats.empty() || W->quiet || !first(1)) return ps;
    double tot = 0;
    for (auto& r : st.mats) tot += r->quantity();
    BidPortfolio<Material>::Ptr p(new BidPortfolio<Material>());
    bool any = false;
    for (auto* r : cr["c"]) {
      p->AddBid(r, boost::dynamic_pointer_cast<Material>(st.mats[0]), this);
      any = true;
    }
    if (!any) return ps;
    CapacityConstraint<Material> cc(tot);
    p->AddConstraint(cc);
    ps.insert(p);
    return ps;
  }
  virtual void GetMatlTrades(const std::vector<Trade<Material> >& trades, std::vector<std::pair<Trade<Material>, Material::Ptr> >& out) {
    for (auto& t : trades) {
      Material::Ptr got;
      double need = t.amt;
      while (need > 1e-9 && !st.mats.empty()) {
        Material::Ptr m = boost::dynamic_pointer_cast<Material>(st.mats[0]);
        Material::Ptr x;
        if (m->quantity() <= need + 1e-9) { x = m; st.mats.erase(st.mats.begin()); }
        else x = m->ExtractQty(need);
        need -= x->quantity();
        if (!got) got = x; else got->Absorb(x);
      }
      out.push_back(std::make_pair(t, got));
    }
    inv("gave");
  }
  virtual void AcceptMatlTrades(const std::vector<std::pair<Trade<Material>, Material::Ptr> >& rs) {
    for (auto& r : rs) st.mats.push_back(r.second);
    inv("got");
  }
};

bool Fac::first(int role) {
  for (auto& kv : W->live) {
    Fac* f = dynamic_cast<Fac*>(kv.second);
    if (f && f->st.role == role && (role == 2 || !f->st.mats.empty())) return f == this;
  }
  return false;
}

static State& stof(Agent* a) {
  if (auto* r = dynamic_cast<V<Region>*>(a)) return r->st;
  if (auto* i = dynamic_cast<V<Institution>*>(a)) return i->st;
  return dynamic_cast<Fac*>(a)->st;
}
static std::string jsof(Agent* a) {
  if (auto* r = dynamic_cast<V<Region>*>(a)) return r->js();
  if (auto* i = dynamic_cast<V<Institution>*>(a)) return i->js();
  return dynamic_cast<Fac*>(a)->js();
}
static Agent* MkR(Context* c) { return new V<Region>(c); }
static Agent* MkI(Context* c) { return new V<Institution>(c); }
static Agent* MkF(Context* c) { return new Fac(c); }

static std::string allj() {
  std::vector<std::string> s;
  for (auto& kv : W->live) s.push_back(jsof(kv.second));
  return vh::arr(s);
}
static std::string npj() {
  std::map<std::string, int> m;
  std::set<std::string> ps;
  for (auto& kv : W->live) ps.insert(kv.second->prototype());
  std::string o = "[";
  for (auto& p : ps) o += std::string(o.size() > 1 ? "," : "") + "{\"p\":\"" + vh::esc(p) + "\",\"n\":" + std::to_string(W->ctx->n_prototypes(p)) + "}";
  return o + "]";
}
static Agent* sel(const std::string& kinds, int k) {
  std::vector<Agent*> v;
  for (auto& kv : W->live) if (kinds.find(kv.second->kind()[0]) != std::string::npos) v.push_back(kv.second);
  return v.empty() ? NULL : v[k % v.size()];
}

class Driver : public TimeListener {
 public:
  int asked = -1;
  virtual const int id() const { return 1 << 30; }
  virtual void Tick() {
    int t = W->ctx->time();
    for (auto& a : script) if (a.t == t) Do(a.tk, t);
  }
  virtual void Tock() {}
  virtual void Decision() {
    int t = W->ctx->time();
    J("obs").i("t", t).raw("agents", allj()).raw("np", npj()).emit();
  }
  void inv(const char* op, int t, Agent* a) { State& s = stof(a); J(op).i("t", t).i("id", a->id()).raw("mats", lst(s.mats)).raw("prods", lst(s.prods)).emit(); }
  void Do(const Tok& k, int t) {
    std::string op = k.s(2);
    if (op == "sb") {           // sb proto parentsel dt
      Agent* p = k.i(4) < 0 ? NULL : sel("RI", k.i(4));
      if (p && (W->book.doomed.count(p->id()) || p->lifetime() != -1)) p = NULL;   // it has to live until then
      int at = t + k.i(5);
      W->ctx->SchedBuild(p, k.s(3), at);
      W->book.pend.push_back(std::make_pair(p ? p->id() : -1, at));
      J("sb").i("t", t).s("proto", k.s(3)).i("par", p ? p->id() : -1).i("at", at).emit();
    } else if (op == "sd") {    // sd kinds sel dt
      Agent* a = sel(k.s(3), k.i(4));
      if (!a) return;
      for (auto& x : W->book.pend) if (x.first == a->id() && x.second > t) return;
      int at = t + k.i(5);
      W->book.doomed.insert(a->id());
      W->ctx->SchedDecom(a, at);
      J("sd").i("t", t).i("id", a->id()).i("at", at).emit();
    } else if (op == "set") {   // set sel val role txt num
      Agent* a = sel("RIF", k.i(3));
      if (!a) return;
      State& s = stof(a);
      s.val = k.i(4); s.role = k.i(5); s.txt = k.s(6); s.num = k.d(7);
      J("set").i("t", t).i("id", a->id()).i("val", s.val).i("role", s.role).s("txt", s.txt).s("num", dstr(s.num)).emit();
    } else if (op == "mk") {    // mk sel m|p qty64 qual pkg
      Agent* a = sel("F", k.i(3));
      if (!a) return;
      State& s = stof(a);
      double x = k.d(5) / 64;
      if (k.s(4) == "m") s.mats.push_back(Material::Create(a, x, W->ctx->GetRecipe(k.s(6)), k.s(7)));
      else s.prods.push_back(Product::Create(a, x, k.s(6), k.s(7)));
      J("mk").i("t", t).i("id", a->id()).s("k", k.s(4)).i("q", k.i(5)).s("qual", k.s(6)).s("pkg", k.s(7)).raw("r", resj(k.s(4) == "m" ? s.mats.back() : s.prods.back())).emit();
    } else if (op == "cut") {   // cut sel: split the first resource of each inventory in two
      Agent* a = sel("F", k.i(3));
      if (!a) return;
      State& s = stof(a);
      if (!s.mats.empty() && s.mats[0]->quantity() > 1) s.mats.push_back(boost::dynamic_pointer_cast<Material>(s.mats[0])->ExtractQty(1));
      if (!s.prods.empty() && s.prods[0]->quantity() > 1) s.prods.push_back(boost::dynamic_pointer_cast<Product>(s.prods[0])->Extract(1));
      inv("inv", t, a);
    } else if (op == "join") {  // join sel: absorb the last resource into the first
      Agent* a = sel("F", k.i(3));
      if (!a) return;
      State& s = stof(a);
      if (s.mats.size() > 1) { boost::dynamic_pointer_cast<Material>(s.mats[0])->Absorb(boost::dynamic_pointer_cast<Material>(s.mats.back())); s.mats.pop_back(); }
      if (s.prods.size() > 1) {
        Product::Ptr a0 = boost::dynamic_pointer_cast<Product>(s.prods[0]), b0 = boost::dynamic_pointer_cast<Product>(s.prods.back());
        if (a0->quality() == b0->quality()) { a0->Absorb(b0); s.prods.pop_back(); }
      }
      inv("inv", t, a);
    } else if (op == "mv") {    // mv from to: move the first material and product
      Agent *a = sel("F", k.i(3)), *b = sel("F", k.i(4));
      if (!a || a == b) return;
      State &s = stof(a), &d = stof(b);
      if (!s.mats.empty()) { d.mats.push_back(s.mats[0]); s.mats.erase(s.mats.begin()); }
      if (!s.prods.empty()) { d.prods.push_back(s.prods[0]); s.prods.erase(s.prods.begin()); }
      inv("inv", t, a);
      inv("inv", t, b);
    } else if (op == "repack") {
      Agent* a = sel("F", k.i(3));
      if (!a || stof(a).mats.empty()) return;
      try {
        boost::dynamic_pointer_cast<Material>(stof(a).mats[0])->ChangePackage(k.s(4));
      } catch (ValueError& e) {}  // outside the fill limits: nothing changes
      inv("inv", t, a);
    } else if (op == "snap") {
      W->ctx->Snapshot();
      asked = t + 1;
      J("snap").i("t", t).emit();
    } else if (op == "kill") {
      W->ctx->KillSim();
      J("kill").i("t", t).emit();
    } else {
      k.die();
    }
  }
};

struct Peek : public ExchangeSolver {
  static bool excl(ExchangeSolver* s) { return s->*(&Peek::exclusive_orders_); }
  virtual double SolveGraph() { return 0; }
};

// the commodities in the order in which the solver serves them when supply is short
static std::string served(ExchangeSolver* s, const std::vector<std::string>& cs) {
  std::vector<std::string> order;
  std::set<std::string> seen;
  for (size_t n = 1; n <= cs.size(); n++) {
    ExchangeGraph g;
    ExchangeNodeGroup::Ptr sup(new ExchangeNodeGroup());
    std::vector<ExchangeNode::Ptr> us;
    for (auto& c : cs) {
      RequestGroup::Ptr rg(new RequestGroup(1.0));
      ExchangeNode::Ptr u(new ExchangeNode(1.0, false, c)), v(new ExchangeNode(1.0, false, c));
      u->unit_capacities.clear();
      Arc a(u, v);
      u->unit_capacities[a].push_back(1);
      v->unit_capacities[a].push_back(1);
      u->prefs[a] = 1;
      a.pref(1);
      rg->AddCapacity(1.0);
      rg->AddExchangeNode(u);
      sup->AddExchangeNode(v);
      g.AddRequestGroup(rg);
      g.AddArc(a);
      us.push_back(u);
    }
    sup->AddCapacity((double)n);
    g.AddSupplyGroup(sup);
    s->Solve(&g);
    for (auto& m : g.matches())
      if (m.second > 0.5 && seen.insert(m.first.unode()->commod).second) order.push_back(m.first.unode()->commod);
  }
  return vh::strs(order);
}

static void info(const char* op, Context* c, const Tok& names, int t) {
  SimInfo si = c->sim_info();
  // names: rec,.. ; pkg,.. ; tu,.. ; commods,..
  auto split = [](const std::string& s) { std::vector<std::string> o; std::string x; std::istringstream is(s); while (std::getline(is, x, ',')) if (x != "-") o.push_back(x); return o; };
  std::vector<std::string> rs, ps, ts;
  for (auto& n : split(names.s(1))) {
    std::string s;
    try {
      Composition::Ptr cc = c->GetRecipe(n);
      CompMap m = cc->mass(), a = cc->atom();
      compmath::Normalize(&m, 1);
      compmath::Normalize(&a, 1);
      std::string mj = "[", aj = "[";
      for (auto& kv : m) mj += std::string(mj.size() > 1 ? "," : "") + "[" + std::to_string(kv.first / 10000) + "," + std::to_string(vh::qty(kv.second, 64, 1e-9)) + "]";
      for (auto& kv : a) aj += std::string(aj.size() > 1 ? "," : "") + "[" + std::to_string(kv.first / 10000) + "," + std::to_string(vh::qty(kv.second, 64, 1e-9)) + "]";
      s = "{\"name\":\"" + n + "\",\"mass\":" + mj + "],\"atom\":" + aj + "]}";
    } catch (std::exception& e) { s = "{\"name\":\"" + n + "\",\"mass\":[],\"atom\":[]}"; }
    rs.push_back(s);
  }
  for (auto& n : split(names.s(2))) {
    try {
      Package::Ptr p = c->GetPackage(n);
      ps.push_back(J().s("name", p->name()).s("lo", dstr(p->fill_min())).s("hi", dstr(p->fill_max())).s("strat", p->strategy()).str());
    } catch (std::exception& e) { ps.push_back(J().s("name", "missing " + n).s("lo", "").s("hi", "").s("strat", "").str()); }
  }
  for (auto& n : split(names.s(3))) {
    try {
      TransportUnit::Ptr p = c->GetTransportUnit(n);
      ts.push_back(J().s("name", p->name()).i("lo", p->fill_min()).i("hi", p->fill_max()).s("strat", p->strategy()).str());
    } catch (std::exception& e) { ts.push_back(J().s("name", "missing " + n).i("lo", 0).i("hi", 0).s("strat", "").str()); }
  }
  ExchangeSolver* s = c->solver();
  std::string kind = dynamic_cast<GreedySolver*>(s) ? "greedy" : dynamic_cast<ProgSolver*>(s) ? "coin-or" : "?";
  bool ex = Peek::excl(s);
  std::string ord = kind == "greedy" ? served(s, split(names.s(4))) : "[]";
  J(op).i("t", c->time()).i("dur", si.duration).i("y0", si.y0).i("m0", si.m0).s("handle", si.handle).s("decay", si.decay)
      .s("dt", std::to_string(c->dt())).s("seed", std::to_string(c->seed())).s("stride", std::to_string(c->stride()))
      .s("eps", dstr(si.eps)).s("epsr", dstr(si.eps_rsrc)).s("geps", dstr(cyclus::eps())).s("gepsr", dstr(cyclus::eps_rsrc()))
      .b("ei", si.explicit_inventory).b("eic", si.explicit_inventory_compact)
      .raw("recipes", vh::arr(rs)).raw("pkgs", vh::arr(ps)).raw("tus", vh::arr(ts))
      .s("solver", kind).b("excl", ex).raw("order", ord).raw("agents", allj()).raw("np", npj())
      .i("parent", si.parent_type == "restart" ? 1 : 0).emit();
}

static void table(QueryableBackend* b, boost::uuids::uuid sim, const std::string& tab, const std::string& tcol, const std::vector<std::string>& cols) {
  std::vector<std::string> out;
  try {
    std::vector<Cond> cs;
    cs.push_back(Cond("SimId", "==", sim));
    QueryResult r = b->Query(tab, &cs);
    for (size_t i = 0; i < r.rows.size(); i++) {
      std::string s;
      long long t = 0;
      for (auto& c : cols) {
        std::string v = "?";
        for (size_t f = 0; f < r.fields.size(); f++) if (r.fields[f] == c) {
          auto& a = r.rows[i][f];
          if (a.type() == typeid(int)) v = std::to_string(a.cast<int>());
          else if (a.type() == typeid(bool)) v = a.cast<bool>() ? "1" : "0";
          else if (a.type() == typeid(double)) { char bb[40]; snprintf(bb, sizeof bb, "%.9g", a.cast<double>()); v = bb; }
          else if (a.type() == typeid(std::string)) v = a.cast<std::string>();
        }
        if (c == tcol) t = atoll(v.c_str());
        s += (s.empty() ? "" : "|") + v;
      }
      out.push_back("{\"t\":" + std::to_string(t) + ",\"r\":\"" + vh::esc(s) + "\"}");
    }
  } catch (std::exception& e) {}
  J("rows").s("tab", tab).raw("rows", vh::arr(out)).emit();
}
static void tables(QueryableBackend* b, boost::uuids::uuid sim) {
  table(b, sim, "AgentEntry", "EnterTime", {"AgentId", "Kind", "Spec", "Prototype", "ParentId", "Lifetime", "EnterTime"});
  table(b, sim, "AgentExit", "ExitTime", {"AgentId", "ExitTime"});
  table(b, sim, "Transactions", "Time", {"TransactionId", "SenderId", "ReceiverId", "ResourceId", "Commodity", "Time"});
  table(b, sim, "Resources", "TimeCreated", {"ResourceId", "ObjId", "Type", "TimeCreated", "Quantity", "Units", "PackageName", "Parent1", "Parent2"});
  table(b, sim, "BuildSchedule", "SchedTime", {"ParentId", "Prototype", "SchedTime", "BuildTime"});
  table(b, sim, "DecomSchedule", "SchedTime", {"AgentId", "SchedTime", "DecomTime"});
  table(b, sim, "ExplicitInventory", "Time", {"AgentId", "Time", "InventoryName", "NucId", "Quantity", "Units"});
  table(b, sim, "Finish", "EndTime", {"EarlyTerm", "EndTime"});
}

static std::string unhex(const std::string& h) {
  std::string o;
  for (size_t i = 0; i + 1 < h.size(); i += 2) o += (char)strtol(h.substr(i, 2).c_str(), NULL, 16);
  return o;
}
static std::string REPO;

static void Load(Recorder* rec, FullBackend* b, const std::string& xml, bool flat) {
  FILE* f = fopen("in.xml", "w");
  fwrite(xml.data(), 1, xml.size(), f);
  fclose(f);
  World w;
  W = &w;
  if (flat) { XMLFlatLoader l(rec, b, REPO + "/share/cyclus-flat.rng.in", "in.xml"); l.LoadSim(); }
  else { XMLFileLoader l(rec, b, REPO + "/share/cyclus.rng.in", "in.xml"); l.LoadSim(); }
  W = NULL;
}

static void History(const std::vector<Tok>& sc) {
  SimInitTest::reg(":v:R", MkR);
  SimInitTest::reg(":v:I", MkI);
  SimInitTest::reg(":v:F", MkF);
  script.clear();
  books.clear();
  snaps.clear();
  std::string xml, kind = "sqlite", other;
  bool flat = false;
  Tok names("names - - - -");
  FullBackend* b = NULL;
  boost::uuids::uuid sim;
  bool ok = false;
  Driver drv;
  unlink("sim.sqlite");
  unlink("sim.h5");
  cyclus::cy_eps = cyclus::cy_eps_rsrc = 1e-6;
  for (auto& k : sc) {
    std::string op = k.s(0);
    if (op == "model") J("file").raw("m", k.line.substr(6)).emit();
    else if (op == "xml") xml = unhex(k.s(1));
    else if (op == "other") other = unhex(k.s(1));
    else if (op == "flat") flat = true;
    else if (op == "back") kind = k.s(1);
    else if (op == "names") names = k;
    else if (op == "at") script.push_back(Act{k.i(1), k});
    else if (op == "run") {
      if (kind == "h5") b = new Hdf5Back("sim.h5"); else b = new SqliteBack(kind == "mem" ? ":memory:" : "sim.sqlite");
      if (!other.empty()) {   // another simulation in the same database
        Recorder r;
        r.RegisterBackend(b);
        Load(&r, b, other, false);
        World w;
        W = &w;
        {
          SimInit si;
          si.Init(&r, b);
          w.ctx = si.context();
          si.timer()->RunSim();
          r.Flush();
        }
        W = NULL;
        r.Close();
      }
      Recorder rec;
      rec.RegisterBackend(b);
      sim = rec.sim_id();
      try {
        Load(&rec, b, xml, flat);
        J("load").s("res", "ok").s("why", "").emit();
        ok = true;
      } catch (std::exception& e) {
        W = NULL;
        J("load").s("res", "error").s("why", "refused").emit();
        rec.Close();
        break;
      }
      World w;
      W = &w;
      {
        cyclus::cy_eps = cyclus::cy_eps_rsrc = 3e-5;   // as in a process that has not read the input file
        SimInit si;
        si.Init(&rec, b);
        w.ctx = si.context();
        info("init", w.ctx, names, 0);
        w.quiet = false;
        struct Keep : public Driver { virtual void Tick() { books[W->ctx->time()] = W->book; if (asked == W->ctx->time()) snaps.insert(asked); Driver::Tick(); } } kd;
        w.ctx->RegisterTimeListener(&kd);
        si.timer()->RunSim();
        books[w.ctx->time()] = w.book;
        snaps.insert(w.ctx->time());
        J("end").i("t", w.ctx->time()).raw("agents", allj()).raw("np", npj()).emit();
        rec.Flush();
        w.quiet = true;
        tables(b, sim);
      }
      rec.Close();
      W = NULL;
    } else if (op == "reopen") {   // a fresh process reads the file
      if (!ok || kind == "mem") continue;
      delete b;
      if (kind == "h5") b = new Hdf5Back("sim.h5"); else b = new SqliteBack("sim.sqlite");
      J("reopen").emit();
    } else if (op == "restart") {
      if (!ok) continue;
      auto it = snaps.begin();
      std::advance(it, k.i(1) % snaps.size());
      int t = *it;
      World w;
      W = &w;
      cyclus::cy_eps = cyclus::cy_eps_rsrc = 3e-5;
      {
        SimInit si;
        J("restart").i("at", t).emit();
        try {
          si.Restart(b, sim, t);
        } catch (cyclus::Error& e) {
          J("restarted").s("res", "error").s("why", e.what()).emit();
          W = NULL;
          continue;
        }
        J("restarted").s("res", "ok").s("why", "").emit();
        w.ctx = si.context();
        w.book = books[t];
        si.recorder()->RegisterBackend(b);
        info("rinit", w.ctx, names, t);
        w.quiet = false;
        w.ctx->RegisterTimeListener(&drv);
        si.timer()->RunSim();
        J("end").i("t", w.ctx->time()).raw("agents", allj()).raw("np", npj()).emit();
        si.recorder()->Flush();
        w.quiet = true;
        tables(b, si.recorder()->sim_id());
        si.recorder()->Close();
      }
      W = NULL;
    } else k.die();
  }
  delete b;
  J("fin").emit();
}

int main(int argc, char** argv) {
  REPO = argv[1];
  return vh::run(History);
}
