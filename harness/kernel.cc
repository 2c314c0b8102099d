// Drives the real simulation kernel (Timer, Context, Agent, Facility, Institution, Region)
// with scripted agents and reports every callback, API result and recorded row.
#include "vh.h"
using namespace cyclus;
using vh::J;
using vh::Tok;

struct Action { int t; std::string ph; int who; Tok tk; };

struct World {
  Timer* ti;
  Context* ctx;
  Recorder* rec;
  std::vector<Agent*> byidx;       // idx-1 -> agent (NULL once dead)
  std::map<int, int> idx;          // agent id -> idx
  std::vector<Action> acts;
  std::vector<std::string> rows;   // rows recorded inside a driver API call
  bool embed = false;
  std::map<int, int> hold;         // idx -> do not allow decommission before this time
  std::map<int, int> inv;
  int of(Agent* a) { if (!a) return 0; auto it = idx.find(a->id()); return it == idx.end() ? -1 : it->second; }
  int ofid(long long id) { if (id == -1) return 0; auto it = idx.find((int)id); return it == idx.end() ? -1 : it->second; }
};
static World* W;

static void emit(const J& j) { j.emit(); }

static void OnRow(Datum* d) {
  std::string t = d->title();
  J j;
  if (t == "AgentEntry") {
    j = J("row_entry");
    j.i("a", W->ofid(vh::fint(d, "AgentId"))).s("kind", vh::fstr(d, "Kind")).s("spec", vh::fstr(d, "Spec"))
     .s("proto", vh::fstr(d, "Prototype")).i("par", W->ofid(vh::fint(d, "ParentId")))
     .i("life", vh::fint(d, "Lifetime")).i("t", vh::fint(d, "EnterTime"));
  } else if (t == "AgentExit") {
    j = J("row_exit");
    j.i("a", W->ofid(vh::fint(d, "AgentId"))).i("t", vh::fint(d, "ExitTime"));
  } else if (t == "BuildSchedule") {
    j = J("row_sb");
    j.i("par", W->ofid(vh::fint(d, "ParentId"))).s("proto", vh::fstr(d, "Prototype"))
     .i("t", vh::fint(d, "SchedTime")).i("at", vh::fint(d, "BuildTime"));
  } else if (t == "DecomSchedule") {
    j = J("row_sd");
    j.i("a", W->ofid(vh::fint(d, "AgentId"))).i("t", vh::fint(d, "SchedTime")).i("at", vh::fint(d, "DecomTime"));
  } else if (t == "Finish") {
    j = J("row_finish");
    j.b("early", vh::fint(d, "EarlyTerm") != 0).i("end", vh::fint(d, "EndTime"));
  } else if (t == "Snapshots") {
    j = J("row_snap");
    j.i("t", vh::fint(d, "Time"));
  } else if (t == "ExplicitInventory") {
    j = J("row_inv");
    j.i("a", W->ofid(vh::fint(d, "AgentId"))).i("t", vh::fint(d, "Time")).s("inv", vh::fstr(d, "InventoryName"))
     .i("nuc", vh::fint(d, "NucId") / 10000).i("q", vh::qty(vh::fdbl(d, "Quantity"), 1000));
  } else if (t == "ExplicitInventoryCompact") {
    j = J("row_invc");
    auto* v = vh::field(d, "Composition");
    std::vector<std::string> cs;
    if (v && v->type() == typeid(CompMap)) {
      CompMap c = v->cast<CompMap>();
      for (auto& kv : c)
        cs.push_back("[" + std::to_string(kv.first / 10000) + "," + std::to_string(vh::qty(kv.second * vh::fdbl(d, "Quantity"), 1000)) + "]");
    }
    j.i("a", W->ofid(vh::fint(d, "AgentId"))).i("t", vh::fint(d, "Time")).s("inv", vh::fstr(d, "InventoryName"))
     .i("q", vh::qty(vh::fdbl(d, "Quantity"), 1000)).raw("comp", vh::arr(cs));
  } else {
    return;
  }
  if (W->embed) W->rows.push_back(j.str());
  else emit(j);
}

static std::string rows() { std::string r = vh::arr(W->rows); W->rows.clear(); return r; }

static void DoActs(const std::string& ph, int who);

template <class B>
class V : public B {
 public:
  explicit V(Context* c) : B(c) {}
  virtual Agent* Clone() { V* v = new V(this->context()); v->B::InitFrom(this); v->invs_ = invs_; return v; }
  virtual std::string version() { return "v0"; }
  virtual bool IsShim() { return this->id() % 3 == 0; }  // listeners of both sorts
  virtual void Snapshot(DbInit di) {
    if (this->enter_time() != -1) emit(J("snapped").i("a", W->of(this)).i("t", this->context()->time()));
  }
  virtual void InitFrom(QueryableBackend* b) {}
  using B::InitFrom;
  virtual void InitInv(Inventories& inv) {}
  virtual Inventories SnapshotInv() { return invs_; }
  virtual void EnterNotify() {
    W->byidx.push_back(this);
    int i = W->byidx.size();
    W->idx[this->id()] = i;
    emit(J("enter").i("a", i).s("proto", this->prototype()).s("kind", this->kind()).s("spec", this->spec())
         .i("par", W->of(this->parent())).i("t", this->context()->time()).i("et", this->enter_time())
         .i("life", this->lifetime()));
    B::EnterNotify();
  }
  virtual void BuildNotify(Agent* m) {
    emit(J("bnotify").i("p", W->of(this)).i("a", W->of(m)).i("t", this->context()->time()));
    B::BuildNotify(m);
  }
  virtual void DecomNotify(Agent* m) {
    emit(J("dnotify").i("p", W->of(this)).i("a", W->of(m)).i("t", this->context()->time()));
    B::DecomNotify(m);
  }
  virtual void Decommission() {
    emit(J("decom").i("a", W->of(this)).i("t", this->context()->time()));
    W->byidx[W->of(this) - 1] = NULL;
    B::Decommission();
  }
  virtual void Tick() {
    int me = W->of(this);
    emit(J("tick").i("a", me).i("t", this->context()->time()));
    DoActs("tick", me);
  }
  virtual void Tock();
  virtual void Decision() {
    int me = W->of(this);
    emit(J("dec").i("a", me).i("t", this->context()->time()));
    DoActs("dec", me);
  }
  Inventories invs_;
};

template <> void V<Facility>::Tock() {
  int me = W->of(this);
  emit(J("tock").i("a", me).i("t", context()->time()).raw("rows", "[]"));
  DoActs("tock", me);
}
template <> void V<Region>::Tock() {
  int me = W->of(this);
  emit(J("tock").i("a", me).i("t", context()->time()).raw("rows", "[]"));
  DoActs("tock", me);
}
template <> void V<Institution>::Tock() {
  int me = W->of(this);
  W->embed = true;
  Institution::Tock();
  W->embed = false;
  emit(J("tock").i("a", me).i("t", context()->time()).raw("rows", rows()));
  DoActs("tock", me);
}

class VFac : public V<Facility> {
 public:
  explicit VFac(Context* c) : V<Facility>(c) {}
  virtual Agent* Clone() { VFac* v = new VFac(context()); v->Facility::InitFrom(this); v->invs_ = invs_; return v; }
  virtual bool CheckDecommissionCondition() {
    auto it = W->hold.find(W->of(this));
    return it == W->hold.end() || context()->time() >= it->second;
  }
  virtual std::set<RequestPortfolio<Material>::Ptr> GetMatlRequests() {
    emit(J("reqm").i("a", W->of(this)).i("t", context()->time()));
    DoActs("reqm", W->of(this));
    return std::set<RequestPortfolio<Material>::Ptr>();
  }
  virtual std::set<RequestPortfolio<Product>::Ptr> GetProductRequests() {
    emit(J("reqp").i("a", W->of(this)).i("t", context()->time()));
    return std::set<RequestPortfolio<Product>::Ptr>();
  }
};
typedef V<Institution> VInst;
typedef V<Region> VReg;

static Agent* get(int i) { return (i >= 1 && i <= (int)W->byidx.size()) ? W->byidx[i - 1] : NULL; }

// the live agents b with f(a, b)
template <class F>
static std::string Rel(Agent* a, F f) {
  std::set<int> r;
  for (Agent* b : W->byidx)
    if (b && f(a, b)) r.insert(W->of(b));
  return vh::ints(r);
}

static std::string Fam() {
  // family relation of all live agents: parent and children
  std::vector<std::string> v;
  for (size_t i = 0; i < W->byidx.size(); i++) {
    Agent* a = W->byidx[i];
    if (!a) continue;
    std::set<int> ch;
    for (auto c : a->children()) ch.insert(W->of(c));
    v.push_back(J().i("a", i + 1).i("par", W->of(a->parent())).i("pid", W->ofid(a->parent_id())).raw("ch", vh::ints(ch)).i("life", a->lifetime())
                .i("enter", a->enter_time()).i("exit", a->exit_time())
                .raw("anc", Rel(a, [](Agent* x, Agent* y) { return y->AncestorOf(x); }))
                .raw("dec", Rel(a, [](Agent* x, Agent* y) { return y->DecendentOf(x); }))
                .raw("rel", Rel(a, [](Agent* x, Agent* y) { return x->InFamilyTree(y); })).str());
  }
  return vh::arr(v);
}

static void Act(const Tok& k, int by) {
  Context* c = W->ctx;
  std::string op = k.s(4);
  int now = c->time();
  W->embed = true;
  std::string res = "ok";
  J j(op);
  j.i("by", by).i("t", now);
  if (op == "sb") {           // sb proto parent at
    int par = k.i(6), at = k.i(7);
    if (par == -2) par = by;
    Agent* p = get(par);
    if (par > 0 && !p) { W->embed = false; return; }
    try { c->SchedBuild(p, k.s(5), at); }
    catch (KeyError& e) { res = "key"; } catch (ValueError& e) { res = "value"; } catch (std::exception& e) { res = "other"; }
    j.s("proto", k.s(5)).i("par", p ? par : 0).i("at", at);
  } else if (op == "sd") {    // sd agent at
    Agent* a = get(k.i(5));
    if (!a) { W->embed = false; return; }
    try { c->SchedDecom(a, k.i(6)); }
    catch (ValueError& e) { res = "value"; } catch (std::exception& e) { res = "other"; }
    j.i("a", k.i(5)).i("at", k.i(6));
  } else if (op == "kill") {
    c->KillSim();
  } else if (op == "snap") {
    c->Snapshot();
  } else if (op == "cnt") {   // registry counts
    j.s("proto", k.s(5)).i("n", c->n_prototypes(k.s(5))).s("spec", k.s(6)).i("ns", c->n_specs(k.s(6)));
  } else if (op == "life") {  // lifetime_force agent n
    Agent* a = get(k.i(5));
    if (!a) { W->embed = false; return; }
    try { a->lifetime_force(k.i(6)); } catch (ValueError& e) { res = "value"; }
    j.i("a", k.i(5)).i("n", k.i(6)).i("now", a->lifetime());
  } else if (op == "lifes") { // plain lifetime() must be refused on deployed agents
    Agent* a = get(k.i(5));
    if (!a) { W->embed = false; return; }
    try { a->lifetime(k.i(6)); } catch (ValueError& e) { res = "value"; }
    j.i("a", k.i(5)).i("n", k.i(6)).i("now", a->lifetime());
  } else if (op == "fam") {
    j.raw("fam", Fam());
  } else if (op == "tree") {  // the printed tree, as (depth, prototype) of each line
    Agent* a = get(k.i(5));
    if (!a) { W->embed = false; return; }
    std::vector<std::string> v;
    std::stringstream in(a->PrintChildren());
    std::string ln;
    std::getline(in, ln);     // heading
    while (std::getline(in, ln)) {
      size_t d = ln.find_first_not_of('\t');
      if (d == std::string::npos) continue;
      v.push_back(J().i("d", d).s("p", ln.substr(d)).str());
    }
    j.i("a", k.i(5)).raw("lines", vh::arr(v));
  } else if (op == "rereg") { // register an already registered listener again
    Agent* a = get(k.i(5));
    TimeListener* tl = dynamic_cast<TimeListener*>(a);
    if (!tl) { W->embed = false; return; }
    c->RegisterTimeListener(tl);
    j.i("a", k.i(5));
  } else if (op == "hold") {
    W->hold[k.i(5)] = k.i(6);
    j.i("a", k.i(5)).i("until", k.i(6));
  } else if (op == "proto") { // add a prototype while running: name kind life overwrite
    Agent* a;
    if (k.s(6) == "F") a = new VFac(c); else if (k.s(6) == "I") a = new VInst(c); else a = new VReg(c);
    a->spec(":v:" + k.s(6));
    a->prototype(k.s(5));
    a->lifetime(k.i(7));
    try { c->AddPrototype(k.s(5), a, k.i(8) != 0); } catch (KeyError& e) { res = "key"; }
    j.s("name", k.s(5)).s("kind", a->kind()).i("life", k.i(7)).s("spec", a->spec()).b("ow", k.i(8) != 0);
  } else {
    k.die();
  }
  W->embed = false;
  j.s("res", res).raw("rows", rows());
  emit(j);
}

static void DoActs(const std::string& ph, int who) {
  int now = W->ctx->time();
  for (auto& a : W->acts)
    if (a.t == now && a.who == who && a.ph == ph) Act(a.tk, who);
}

class NullSolver : public ExchangeSolver {
 public:
  NullSolver() : ExchangeSolver(false) {}
 protected:
  virtual double SolveGraph() { return 0; }
};

static void History(const std::vector<Tok>& ts) {
  World w;
  W = &w;
  Timer ti;
  Recorder rec((unsigned int)1);
  vh::Capture cap;
  cap.on = OnRow;
  rec.RegisterBackend(&cap);
  {
    Context ctx(&ti, &rec);
    w.ti = &ti; w.ctx = &ctx; w.rec = &rec;
    for (auto& k : ts) {
      std::string c = k.s(0);
      if (c == "sim") {  // sim dur explicit(0/1/2/3)
        SimInfo si(k.i(1));
        int ex = k.i(2);
        si.explicit_inventory = ex & 1;
        si.explicit_inventory_compact = (ex & 2) != 0;
        ctx.InitSim(si);
        ctx.solver(new NullSolver());
        emit(J("sim").i("dur", k.i(1)).i("ex", ex));
      } else if (c == "proto") {  // proto name kind life  [inv name q nuc m nuc m ...]*
        Agent* a;
        Inventories iv;
        std::vector<std::string> ij;
        size_t p = 4;
        while (p < k.n()) {        // inv name nmat  then per mat: nuc1mass nuc2mass
          std::string nm = k.s(p++);
          int n = k.i(p++);
          std::vector<std::string> ms;
          for (int i = 0; i < n; i++) {
            double m1 = k.d(p++), m2 = k.d(p++);
            CompMap cm;
            if (m1 > 0) cm[922350000] = m1;
            if (m2 > 0) cm[922380000] = m2;
            if (nm[0] == 'p') {    // an inventory of products
              iv[nm].push_back(Product::CreateUntracked(m1 + m2, "stuff"));
              continue;
            }
            iv[nm].push_back(Material::CreateUntracked((m1 + m2), Composition::CreateFromMass(cm)));
            ms.push_back("[" + std::to_string(vh::qty(m1)) + "," + std::to_string(vh::qty(m2)) + "]");
          }
          if (n == 0) iv[nm];
          ij.push_back(J().s("name", nm).raw("m", vh::arr(ms)).str());
        }
        if (k.s(2) == "F") { VFac* f = new VFac(&ctx); f->invs_ = iv; a = f; }
        else if (k.s(2) == "I") { VInst* f = new VInst(&ctx); f->invs_ = iv; a = f; }
        else { VReg* f = new VReg(&ctx); f->invs_ = iv; a = f; }
        a->spec(":v:" + k.s(2));
        a->prototype(k.s(1));
        a->lifetime(k.i(3));
        ctx.AddPrototype(k.s(1), a);
        emit(J("addproto").s("name", k.s(1)).s("kind", a->kind()).i("life", k.i(3)).s("spec", a->spec())
             .raw("inv", vh::arr(ij)));
      } else if (c == "init") {   // init proto parent
        Agent* p = get(k.i(2));
        Agent* a = ctx.CreateAgent<Agent>(k.s(1));
        a->Build(p);
        if (p) p->BuildNotify(a);
      } else if (c == "act") {
        Action a = {k.i(1), k.s(2), k.i(3), k};
        if (a.ph == "pre") Act(k, 0); else w.acts.push_back(a);
      } else if (c == "run") {
        emit(J("run"));
        std::string res = "ok";
        try { ti.RunSim(); } catch (std::exception& e) { res = "err"; }
        emit(J("end").i("t", ctx.time()).s("res", res).raw("fam", Fam()));
      } else {
        k.die();
      }
    }
    cap.on = nullptr;
    rec.Close();
  }
}

int main() { return vh::run(History); }
