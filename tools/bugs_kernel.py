import sys; sys.path.insert(0,'/tmp/mk')
from mkbug import mk
COMMON=r'''
#include <cstdio>
#include <map>
#include <set>
#include <vector>
#include "cyclus.h"
using namespace cyclus;
namespace cyclus { void EventLoop() {} void PyDelAgent(int) {} }
struct NoSolve : public ExchangeSolver { NoSolve() : ExchangeSolver(false) {} double SolveGraph() { return 0; } };
struct Rows : public RecBackend {
  std::map<std::string,int> n; 
  std::vector<std::string> invs; std::vector<int> exits;
  void Notify(DatumList ds) { for (auto d : ds) { n[d->title()]++;
    for (auto& v : d->vals()) { if (std::string(v.first)=="InventoryName") invs.push_back(v.second.cast<std::string>());
      if (std::string(v.first)=="ExitTime") exits.push_back(v.second.cast<int>()); } } }
  std::string Name() { return "rows"; }
  void Flush() {} void Close() {}
};
'''
FAC=r'''
template <class B> struct A : public B {
  A(Context* c) : B(c) {}
  Agent* Clone() { A* a = new A(this->context()); a->B::InitFrom(this); return a; }
  std::string version() { return "0"; }
  void Snapshot(DbInit) {} void InitFrom(QueryableBackend*) {} using B::InitFrom; void InitInv(Inventories&) {}
  Inventories SnapshotInv();
  void Tick(); void Tock(); void Decision();
};
'''
mk('k01','P01',[('src/timer.cc','''void Timer::DoDecision() {
''','''void Timer::DoDecision() {
  // decisions taken in the last time step can have no effect any more
  if (si_.duration - time_ <= 1) {
    return;
  }
''')],'the last time step of a run','agents are not given their decision phase in the final time step',COMMON+FAC+r'''
static int dec = 0, tick = 0;
template <> Inventories A<Facility>::SnapshotInv() { return Inventories(); }
template <> void A<Facility>::Tick() { tick++; }
template <> void A<Facility>::Tock() {}
template <> void A<Facility>::Decision() { dec++; }
int main() {
  warn_limit = 0;
  Rows r; Timer ti; Recorder rec; rec.RegisterBackend(&r);
  Context ctx(&ti, &rec); ctx.InitSim(SimInfo(4)); ctx.solver(new NoSolve());
  A<Facility>* f = new A<Facility>(&ctx); f->prototype("f"); f->Build(NULL);
  ti.RunSim();
  printf("%d ticks %d decisions\n", tick, dec);
  return !(tick == 4 && dec == 4);
}
''')
mk('k02','P02',[('src/timer.cc','''  bool done = false;
  for (it''','''  bool done = false;
  const int requested = t;
  for (it'''),('src/timer.cc','''      if (ags[i] == m) {
        CLOG''','''      if (ags[i] == m) {
        if (t < requested) {
          return;  // gone by then anyway
        }
        CLOG''')],'a retirement that is put off to a later time step','the agent is retired at the earlier time although it was put off',COMMON+FAC+r'''
template <> Inventories A<Facility>::SnapshotInv() { return Inventories(); }
template <> void A<Facility>::Tick() {}
template <> void A<Facility>::Tock() { if (context()->time() == 2) context()->SchedDecom(this, 9); }
template <> void A<Facility>::Decision() {}
int main() {
  warn_limit = 0;
  Rows r; Timer ti; Recorder rec((unsigned int)1); rec.RegisterBackend(&r);
  Context ctx(&ti, &rec); ctx.InitSim(SimInfo(5)); ctx.solver(new NoSolve());
  A<Facility>* f = new A<Facility>(&ctx); f->prototype("f"); f->Build(NULL);
  ctx.SchedDecom(f, 2);
  ti.RunSim();
  printf("%d exits\n", r.n["AgentExit"]);
  return r.n["AgentExit"] != 0;
}
''')
mk('k03','P03',[('src/institution.cc','context()->time() >= a->exit_time()','context()->time() == a->exit_time()')],
'a facility that refuses decommissioning at the end of its lifetime and accepts it later','a facility whose decommissioning was put off is never retired',COMMON+FAC+r'''
template <> Inventories A<Facility>::SnapshotInv() { return Inventories(); }
template <> void A<Facility>::Tick() {}
template <> void A<Facility>::Tock() {}
template <> void A<Facility>::Decision() {}
struct F : public A<Facility> { F(Context* c) : A<Facility>(c) {}
  Agent* Clone() { F* a = new F(context()); a->Facility::InitFrom(this); return a; }
  bool CheckDecommissionCondition() { return context()->time() >= 3; } };
struct I : public Institution { I(Context* c) : Institution(c) {}
  Agent* Clone() { return new I(context()); } std::string version() { return "0"; }
  void Snapshot(DbInit) {} void InitFrom(QueryableBackend*) {} using Institution::InitFrom; void InitInv(Inventories&) {}
  Inventories SnapshotInv() { return Inventories(); } void Tick() {} void Decision() {} };
int main() {
  warn_limit = 0;
  Rows r; Timer ti; Recorder rec((unsigned int)1); rec.RegisterBackend(&r);
  Context ctx(&ti, &rec); ctx.InitSim(SimInfo(6)); ctx.solver(new NoSolve());
  I* i = new I(&ctx); i->prototype("i"); i->Build(NULL);
  F* f = new F(&ctx); f->prototype("f"); f->lifetime(2); f->Build(i);
  ti.RunSim();
  printf("%d exits\n", r.n["AgentExit"]);
  return !(r.n["AgentExit"] == 1 && r.exits[0] == 3);
}
''')
mk('k04','P04',[('src/timer.cc','''      continue; // skip non-material inventories
    }

    Material::Ptr m''','''      break; // no material inventories here
    }

    Material::Ptr m''')],'an agent with an empty inventory whose name sorts before that of a filled one','inventories after an empty one are left out of the explicit inventory record',COMMON+FAC+r'''
template <> Inventories A<Facility>::SnapshotInv() { Inventories v; v["a"]; CompMap c; c[922350000] = 1;
  v["b"].push_back(Material::CreateUntracked(2, Composition::CreateFromMass(c))); return v; }
template <> void A<Facility>::Tick() {}
template <> void A<Facility>::Tock() {}
template <> void A<Facility>::Decision() {}
int main() {
  warn_limit = 0;
  Rows r; Timer ti; Recorder rec((unsigned int)1); rec.RegisterBackend(&r);
  Context ctx(&ti, &rec); SimInfo si(2); si.explicit_inventory = true; ctx.InitSim(si); ctx.solver(new NoSolve());
  A<Facility>* f = new A<Facility>(&ctx); f->prototype("f"); f->Build(NULL);
  ti.RunSim();
  printf("%d rows\n", r.n["ExplicitInventory"]);
  return r.n["ExplicitInventory"] != 2;
}
''')
