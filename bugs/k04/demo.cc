
#include <cstdio>
#include <map>
#include <set>
#include <vector>
#include "cyclus.h"
using namespace cyclus;
namespace cyclus { void EventLoop() {} void PyDelAgent(int) {} }
struct NoSolve : public ExchangeSolver { NoSolve() : ExchangeSolver(false) {} double SolveGraph() { return 0; } };
struct Rows : public RecBackend {
  std::map<std::string,int> n; 
  std::vector<std::string> invs; std::vector<int> exits;
  void Notify(DatumList ds) { for (auto d : ds) { n[d->title()]++;
    for (auto& v : d->vals()) { if (std::string(v.first)=="InventoryName") invs.push_back(v.second.cast<std::string>());
      if (std::string(v.first)=="ExitTime") exits.push_back(v.second.cast<int>()); } } }
  std::string Name() { return "rows"; }
  void Flush() {} void Close() {}
};

template <class B> struct A : public B {
  A(Context* c) : B(c) {}
  Agent* Clone() { A* a = new A(this->context()); a->B::InitFrom(this); return a; }
  std::string version() { return "0"; }
  void Snapshot(DbInit) {} void InitFrom(QueryableBackend*) {} using B::InitFrom; void InitInv(Inventories&) {}
  Inventories SnapshotInv();
  void Tick(); void Tock(); void Decision();
};

template <> Inventories A<Facility>::SnapshotInv() { Inventories v; v["a"]; CompMap c; c[922350000] = 1;
  v["b"].push_back(Material::CreateUntracked(2, Composition::CreateFromMass(c))); return v; }
template <> void A<Facility>::Tick() {}
template <> void A<Facility>::Tock() {}
template <> void A<Facility>::Decision() {}
int main() {
  warn_limit = 0;
  Rows r; Timer ti; Recorder rec((unsigned int)1); rec.RegisterBackend(&r);
  Context ctx(&ti, &rec); SimInfo si(2); si.explicit_inventory = true; ctx.InitSim(si); ctx.solver(new NoSolve());
  A<Facility>* f = new A<Facility>(&ctx); f->prototype("f"); f->Build(NULL);
  ti.RunSim();
  printf("%d rows\n", r.n["ExplicitInventory"]);
  return r.n["ExplicitInventory"] != 2;
}
