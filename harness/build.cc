// Drives the real supply, demand and building managers.
#include <cmath>
#include "vh.h"
#include "toolkit/builder.h"
#include "toolkit/building_manager.h"
#include "toolkit/commodity.h"
#include "toolkit/commodity_producer.h"
#include "toolkit/commodity_producer_manager.h"
#include "toolkit/supply_demand_manager.h"
#include "toolkit/symbolic_function_factories.h"
#include "toolkit/symbolic_functions.h"
using namespace cyclus;
using namespace cyclus::toolkit;
using vh::J;
using vh::Tok;

static long long E8(double v) { return std::isnan(v) || std::isinf(v) ? vh::kOff : std::fabs(v) > 1e8 ? (v > 0 ? 1000000000LL : -1000000000LL) : vh::qty(v, 8, 1e-7); }
static Commodity C(const std::string& n) { return Commodity(n); }

static void History(const std::vector<Tok>& ts) {
  std::map<int, CommodityProducer*> ps;
  std::map<int, Builder*> bs;
  std::map<int, CommodityProducerManager*> gs;
  BuildingManager bm;
  SupplyDemandManager sd;
  std::map<int, SymFunction::Ptr> fs;
  std::map<int, PiecewiseFunctionFactory*> pw;
  // the objects lie in memory in an order that has nothing to do with their numbers
  std::vector<CommodityProducer*> pool;
  auto pid = [&](CommodityProducer* p) { for (auto& x : ps) if (x.second == p) return x.first; return -1; };
  auto bid = [&](Builder* b) { for (auto& x : bs) if (x.second == b) return x.first; return -1; };
  for (auto& k : ts) {
    std::string o = k.s(0);
    J j(o); j.s("call", k.line);
    std::string res = "ok";
    if (o == "prod") {   // prod p defcap|- defcost
      if (k.s(2) == "-") ps[k.i(1)] = new CommodityProducer();
      else ps[k.i(1)] = new CommodityProducer(k.i(2) / 8.0, k.i(3) / 8.0);
      j.i("p", k.i(1)).b("def", k.s(2) == "-").i("cap", k.s(2) == "-" ? 0 : k.i(2)).i("cost", k.s(2) == "-" ? 0 : k.i(3)).emit();
    } else if (o == "add") {   // add p c
      ps[k.i(1)]->Add(C(k.s(2))); j.i("p", k.i(1)).s("c", k.s(2)).emit();
    } else if (o == "addi") {  // addi p c cap cost
      ps[k.i(1)]->Add(C(k.s(2)), CommodInfo(k.i(3) / 8.0, k.i(4) / 8.0));
      j.i("p", k.i(1)).s("c", k.s(2)).i("cap", k.i(3)).i("cost", k.i(4)).emit();
    } else if (o == "setcap") { ps[k.i(1)]->SetCapacity(C(k.s(2)), k.i(3) / 8.0); j.i("p", k.i(1)).s("c", k.s(2)).i("v", k.i(3)).emit();
    } else if (o == "setcost") { ps[k.i(1)]->SetCost(C(k.s(2)), k.i(3) / 8.0); j.i("p", k.i(1)).s("c", k.s(2)).i("v", k.i(3)).emit();
    } else if (o == "rm") { ps[k.i(1)]->Rm(C(k.s(2))); j.i("p", k.i(1)).s("c", k.s(2)).emit();
    } else if (o == "copy") {  // copy new from: a producer built like another
      ps[k.i(1)] = new CommodityProducer(); ps[k.i(1)]->Copy(ps[k.i(2)]); j.i("p", k.i(1)).i("q", k.i(2)).emit();
    } else if (o == "breg" || o == "bunreg") {
      if (!bs.count(k.i(1))) bs[k.i(1)] = new Builder();
      if (o == "breg") bs[k.i(1)]->Register(ps[k.i(2)]); else bs[k.i(1)]->Unregister(ps[k.i(2)]);
      j.i("b", k.i(1)).i("p", k.i(2)).emit();
    } else if (o == "mreg" || o == "munreg") {
      if (!bs.count(k.i(1))) bs[k.i(1)] = new Builder();
      if (o == "mreg") bm.Register(bs[k.i(1)]); else bm.Unregister(bs[k.i(1)]);
      j.i("b", k.i(1)).emit();
    } else if (o == "greg" || o == "gunreg") {
      if (!gs.count(k.i(1))) gs[k.i(1)] = new CommodityProducerManager();
      if (o == "greg") gs[k.i(1)]->Register(ps[k.i(2)]); else gs[k.i(1)]->Unregister(ps[k.i(2)]);
      j.i("g", k.i(1)).i("p", k.i(2)).emit();
    } else if (o == "retire") {  // the oldest of a manager's producers leaves
      int old = -1;
      for (auto& x : ps) if (gs.count(k.i(1)) && gs[k.i(1)]->producers().count(x.second) && (old < 0 || x.first < old)) old = x.first;
      if (old >= 0) gs[k.i(1)]->Unregister(ps[old]);
      j.i("g", k.i(1)).i("p", old).emit();
    } else if (o == "sreg" || o == "sunreg") {
      if (!gs.count(k.i(1))) gs[k.i(1)] = new CommodityProducerManager();
      if (o == "sreg") sd.RegisterProducerManager(gs[k.i(1)]); else sd.UnregisterProducerManager(gs[k.i(1)]);
      j.i("g", k.i(1)).emit();
    } else if (o == "fun") {   // fun n type a b c : growth exponents are multiples of ln 2 / 8
      int n = k.i(1); std::string ty = k.s(2); double a = k.i(3) / 8.0, b = k.i(4) / 8.0, c = k.i(5) / 8.0;
      char buf[200];
      try {
        if (ty == "lin" || ty == "linear") snprintf(buf, sizeof buf, "%.17g %.17g", a, b);
        else if (k.s(6) == "short") snprintf(buf, sizeof buf, "%.17g %.17g", a, b * std::log(2.0));
        else snprintf(buf, sizeof buf, "%.17g %.17g %.17g", a, b * std::log(2.0), c);
        BasicFunctionFactory f;
        SymFunction::Ptr p = f.GetFunctionPtr(ty, buf);
        fs[n] = p;
      } catch (Error& e) { res = "refused"; fs.erase(n); }
      j.i("n", n).s("ty", ty).i("a", k.i(3)).i("b", k.i(4)).i("c", k.s(6) == "short" ? 0 : k.i(5)).s("res", res).emit();
    } else if (o == "pw") {    // pw n : start a piecewise function
      delete pw[k.i(1)]; pw[k.i(1)] = new PiecewiseFunctionFactory(); fs[k.i(1)] = pw[k.i(1)]->GetFunctionPtr();
      j.i("n", k.i(1)).emit();
    } else if (o == "pwadd") { // pwadd n f start cont
      try { pw[k.i(1)]->AddFunction(fs[k.i(2)], k.i(3) / 8.0, k.i(4) != 0); } catch (Error& e) { res = "refused"; }
      j.i("n", k.i(1)).i("f", k.i(2)).i("x", k.i(3)).b("cont", k.i(4) != 0).s("res", res).emit();
    } else if (o == "val") {   // val f x
      j.i("n", k.i(1)).i("x", k.i(2)).i("v", E8(fs[k.i(1)]->value(k.i(2) / 8.0))).emit();
    } else if (o == "regc") {  // regc c f
      Commodity c = C(k.s(1)); sd.RegisterCommodity(c, fs[k.i(2)]); j.s("c", k.s(1)).i("n", k.i(2)).emit();
    } else if (o == "look") {  // everything that can be asked
      std::vector<std::string> prods, tots, sups;
      for (auto& x : ps) for (std::string c : {"a", "b"}) {
        bool y = x.second->Produces(C(c));
        int listed = 0; for (auto& q : x.second->ProducedCommodities()) if (q == C(c)) listed++;
        prods.push_back(J().i("p", x.first).s("c", c).b("y", y).b("l", listed == 1).i("cap", y ? E8(x.second->Capacity(C(c))) : 0).i("cost", y ? E8(x.second->Cost(C(c))) : 0).str());
      }
      for (auto& x : gs) for (std::string c : {"a", "b"}) { Commodity q = C(c); tots.push_back(J().i("g", x.first).s("c", c).i("v", E8(x.second->TotalCapacity(q))).str()); }
      for (std::string c : {"a", "b"}) { Commodity q = C(c); sups.push_back(J().s("c", c).i("v", E8(sd.Supply(q))).b("m", sd.ManagesCommodity(q)).i("d", sd.ManagesCommodity(q) ? E8(sd.Demand(q, k.i(1))) : 0).str()); }
      j.i("t", k.i(1)).raw("prods", vh::arr(prods)).raw("tots", vh::arr(tots)).raw("sups", vh::arr(sups)).emit();
    } else if (o == "decide" || o == "grow") {  // decide c demand;  grow c t g first : build what is missing at t, number from first
      Commodity c = C(k.s(1));
      double d = o == "decide" ? k.i(2) / 8.0 : sd.Demand(c, k.i(2)) - sd.Supply(c);
      std::vector<std::string> os; std::vector<std::string> nb;
      std::vector<BuildOrder> ords;
      try { ords = bm.MakeBuildDecision(c, d); } catch (std::exception& e) { res = "exception"; }
      int next = o == "grow" ? k.i(4) : 0;
      for (auto& r : ords) {
        os.push_back(J().i("p", pid(r.producer)).i("b", bid(r.builder)).i("n", r.number).str());
        if (o == "grow") for (int i = 0; i < r.number && i < 200; i++) {
          CommodityProducer* p = new CommodityProducer(); p->Copy(r.producer); ps[next] = p; gs[k.i(3)]->Register(p);
          nb.push_back(J().i("p", next).i("q", pid(r.producer)).str()); next++;
        }
      }
      j.s("c", k.s(1)).i("d", E8(d)).s("res", res).raw("ords", vh::arr(os)).raw("built", vh::arr(nb)).i("g", o == "grow" ? k.i(3) : 0).i("t", o == "grow" ? k.i(2) : 0).emit();
    } else k.die();
  }
  for (auto& x : ps) delete x.second;
  for (auto& x : bs) delete x.second;
  for (auto& x : gs) delete x.second;
  for (auto& x : pw) delete x.second;
  J("end").emit();
}
int main() { return vh::run(History); }
