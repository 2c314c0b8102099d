// Runs whole simulations of the bundled archetypes (preprocessed and compiled from the tree) from input
// files through the real loader, and reports what the output database says happened at every step.
#include "vh.h"
#include "xml_file_loader.h"
#include "sim_init.h"
#include "sqlite_back.h"
#include "hdf5_back.h"
#include <unistd.h>
class SimInitTest { public: static void reg(const std::string& s, cyclus::AgentCtor* c) { cyclus::DynamicModule::man_ctors_[s] = c; } };
using namespace cyclus;
using vh::J;
using vh::Tok;
namespace cyclus {
extern "C" {
Agent* ConstructSource(Context*); Agent* ConstructSink(Context*); Agent* ConstructKFacility(Context*); Agent* ConstructPrey(Context*);
Agent* ConstructPredator(Context*); Agent* ConstructNullInst(Context*); Agent* ConstructNullRegion(Context*);
}
}
static std::string REPO;
static std::string unhex(const std::string& h) {
  std::string o;
  for (size_t i = 0; i + 1 < h.size(); i += 2) o += (char)strtol(h.substr(i, 2).c_str(), NULL, 16);
  return o;
}
static long long q(double x) { return vh::qty(x, 256); }

struct Step { std::vector<std::string> enter, tr, exit, inv; };

static QueryResult all(QueryableBackend* b, const std::string& t, boost::uuids::uuid sim) {
  std::vector<Cond> cs;
  cs.push_back(Cond("SimId", "==", sim));
  try { return b->Query(t, &cs); } catch (std::exception& e) { return QueryResult(); }
}

static void Report(QueryableBackend* b, boost::uuids::uuid sim, int dur) {
  std::map<int, Step> st;
  for (int i = 0; i < dur; i++) st[i];
  QueryResult r = all(b, "AgentEntry", sim);
  for (size_t i = 0; i < r.rows.size(); i++) {
    if (r.GetVal<std::string>("Kind", i) != "Facility") continue;
    st[r.GetVal<int>("EnterTime", i)].enter.push_back(J().i("id", r.GetVal<int>("AgentId", i)).s("p", r.GetVal<std::string>("Prototype", i))
        .i("par", r.GetVal<int>("ParentId", i)).i("life", r.GetVal<int>("Lifetime", i)).str());
  }
  r = all(b, "AgentExit", sim);
  for (size_t i = 0; i < r.rows.size(); i++) st[r.GetVal<int>("ExitTime", i)].exit.push_back(std::to_string(r.GetVal<int>("AgentId", i)));
  std::map<int, std::map<int, double> > comps;
  r = all(b, "Compositions", sim);
  for (size_t i = 0; i < r.rows.size(); i++) comps[r.GetVal<int>("QualId", i)][r.GetVal<int>("NucId", i)] = r.GetVal<double>("MassFrac", i);
  std::map<int, std::string> what;
  std::map<int, double> qty;
  r = all(b, "Resources", sim);
  for (size_t i = 0; i < r.rows.size(); i++) {
    int id = r.GetVal<int>("ResourceId", i);
    qty[id] = r.GetVal<double>("Quantity", i);
    std::string s;
    if (r.GetVal<std::string>("Type", i) == "Product") s = "product";
    else for (auto& kv : comps[r.GetVal<int>("QualId", i)]) if (kv.second > 0) { char x[60]; snprintf(x, sizeof x, "%s%d:%.4f", s.empty() ? "" : " ", kv.first, kv.second); s += x; }
    what[id] = s;
  }
  r = all(b, "Transactions", sim);
  for (size_t i = 0; i < r.rows.size(); i++) {
    int id = r.GetVal<int>("ResourceId", i);
    st[r.GetVal<int>("Time", i)].tr.push_back(J().i("s", r.GetVal<int>("SenderId", i)).i("r", r.GetVal<int>("ReceiverId", i))
        .s("c", r.GetVal<std::string>("Commodity", i)).i("q", qty.count(id) ? q(qty[id]) : vh::kOff).s("w", qty.count(id) ? what[id] : "unknown").str());
  }
  std::map<std::pair<int, int>, double> inv;
  r = all(b, "ExplicitInventory", sim);
  for (size_t i = 0; i < r.rows.size(); i++) inv[std::make_pair(r.GetVal<int>("Time", i), r.GetVal<int>("AgentId", i))] += r.GetVal<double>("Quantity", i);
  for (auto& kv : inv) st[kv.first.first].inv.push_back(J().i("id", kv.first.second).i("q", q(kv.second)).str());
  for (auto& kv : st)
    J("step").i("t", kv.first).raw("enter", vh::arr(kv.second.enter)).raw("tr", vh::arr(kv.second.tr)).raw("exit", vh::arr(kv.second.exit)).raw("inv", vh::arr(kv.second.inv)).emit();
  r = all(b, "Finish", sim);
  J("finish").i("n", r.rows.size()).i("t", r.rows.empty() ? -1 : r.GetVal<int>("EndTime")).b("early", !r.rows.empty() && r.GetVal<bool>("EarlyTerm")).emit();
}

static void History(const std::vector<Tok>& sc) {
  SimInitTest::reg(":agents:Source", ConstructSource);
  SimInitTest::reg(":agents:Sink", ConstructSink);
  SimInitTest::reg(":agents:KFacility", ConstructKFacility);
  SimInitTest::reg(":agents:Prey", ConstructPrey);
  SimInitTest::reg(":agents:Predator", ConstructPredator);
  SimInitTest::reg(":agents:NullInst", ConstructNullInst);
  SimInitTest::reg(":agents:NullRegion", ConstructNullRegion);
  std::string xml, kind = "mem";
  int dur = 0;
  unlink("flow.h5");
  cyclus::cy_eps = cyclus::cy_eps_rsrc = 1e-6;
  for (auto& k : sc) {
    std::string op = k.s(0);
    if (op == "model") J("file").raw("m", k.line.substr(6)).emit();
    else if (op == "xml") xml = unhex(k.s(1));
    else if (op == "back") kind = k.s(1);
    else if (op == "run") {
      dur = k.i(1);
      FullBackend* b = kind == "h5" ? (FullBackend*)new Hdf5Back("flow.h5") : (FullBackend*)new SqliteBack(":memory:");
      {
        Recorder rec;
        rec.RegisterBackend(b);
        boost::uuids::uuid sim = rec.sim_id();
        std::string why = "ok";
        try {
          FILE* f = fopen("in.xml", "w");
          fwrite(xml.data(), 1, xml.size(), f);
          fclose(f);
          XMLFileLoader l(&rec, b, REPO + "/share/cyclus.rng.in", "in.xml");
          l.LoadSim();
          SimInit si;
          si.Init(&rec, b);
          si.timer()->RunSim();
          rec.Flush();
        } catch (std::exception& e) { why = e.what(); }
        J("ran").s("res", why).emit();
        if (why == "ok") Report(b, sim, dur);
        rec.Close();
      }
      delete b;
    } else k.die();
  }
  J("fin").emit();
}

int main(int argc, char** argv) {
  REPO = argv[1];
  return vh::run(History);
}
