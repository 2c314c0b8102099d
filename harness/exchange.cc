// Drives the real resource exchange: collection, preference adjustment, translation,
// solving (greedy and COIN) and trade execution, for materials and products.
#include "vh.h"
#include "prog_solver.h"
#include "greedy_solver.h"
#include "greedy_preconditioner.h"
#include "trade_executor.h"
using namespace cyclus;
using vh::J;
using vh::Tok;

static const double S = 1000;
static double Sc = 1;   // all quantities of a history are scaled by this power of two
static long long sq(double x) {
  if (std::isnan(x)) return vh::kOff;
  double y = x * S;
  if (y > 1e9) return 1000000000LL;
  if (y < -1e9) return -1000000000LL;
  return (long long)std::llround(y);
}
static long long qq(double x) { return sq(x / Sc); }
static double num(const std::string& s) { return s == "inf" ? std::numeric_limits<double>::max() : s == "nan" ? NAN : atof(s.c_str()); }

static double qcap(const std::string& s) { return s == "inf" ? std::numeric_limits<double>::max() : atof(s.c_str()) * Sc; }
struct RQ { int id, rp; std::string c; double q, pref; bool ex; int comp; };
struct CN { double cap; std::string kind; };
struct RP { int id, t, a; char ty; std::vector<RQ> rq; std::vector<std::vector<int> > mut; std::vector<CN> cn; };
struct BD { int id, bp, rq; double q; bool ex; double pref; int comp, share; };
struct BP { int id, t, a; char ty; std::vector<BD> bd; std::vector<CN> cn; };
struct ADJ { int t, a, rq, bd; double p; };
struct RSP { int bd; double q; };

struct World {
  Context* ctx; Timer* ti;
  std::vector<Agent*> ag;
  std::map<int, int> idx;
  std::vector<RP> rps; std::vector<BP> bps; std::vector<ADJ> adjs; std::map<int, double> rsp;
  std::map<void*, int> rid, bid;     // Request*/Bid* -> script id
  bool silent = false;
  int of(Agent* a) { return a ? idx[a->id()] : 0; }
};
static World* W;
static int now() { return W->ctx->time(); }

template <class T> struct Ty;
template <> struct Ty<Material> {
  static const char c = 'M';
  static Material::Ptr make(double q, int comp, Agent* a) {
    CompMap m; m[922350000] = comp; if (comp < 4) m[922380000] = 4 - comp;
    Composition::Ptr cc = Composition::CreateFromMass(m);
    return a ? Material::Create(a, q, cc) : Material::CreateUntracked(q, cc);
  }
  static double u(Material::Ptr m) {
    CompMap c = m->comp()->mass(); compmath::Normalize(&c, m->quantity());
    return c[922350000];
  }
};
template <> struct Ty<Product> {
  static const char c = 'P';
  static std::string qn(int comp) { return "q" + std::to_string(comp); }
  static Product::Ptr make(double q, int comp, Agent* a) {
    return a ? Product::Create(a, q, qn(comp)) : Product::CreateUntracked(q, qn(comp));
  }
  static double u(Product::Ptr p) { return p->quantity() * atoi(p->quality().c_str() + 1) / 4.0; }
};

template <class T> struct Cv : public Converter<T> {
  std::string k;
  explicit Cv(const std::string& k) : k(k) {}
  virtual double convert(boost::shared_ptr<T> o, Arc const* a = NULL, ExchangeTranslationContext<T> const* c = NULL) const {
    if (k == "u") return Ty<T>::u(o);
    return o->quantity() * atof(k.c_str());
  }
};
template <class T> CapacityConstraint<T> mkc(const CN& c) {
  if (c.kind == "1") return CapacityConstraint<T>(c.cap);
  return CapacityConstraint<T>(c.cap, typename Converter<T>::Ptr(new Cv<T>(c.kind)));
}
static std::string tys(char c) { return std::string(1, c); }

template <class T> std::set<typename RequestPortfolio<T>::Ptr> Reqs(Trader* t) {
  int me = W->of(t->manager());
  J("ask_req").i("a", me).i("t", now()).s("ty", tys(Ty<T>::c)).emit();
  std::set<typename RequestPortfolio<T>::Ptr> ret;
  for (auto& p : W->rps) {
    if (p.a != me || p.t != now() || p.ty != Ty<T>::c) continue;
    typename RequestPortfolio<T>::Ptr rp(new RequestPortfolio<T>());
    std::map<int, Request<T>*> byid;
    for (auto& r : p.rq) {
      Request<T>* q = rp->AddRequest(Ty<T>::make(r.q, r.comp, NULL), t, r.c, r.pref, r.ex);
      byid[r.id] = q;
      W->rid[q] = r.id;
    }
    for (auto& m : p.mut) { std::vector<Request<T>*> v; for (int i : m) v.push_back(byid[i]); rp->AddMutualReqs(v); }
    for (auto& c : p.cn) rp->AddConstraint(mkc<T>(c));
    ret.insert(rp);
  }
  return ret;
}
template <class T> std::set<typename BidPortfolio<T>::Ptr> Bids(Trader* t, typename CommodMap<T>::type& cr) {
  int me = W->of(t->manager());
  std::vector<std::string> seen;
  std::map<int, Request<T>*> byid;
  for (auto& kv : cr)
    for (auto r : kv.second) {
      byid[W->rid[r]] = r;
      seen.push_back("[\"" + kv.first + "\"," + std::to_string(W->rid[r]) + "]");
    }
  J("ask_bid").i("a", me).i("t", now()).s("ty", tys(Ty<T>::c)).raw("seen", vh::arr(seen)).emit();
  std::set<typename BidPortfolio<T>::Ptr> ret;
  for (auto& p : W->bps) {
    if (p.a != me || p.t != now() || p.ty != Ty<T>::c) continue;
    typename BidPortfolio<T>::Ptr bp(new BidPortfolio<T>());
    std::map<int, typename T::Ptr> shared;
    for (auto& b : p.bd) {
      if (!byid.count(b.rq)) continue;
      typename T::Ptr o;
      if (b.share && shared.count(b.share)) o = shared[b.share];
      else { o = Ty<T>::make(b.q, b.comp, NULL); if (b.share) shared[b.share] = o; }
      Bid<T>* x = std::isnan(b.pref) ? bp->AddBid(byid[b.rq], o, t, b.ex) : bp->AddBid(byid[b.rq], o, t, b.ex, b.pref);
      W->bid[x] = b.id;
    }
    for (auto& c : p.cn) bp->AddConstraint(mkc<T>(c));
    ret.insert(bp);
  }
  return ret;
}
template <class T> void Adjust(Agent* m, typename PrefMap<T>::type& prefs) {
  int me = W->of(m);
  std::vector<std::string> v;
  std::vector<std::string> ch;
  for (auto& r : prefs)
    for (auto& b : r.second) {
      v.push_back("[" + std::to_string(W->rid[r.first]) + "," + std::to_string(W->bid[b.first]) + "," + std::to_string(sq(b.second)) + "]");
      for (auto& a : W->adjs)
        if (a.t == now() && a.a == me && a.rq == W->rid[r.first] && a.bd == W->bid[b.first]) {
          b.second = a.p;
          ch.push_back("[" + std::to_string(a.rq) + "," + std::to_string(a.bd) + "," + std::to_string(sq(a.p)) + "]");
        }
    }
  J("adj").i("a", me).i("t", now()).s("ty", tys(Ty<T>::c)).raw("prefs", vh::arr(v)).raw("chg", vh::arr(ch)).emit();
}
template <class T> std::string trd(const Trade<T>& t) {
  return std::to_string(W->rid[t.request]) + "," + std::to_string(W->bid[t.bid]) + "," + std::to_string(qq(t.amt));
}
template <class T> void Give(Trader* t, const std::vector<Trade<T> >& trades,
                             std::vector<std::pair<Trade<T>, typename T::Ptr> >& resp) {
  int me = W->of(t->manager());
  std::vector<std::string> v;
  for (auto& tr : trades) {
    double q = tr.amt;
    int b = W->bid[tr.bid];
    std::string rs = "-1,0";
    auto it = W->rsp.find(b);
    bool give = true;
    if (it != W->rsp.end()) { if (it->second < 0) give = false; else q = std::min(q, it->second); }
    if (give) {
      int comp = 4;
      for (auto& p : W->bps) for (auto& x : p.bd) if (x.id == b) comp = x.comp;
      typename T::Ptr r = Ty<T>::make(q, comp, t->manager());
      resp.push_back(std::make_pair(tr, r));
      rs = std::to_string(r->state_id()) + "," + std::to_string(qq(r->quantity()));
    }
    v.push_back("[" + trd<T>(tr) + "," + rs + "]");
  }
  J("give").i("a", me).i("t", now()).s("ty", tys(Ty<T>::c)).raw("tr", vh::arr(v)).emit();
}
template <class T> void Take(Trader* t, const std::vector<std::pair<Trade<T>, typename T::Ptr> >& resp) {
  std::vector<std::string> v;
  for (auto& x : resp)
    v.push_back("[" + trd<T>(x.first) + "," + std::to_string(x.second->state_id()) + "," + std::to_string(qq(x.second->quantity())) + "]");
  J("take").i("a", W->of(t->manager())).i("t", now()).s("ty", tys(Ty<T>::c)).raw("tr", vh::arr(v)).emit();
}

template <class B> class G : public B {
 public:
  explicit G(Context* c) : B(c) {}
  virtual Agent* Clone() { return new G(this->context()); }
  virtual std::string version() { return "0"; }
  virtual void Snapshot(DbInit) {}
  virtual void InitFrom(QueryableBackend*) {}
  using B::InitFrom;
  virtual void InitInv(Inventories&) {}
  virtual Inventories SnapshotInv() { return Inventories(); }
  virtual void Tick() {}
  virtual void Tock() {}
  virtual void Decision() {}
  virtual void AdjustMatlPrefs(PrefMap<Material>::type& p) { Adjust<Material>(this, p); }
  virtual void AdjustProductPrefs(PrefMap<Product>::type& p) { Adjust<Product>(this, p); }
};
class Fac : public G<Facility> {
 public:
  explicit Fac(Context* c) : G<Facility>(c) {}
  virtual Agent* Clone() { return new Fac(context()); }
  virtual std::set<RequestPortfolio<Material>::Ptr> GetMatlRequests() { return Reqs<Material>(this); }
  virtual std::set<RequestPortfolio<Product>::Ptr> GetProductRequests() { return Reqs<Product>(this); }
  virtual std::set<BidPortfolio<Material>::Ptr> GetMatlBids(CommodMap<Material>::type& c) { return Bids<Material>(this, c); }
  virtual std::set<BidPortfolio<Product>::Ptr> GetProductBids(CommodMap<Product>::type& c) { return Bids<Product>(this, c); }
  virtual void GetMatlTrades(const std::vector<Trade<Material> >& t, std::vector<std::pair<Trade<Material>, Material::Ptr> >& r) { Give<Material>(this, t, r); }
  virtual void GetProductTrades(const std::vector<Trade<Product> >& t, std::vector<std::pair<Trade<Product>, Product::Ptr> >& r) { Give<Product>(this, t, r); }
  virtual void AcceptMatlTrades(const std::vector<std::pair<Trade<Material>, Material::Ptr> >& r) { Take<Material>(this, r); }
  virtual void AcceptProductTrades(const std::vector<std::pair<Trade<Product>, Product::Ptr> >& r) { Take<Product>(this, r); }
};

static void OnRow(Datum* d) {
  if (d->title() != "Transactions") return;
  J("row").i("id", vh::fint(d, "TransactionId")).i("snd", W->idx[vh::fint(d, "SenderId")])
      .i("rcv", W->idx[vh::fint(d, "ReceiverId")]).i("rid", vh::fint(d, "ResourceId"))
      .s("c", vh::fstr(d, "Commodity")).i("t", vh::fint(d, "Time")).emit();
}

static std::vector<std::pair<std::string, double> > weights;
static std::string solver_name, wgt_order;
static bool excl_orders = true;

static GreedyPreconditioner* cond() {
  if (weights.empty()) return new GreedyPreconditioner();
  std::map<std::string, double> m(weights.begin(), weights.end());
  return wgt_order == "rev" ? new GreedyPreconditioner(m, GreedyPreconditioner::REVERSE) : new GreedyPreconditioner(m);
}
static ExchangeSolver* mksolver() {
  if (solver_name == "greedy") return weights.empty() ? new GreedySolver(excl_orders) : new GreedySolver(excl_orders, cond());
  return new ProgSolver(solver_name, 10, excl_orders, false, false);
}

template <class T> void Manual() {
  // the body of one exchange, with the graph reported in between
  ResourceExchange<T> ex(W->ctx);
  std::string res = "ok";
  try {
    ex.AddAllRequests();
    ex.AddAllBids();
    ex.AdjustAll();
    if (!ex.Empty()) {
      ExchangeTranslator<T> xl(&ex.ex_ctx());
      ExchangeGraph::Ptr g = xl.Translate();
      auto& tc = xl.translation_ctx();
      std::map<ExchangeNode*, int> id;   // node -> script id
      std::vector<std::string> rg, sg, ar;
      for (auto& x : g->request_groups()) {
        std::vector<std::string> ns, eg;
        std::vector<long long> caps;
        for (auto& n : x->nodes()) {
          int r = W->rid[tc.node_to_request.at(n)];
          id[n.get()] = r;
          ns.push_back(J().i("id", r).i("q", qq(n->qty)).b("ex", n->exclusive).s("c", n->commod).i("a", W->idx[n->agent_id]).str());
        }
        for (double c : x->capacities()) caps.push_back(qq(c));
        for (auto& e : x->excl_node_groups()) { std::vector<int> v; for (auto& n : e) v.push_back(id[n.get()]); eg.push_back(vh::ints(v)); }
        rg.push_back(J().i("q", qq(x->qty())).raw("n", vh::arr(ns)).raw("caps", vh::ints(caps)).raw("eg", vh::arr(eg)).str());
      }
      for (auto& x : g->supply_groups()) {
        std::vector<std::string> ns, eg;
        std::vector<long long> caps;
        for (auto& n : x->nodes()) {
          int r = W->bid[tc.node_to_bid.at(n)];
          id[n.get()] = r;
          ns.push_back(J().i("id", r).i("q", qq(n->qty)).b("ex", n->exclusive).s("c", n->commod).i("a", W->idx[n->agent_id]).str());
        }
        for (double c : x->capacities()) caps.push_back(qq(c));
        for (auto& e : x->excl_node_groups()) { std::vector<int> v; for (auto& n : e) v.push_back(id[n.get()]); eg.push_back(vh::ints(v)); }
        sg.push_back(J().raw("n", vh::arr(ns)).raw("caps", vh::ints(caps)).raw("eg", vh::arr(eg)).str());
      }
      for (auto& a : g->arcs()) {
        std::vector<long long> uu, uv;
        for (double c : a.unode()->unit_capacities[a]) uu.push_back(sq(c));
        for (double c : a.vnode()->unit_capacities[a]) uv.push_back(sq(c));
        ar.push_back(J().i("r", id[a.unode().get()]).i("b", id[a.vnode().get()]).i("p", sq(a.pref())).b("ex", a.exclusive())
                     .i("ev", qq(a.excl_val())).i("np", sq(a.unode()->prefs[a])).raw("uu", vh::ints(uu)).raw("uv", vh::ints(uv)).str());
      }
      J("graph").raw("rg", vh::arr(rg)).raw("sg", vh::arr(sg)).raw("arcs", vh::arr(ar)).emit();
      auto dump = [&](const std::string& nm, bool first) {
        std::vector<std::string> ms;
        for (auto& m : g->matches())
          ms.push_back("[" + std::to_string(id[m.first.unode().get()]) + "," + std::to_string(id[m.first.vnode().get()]) + "," + std::to_string(qq(m.second)) + "]");
        J("solve").s("solver", nm).b("excl", excl_orders).b("use", first).raw("m", vh::arr(ms)).emit();
      };
      ExchangeSolver* s = mksolver();
      s->sim_ctx(W->ctx);
      s->Solve(g.get());
      dump(solver_name, true);
      std::vector<Match> keep = g->matches();
      delete s;
      if (solver_name != "greedy") {
        g->ClearMatches();
        GreedySolver gs(excl_orders);
        gs.Solve(g.get());
        dump("greedy0", false);
      }
      std::vector<Trade<T> > trades;
      xl.BackTranslateSolution(keep, trades);
      TradeExecutor<T> te(trades);
      te.ExecuteTrades(W->ctx);
    }
  } catch (ValueError& e) { res = "value"; }
  catch (std::exception& e) { res = "other"; }
  J("done").s("res", res).i("t", now()).s("ty", tys(Ty<T>::c)).emit();
}

static std::string cnj(const std::vector<CN>& c) {
  std::vector<std::string> v;
  for (auto& x : c) v.push_back(J().i("cap", qq(x.cap)).b("u", x.kind == "u").i("k", x.kind == "u" ? 0 : sq(atof(x.kind.c_str()))).str());
  return vh::arr(v);
}

static void History(const std::vector<Tok>& ts) {
  World w; W = &w;
  Sc = 1;
  weights.clear(); excl_orders = true; solver_name = "greedy"; wgt_order = "end";
  Timer ti;
  Recorder rec((unsigned int)1);
  vh::Capture cap;
  cap.on = OnRow;
  rec.RegisterBackend(&cap);
  {
    Context ctx(&ti, &rec);
    w.ctx = &ctx; w.ti = &ti;
    int dur = 1;
    bool decl = false;
    std::string mode;
    std::vector<int> par;
    std::vector<bool> isf;
    for (auto& k : ts) {
      std::string c = k.s(0);
      if (c == "sim") {            // sim dur mode solver excl order
        dur = k.i(1); mode = k.s(2); solver_name = k.s(3); excl_orders = k.i(4); wgt_order = k.s(5);
        ctx.InitSim(SimInfo(dur));
      } else if (c == "wgt") { weights.push_back(std::make_pair(k.s(1), k.d(2)));
      } else if (c == "agent") {   // agent kind parent
        Agent* a = k.s(1) == "F" ? (Agent*)new Fac(&ctx) : k.s(1) == "I" ? (Agent*)new G<Institution>(&ctx) : (Agent*)new G<Region>(&ctx);
        w.ag.push_back(a); w.idx[a->id()] = w.ag.size();
        par.push_back(k.i(2)); isf.push_back(k.s(1) == "F");
        a->prototype("p");
        a->Build(k.i(2) ? w.ag[k.i(2) - 1] : NULL);
      } else if (c == "rp") { RP p; p.id = k.i(1); p.t = k.i(2); p.a = k.i(3); p.ty = k.s(4)[0]; w.rps.push_back(p);
      } else if (c == "rq") {      // rq id commod qty pref excl comp   (of the last rp)
        RQ r = {k.i(1), w.rps.back().id, k.s(2), k.d(3) * Sc, k.d(4), k.i(5) != 0, k.i(6)};
        w.rps.back().rq.push_back(r);
      } else if (c == "mut") { std::vector<int> v; for (size_t i = 1; i < k.n(); i++) v.push_back(k.i(i)); w.rps.back().mut.push_back(v);
      } else if (c == "rc") { w.rps.back().cn.push_back(CN{qcap(k.s(1)), k.s(2)});
      } else if (c == "bp") { BP p; p.id = k.i(1); p.t = k.i(2); p.a = k.i(3); p.ty = k.s(4)[0]; w.bps.push_back(p);
      } else if (c == "bd") {      // bd id rq qty excl pref comp share
        BD b = {k.i(1), w.bps.back().id, k.i(2), k.d(3) * Sc, k.i(4) != 0, num(k.s(5)), k.i(6), k.i(7)};
        w.bps.back().bd.push_back(b);
      } else if (c == "bc") { w.bps.back().cn.push_back(CN{qcap(k.s(1)), k.s(2)});
      } else if (c == "adj") { w.adjs.push_back(ADJ{k.i(1), k.i(2), k.i(3), k.i(4), k.d(5)});
      } else if (c == "rsp") { w.rsp[k.i(1)] = k.d(2) * Sc;
      } else if (c == "scale") { Sc = std::pow(2.0, k.i(1));
      } else if (c == "run") {
        if (!decl) {
          std::vector<std::string> ags, rps, bps, ws, rs;
          for (size_t i = 0; i < par.size(); i++) ags.push_back(J().i("par", par[i]).b("f", isf[i]).str());
          for (auto& p : w.rps) {
            std::vector<std::string> q, m;
            for (auto& r : p.rq) q.push_back(J().i("id", r.id).s("c", r.c).i("q", qq(r.q)).i("p", sq(r.pref)).b("ex", r.ex).str());
            for (auto& x : p.mut) m.push_back(vh::ints(x));
            rps.push_back(J().i("id", p.id).i("t", p.t).i("a", p.a).s("ty", tys(p.ty)).raw("rq", vh::arr(q)).raw("mut", vh::arr(m)).raw("cn", cnj(p.cn)).str());
          }
          for (auto& p : w.bps) {
            std::vector<std::string> q;
            for (auto& b : p.bd) q.push_back(J().i("id", b.id).i("rq", b.rq).i("q", qq(b.q)).b("ex", b.ex).b("np", std::isnan(b.pref)).i("p", std::isnan(b.pref) ? 0 : sq(b.pref)).i("u", b.comp * 250).i("sh", b.share).str());
            bps.push_back(J().i("id", p.id).i("t", p.t).i("a", p.a).s("ty", tys(p.ty)).raw("bd", vh::arr(q)).raw("cn", cnj(p.cn)).str());
          }
          for (auto& x : weights) ws.push_back(J().s("c", x.first).i("w", sq(x.second)).str());
          for (int t = 0; t < dur; t++) { rs.push_back("[" + std::to_string(t) + ",\"M\"]"); rs.push_back("[" + std::to_string(t) + ",\"P\"]"); }
          J("decl").s("mode", mode).s("solver", solver_name).b("excl", excl_orders).b("rev", wgt_order == "rev").raw("ag", vh::arr(ags)).raw("rp", vh::arr(rps))
              .raw("bp", vh::arr(bps)).raw("wgt", vh::arr(ws)).raw("rounds", vh::arr(rs)).emit();
        }
        if (mode == "man") { Manual<Material>(); Manual<Product>(); J("end").s("res", "ok").emit(); }
        else {
          ExchangeSolver* s = mksolver();
          ctx.solver(s);
          std::string res = "ok";
          try { ti.RunSim(); } catch (ValueError& e) { res = "value"; } catch (std::exception& e) { res = "other"; }
          J("end").s("res", res).emit();
        }
      } else k.die();
    }
    cap.on = nullptr;
    rec.Close();
  }
}
int main() { return vh::run(History); }
