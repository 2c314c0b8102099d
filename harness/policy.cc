// Drives the real buy and sell policies: their requests, offers and deliveries, step by step.
#include "vh.h"
#include "random_number_generator.h"
#include "toolkit/matl_buy_policy.h"
#include "toolkit/matl_sell_policy.h"
#include "toolkit/res_buf.h"
#include "toolkit/total_inv_tracker.h"
using namespace cyclus;
using namespace cyclus::toolkit;
using vh::J;
using vh::Tok;
typedef ResBuf<Material> RB;
typedef std::pair<Trade<Material>, Material::Ptr> Resp;

static long long mq(double x) {   // thousandths of a kg
  if (std::isnan(x)) return vh::kOff;
  if (x > 1e6) return 1000000000LL;
  if (x < -1e6) return -1000000000LL;
  return std::llround(x * 1000);
}
static double kg(const Tok& k, int i) { return k.i(i) < 0 ? std::numeric_limits<double>::max() : k.i(i) / 1000.0; }

struct NoSolve : public ExchangeSolver {
  NoSolve() : ExchangeSolver(false) {}
  double SolveGraph() { return 0; }
};

// distributions that follow a script and tell what was drawn
static std::map<char, std::vector<long long> > Drawn;
struct ScriptInt : public IntDistribution {
  std::vector<int> v; size_t at; char k;
  ScriptInt(const std::vector<int>& x, char kk) : v(x), at(0), k(kk) {}
  virtual int sample() { int x = v[at++ % v.size()]; Drawn[k].push_back(x); return x; }
};
struct ScriptReal : public DoubleDistribution {
  std::vector<int> v; size_t at;
  ScriptReal(const std::vector<int>& x) : v(x), at(0) {}
  virtual double sample() { int x = v[at++ % v.size()]; Drawn['s'].push_back(x); return x / 16.0; }
  virtual double max() { int m = v[0]; for (int x : v) m = std::max(m, x); return m / 16.0; }
};
static std::vector<std::string> split(const std::string& s, char c) {
  std::vector<std::string> o; std::string x; std::istringstream is(s);
  while (std::getline(is, x, c)) o.push_back(x);
  return o;
}
static std::vector<int> nums(const std::string& s) { std::vector<int> o; for (auto& x : split(s, ',')) o.push_back(atoi(x.c_str())); return o; }

struct World {
  Context* ctx;
  Facility* fac;
  std::map<std::string, Composition::Ptr> comp;
  std::vector<RB*> buf;
  std::vector<TotalInvTracker*> trk;
  std::map<int, MatlBuyPolicy*> buy;
  std::map<int, MatlSellPolicy*> sell;
  std::map<int, std::vector<RequestPortfolio<Material>::Ptr> > asked;
  std::vector<RequestPortfolio<Material>::Ptr> reqs;                    // of the counterpart
  std::map<int, std::vector<BidPortfolio<Material>::Ptr> > offered;
  std::map<int, std::vector<Bid<Material>*> > bids;
  std::vector<std::string> rows;
};
static World* W;

static std::string frac(Material::Ptr m) {   // the composition, by content
  for (auto& e : W->comp) {
    CompMap a = e.second->mass(), b = m->comp()->mass();
    compmath::Normalize(&a); compmath::Normalize(&b);
    compmath::ApplyThreshold(&a, 1e-9); compmath::ApplyThreshold(&b, 1e-9);
    if (a.size() == b.size() && compmath::AlmostEq(a, b, 1e-6)) return e.first;
  }
  return "?";
}
static std::string Bufs() {
  std::vector<long long> v;
  for (auto* b : W->buf) v.push_back(mq(b->quantity()));
  return vh::ints(v);
}
static void Emit(J& j) {
  std::vector<std::string> d;
  J dr;
  dr.raw("a", vh::ints(Drawn['a'])).raw("d", vh::ints(Drawn['d'])).raw("s", vh::ints(Drawn['s']));
  j.i("t", W->ctx->time()).raw("rows", vh::arr(W->rows)).raw("draw", dr.str()).raw("bufs", Bufs()).emit();
  W->rows.clear();
  Drawn.clear();
}
static std::string Try(const std::function<void()>& f) {
  try { f(); return "ok"; }
  catch (ValueError& e) { return "ValueError"; }
  catch (Error& e) { return "Error"; }
}
static IntDistribution::Ptr idist(const std::string& s, char k) {
  if (s == "-") return IntDistribution::Ptr();
  return IntDistribution::Ptr(new ScriptInt(nums(s), k));
}

static bool Reg(Trader* t) { return W->ctx->traders().count(t) > 0; }

static void Do(const Tok& k) {
  std::string op = k.s(0);
  if (op == "pkg") W->ctx->AddPackage(k.s(1), kg(k, 2), kg(k, 3), k.s(4));
  else if (op == "tu") W->ctx->AddTransportUnit(k.s(1), k.i(2), k.i(3) < 0 ? std::numeric_limits<int>::max() : k.i(3), k.s(4));
  else if (op == "comp") {
    CompMap m; m[922350000] = k.d(2); m[922380000] = k.d(3);
    W->comp[k.s(1)] = Composition::CreateFromMass(m);
    return;
  } else if (op == "buf") {
    RB* b = new RB(); b->capacity(kg(k, 1)); W->buf.push_back(b);
    J j("buf"); j.i("cap", mq(b->capacity())); Emit(j);
    return;
  } else if (op == "trk") {
    std::vector<RB*> bs; for (int i : nums(k.s(2))) bs.push_back(W->buf[i - 1]);
    TotalInvTracker* t = new TotalInvTracker(); t->Init(bs, kg(k, 1)); W->trk.push_back(t);
    J j("trk"); j.i("cap", k.i(1) < 0 ? 1000000000LL : k.i(1)).raw("b", vh::ints(nums(k.s(2)))); Emit(j);
    return;
  } else if (op == "buy") {   // buy id buf trk mode ...
    int id = k.i(1);
    if (!W->buy[id]) W->buy[id] = new MatlBuyPolicy();
    MatlBuyPolicy* p = W->buy[id];
    RB* b = W->buf[k.i(2) - 1];
    TotalInvTracker* t = k.i(3) ? W->trk[k.i(3) - 1] : NULL;
    std::string m = k.s(4);
    std::string nm = "pol" + k.s(1);
    std::string res = Try([&] {
      if (m == "plain") p->Init(W->fac, b, nm, t);
      else if (m == "cycle") {
        DoubleDistribution::Ptr sz;
        if (k.s(8) != "-") sz = DoubleDistribution::Ptr(new ScriptReal(nums(k.s(8))));
        p->Init(W->fac, b, nm, t, kg(k, 5), idist(k.s(6), 'a'), idist(k.s(7), 'd'), sz);
      } else if (m == "quant") p->Init(W->fac, b, nm, t, kg(k, 5), k.i(6) / 1000.0);
      else if (m == "inv") p->Init(W->fac, b, nm, t, kg(k, 5), k.s(6), k.i(7) / 1000.0, k.i(8) / 1000.0);
      else if (m == "inv0") p->Init(W->fac, b, nm, t, k.s(5), k.i(6) / 1000.0, k.i(7) / 1000.0);
      else if (m == "cum") p->Init(W->fac, b, nm, t, kg(k, 5), k.i(6) / 1000.0, idist(k.s(7), 'd'));
      else k.die();
    });
    if (res != "ok") { delete p; W->buy.erase(id); W->asked.erase(id); }
    J j("buy"); j.i("p", id).i("b", k.i(2)).i("k", k.i(3)).s("mode", m).s("res", res);
    auto lim = [&](int i) { return k.i(i) < 0 ? 1000000000LL : (long long)k.i(i); };
    auto ds = [&](int i) { return k.s(i) == "-" ? std::string("[]") : vh::ints(nums(k.s(i))); };
    if (m == "cycle") j.i("thr", lim(5)).raw("ad", ds(6)).raw("dd", ds(7)).raw("sd", ds(8));
    else if (m == "quant") j.i("thr", lim(5)).i("q", k.i(6));
    else if (m == "inv") j.i("thr", lim(5)).s("pol", k.s(6)).i("fill", k.i(7)).i("req", k.i(8));
    else if (m == "inv0") j.s("pol", k.s(5)).i("fill", k.i(6)).i("req", k.i(7));
    else if (m == "cum") j.i("thr", lim(5)).i("cap", k.i(6)).raw("dd", ds(7));
    Emit(j);
    return;
  } else if (op == "reset") {
    if (!W->buy[k.i(1)]) return;
    W->buy[k.i(1)]->ResetBehavior();
    J j("reset"); j.i("p", k.i(1)); Emit(j);
    return;
  } else if (op == "set") {   // set id commod comp|- pref|-
    if (!W->buy[k.i(1)]) return;
    if (k.s(3) == "-") W->buy[k.i(1)]->Set(k.s(2));
    else if (k.s(4) == "-") W->buy[k.i(1)]->Set(k.s(2), W->comp[k.s(3)]);
    else W->buy[k.i(1)]->Set(k.s(2), W->comp[k.s(3)], k.i(4) / 4.0);
    J j("set"); j.i("p", k.i(1)).s("c", k.s(2)).s("comp", k.s(3) == "-" ? "any" : k.s(3)).i("pref", k.s(4) == "-" ? 4 : k.i(4)); Emit(j);
    return;
  } else if (op == "unset") {
    if (!W->buy[k.i(1)]) return;
    W->buy[k.i(1)]->Unset(k.s(2));
    J j("unset"); j.i("p", k.i(1)).s("c", k.s(2)); Emit(j);
    return;
  } else if (op == "start" || op == "stop") {   // start id | stop id (positive: buy, negative: sell)
    Trader* t = NULL;
    std::string res = Try([&] {
      if (k.i(1) > 0 && W->buy[k.i(1)]) { t = W->buy[k.i(1)]; if (op == "start") W->buy[k.i(1)]->Start(); else W->buy[k.i(1)]->Stop(); }
      if (k.i(1) < 0 && W->sell[-k.i(1)]) { t = W->sell[-k.i(1)]; if (op == "start") W->sell[-k.i(1)]->Start(); else W->sell[-k.i(1)]->Stop(); }
    });
    if (!t) return;
    bool on = Reg(t);
    W->ctx->UnregisterTrader(t);   // the harness plays the market
    J j(op); j.i("p", k.i(1)).s("res", res).b("on", on); Emit(j);
    return;
  } else if (op == "ask") {
    MatlBuyPolicy* p = W->buy[k.i(1)];
    if (!p) return;
    std::set<RequestPortfolio<Material>::Ptr> ps;
    std::string res = Try([&] { ps = p->GetMatlRequests(); });
    W->asked[k.i(1)].clear();
    std::vector<std::string> o;
    for (auto& x : ps) {
      W->asked[k.i(1)].push_back(x);
      std::vector<std::string> rs;
      for (auto* r : x->requests())
        rs.push_back(J().s("c", r->commodity()).i("q", mq(r->target()->quantity())).i("pref", std::llround(r->preference() * 4)).b("ex", r->exclusive())
                     .s("comp", frac(r->target())).b("mine", r->requester() == p).str());
      o.push_back(J().i("q", mq(x->qty())).raw("r", vh::arr(rs)).str());
    }
    J j("ask"); j.i("p", k.i(1)).s("res", res).raw("ports", vh::arr(o)); Emit(j);
    return;
  } else if (op == "fill") {   // fill id n:permille n:permille ... : satisfy the n-th portfolio to that extent
    MatlBuyPolicy* p = W->buy[k.i(1)];
    if (!p) return;
    std::vector<Resp> rs;
    std::vector<std::string> o;
    std::vector<Material::Ptr> ms;
    auto& as = W->asked[k.i(1)];
    std::set<int> used;
    for (size_t i = 2; i < k.n(); i++) {
      auto v = nums(k.s(i));   // portfolio, request, sixteenths
      if (as.empty()) break;
      int n = v[0] % as.size();
      if (used.count(n)) continue;
      used.insert(n);
      auto& q = as[n]->requests();
      if (q.empty()) continue;
      Request<Material>* r = q[v[1] % q.size()];
      double x = r->exclusive() ? r->target()->quantity() : std::floor(r->target()->quantity() * v[2] / 16.0 * 8) / 8;
      x = std::min(x, r->target()->quantity());
      if (x <= 0 || x > p->TotalAvailable() + 1e3) continue;
      if (r->target()->quantity() > 1e5) x = v[2] / 8.0;   // an unbounded request
      Material::Ptr m = Material::Create(W->fac, x, W->comp.begin()->second);
      Bid<Material>* bid = Bid<Material>::Create(r, m, p, false);
      Trade<Material> t(r, bid, x);
      rs.push_back(Resp(t, m));
      ms.push_back(m);
      o.push_back(J().s("c", r->commodity()).i("q", mq(x)).str());
    }
    std::string res = Try([&] { p->AcceptMatlTrades(rs); });
    std::vector<std::string> got;
    for (auto& m : ms) got.push_back(p->rsrc_commods().count(m) ? p->rsrc_commods().at(m) : "");
    for (auto& r : rs) delete r.first.bid;
    as.clear();
    J j("fill"); j.i("p", k.i(1)).s("res", res).raw("got", vh::arr(o)).raw("from", vh::strs(got)).i("nfrom", p->rsrc_commods().size()); Emit(j);
    return;
  } else if (op == "put" || op == "take") {   // put buf qty comp | take buf qty
    RB* b = W->buf[k.i(1) - 1];
    double x = k.i(2) / 1000.0;
    if (op == "put") {
      x = std::min(x, b->space());
      if (x < 1e-3) return;
      b->Push(Material::Create(W->fac, x, W->comp[k.s(3)]));
    } else {
      x = std::min(x, b->quantity());
      if (x < 1e-3) return;
      b->Pop(x, eps_rsrc());
    }
    J j(op); j.i("b", k.i(1)).i("q", mq(x)).s("comp", op == "put" ? k.s(3) : ""); Emit(j);
    return;
  } else if (op == "sell") {   // sell id buf mode thr ignore quant pkg tu
    int id = k.i(1);
    if (!W->sell[id]) W->sell[id] = new MatlSellPolicy();
    MatlSellPolicy* p = W->sell[id];
    RB* b = W->buf[k.i(2) - 1];
    std::string m = k.s(3);
    bool ign = k.i(5);
    std::string res = Try([&] {
      if (m == "plain") p->Init(W->fac, b, "s");
      else if (m == "thr") p->Init(W->fac, b, "s", kg(k, 4));
      else if (m == "ign") p->Init(W->fac, b, "s", ign);
      else if (m == "both") p->Init(W->fac, b, "s", kg(k, 4), ign);
      else if (m == "full") p->Init(W->fac, b, "s", kg(k, 4), ign, k.i(6) / 1000.0, k.s(7), k.s(8));
      else k.die();
    });
    if (res != "ok") { delete p; W->sell.erase(id); W->bids.erase(id); }
    J j("sell"); j.i("p", id).i("b", k.i(2)).s("mode", m).i("thr", k.i(4) < 0 ? 1000000000LL : k.i(4)).b("ign", ign).i("q", k.i(6)).s("pkg", k.s(7)).s("tu", k.s(8)).s("res", res);
    Emit(j);
    return;
  } else if (op == "sset") {
    if (!W->sell[k.i(1)]) return;
    W->sell[k.i(1)]->Set(k.s(2));
    J j("sset"); j.i("p", k.i(1)).s("c", k.s(2)); Emit(j);
    return;
  } else if (op == "bid") {   // bid id commod,qty,comp ...
    MatlSellPolicy* p = W->sell[k.i(1)];
    if (!p) return;
    W->reqs.clear();
    W->offered[k.i(1)].clear();
    W->bids[k.i(1)].clear();
    CommodMap<Material>::type cr;
    std::vector<std::string> rs;
    std::map<Request<Material>*, int> num;
    for (size_t i = 2; i < k.n(); i++) {
      auto v = split(k.s(i), ',');
      RequestPortfolio<Material>::Ptr rp(new RequestPortfolio<Material>());
      Request<Material>* r = rp->AddRequest(Material::CreateUntracked(atoi(v[1].c_str()) / 1000.0, W->comp[v[2]]), p, v[0], 1, false);
      W->reqs.push_back(rp);
      cr[v[0]].push_back(r);
      num[r] = i - 1;
      rs.push_back(J().s("c", v[0]).i("q", atoi(v[1].c_str())).s("comp", v[2]).str());
    }
    std::set<BidPortfolio<Material>::Ptr> ps;
    long long lim = mq(p->Limit());
    std::string res = Try([&] { ps = p->GetMatlBids(cr); });
    std::vector<std::string> os;
    std::vector<std::pair<std::pair<int, long long>, Bid<Material>*> > order;
    for (auto& x : ps) {
      W->offered[k.i(1)].push_back(x);
      std::vector<long long> caps;
      for (auto& c : x->constraints()) caps.push_back(mq(c.capacity()));
      os.push_back(vh::ints(caps));
      for (auto* b : x->bids()) order.push_back(std::make_pair(std::make_pair(num[b->request()], -mq(b->offer()->quantity())), b));
    }
    std::sort(order.begin(), order.end());
    std::vector<std::string> bs;
    for (auto& e : order) {
      Bid<Material>* b = e.second;
      W->bids[k.i(1)].push_back(b);
      bs.push_back(J().i("r", e.first.first).i("q", mq(b->offer()->quantity())).b("ex", b->exclusive()).s("comp", frac(b->offer())).b("mine", b->bidder() == p).str());
    }
    J j("bid"); j.i("p", k.i(1)).s("res", res).raw("reqs", vh::arr(rs)).i("lim", lim).raw("caps", vh::arr(os)).raw("bids", vh::arr(bs)); Emit(j);
    return;
  } else if (op == "ship") {   // ship id bid,sixteenths ... : trades on the standing bids, within the capacity
    MatlSellPolicy* p = W->sell[k.i(1)];
    if (!p) return;
    auto& bs = W->bids[k.i(1)];
    if (bs.empty()) return;
    std::vector<Trade<Material> > ts;
    std::vector<std::string> o;
    std::set<int> used;
    double left = p->Limit();
    for (size_t i = 2; i < k.n(); i++) {
      auto v = nums(k.s(i));
      int n = v[0] % bs.size();
      if (used.count(n)) continue;
      Bid<Material>* b = bs[n];
      double x = b->exclusive() ? b->offer()->quantity() : std::floor(b->offer()->quantity() * v[1] / 16.0 * 8) / 8;
      x = std::min(x, b->offer()->quantity());
      if (x < 1e-3 || x > left + 1e-9) continue;
      used.insert(n);
      left -= x;
      ts.push_back(Trade<Material>(b->request(), b, x));
      o.push_back(J().i("b", n + 1).i("q", mq(x)).str());
    }
    std::vector<Resp> rs;
    std::string res = Try([&] { p->GetMatlTrades(ts, rs); });
    std::vector<std::string> out;
    size_t at = 0;
    for (auto& r : rs) {
      int which = 0;
      for (size_t i = at; i < ts.size(); i++) if (ts[i].bid == r.first.bid) { which = i + 1; at = i + 1; break; }
      out.push_back(J().i("i", which).i("amt", mq(r.first.amt)).i("q", mq(r.second->quantity())).s("pkg", r.second->package_name()).s("comp", frac(r.second)).str());
    }
    bs.clear();
    J j("ship"); j.i("p", k.i(1)).s("res", res).raw("trades", vh::arr(o)).raw("sent", vh::arr(out)); Emit(j);
    return;
  } else k.die();
  J j(op);
  if (op == "pkg") j.s("name", k.s(1)).i("min", k.i(2)).i("max", k.i(3) < 0 ? 1000000000LL : k.i(3)).s("strat", k.s(4));
  else j.s("name", k.s(1)).i("min", k.i(2)).i("max", k.i(3) < 0 ? 1000000000LL : k.i(3)).s("strat", k.s(4));
  Emit(j);
}

static const std::vector<Tok>* Script;
static size_t Pos;
class Fac : public Facility {
 public:
  Fac(Context* c) : Facility(c) {}
  virtual Agent* Clone() { return new Fac(context()); }
  virtual void InfileToDb(InfileTree*, DbInit) {}
  virtual void InitFrom(QueryableBackend*) {}
  virtual void Snapshot(DbInit) {}
  virtual Inventories SnapshotInv() { return Inventories(); }
  virtual void InitInv(Inventories&) {}
  virtual void Tick() {
    while (Pos < Script->size()) {
      const Tok& k = (*Script)[Pos++];
      if (k.s(0) == "next") { J j("next"); Emit(j); return; }
      Do(k);
    }
  }
  virtual void Tock() {}
};
static void OnRow(Datum* d) {
  if (d->title() == "BuyPolActiveDormant")
    W->rows.push_back(J().b("mine", vh::fint(d, "Agent") == W->fac->id()).i("at", vh::fint(d, "Time")).s("ty", vh::fstr(d, "Type")).i("len", vh::fint(d, "Length")).str());
}
static void History(const std::vector<Tok>& ts) {
  World w; W = &w;
  Drawn.clear();
  Timer ti;
  Recorder rec((unsigned int)1);
  vh::Capture cap;
  cap.on = OnRow;
  rec.RegisterBackend(&cap);
  {
    Context ctx(&ti, &rec);
    int dur = 1; for (auto& k : ts) if (k.s(0) == "next") dur++;
    SimInfo si(dur);
    si.decay = "never";
    ctx.InitSim(si);
    ctx.solver(new NoSolve());
    w.ctx = &ctx;
    CompMap any; any[10010000] = 1e-100;
    w.comp["any"] = Composition::CreateFromMass(any);
    w.fac = new Fac(&ctx);
    w.fac->prototype("p");
    w.fac->Build(NULL);
    Script = &ts; Pos = 0;
    std::string res;
    try { ti.RunSim(); res = "ok"; } catch (std::exception& e) { res = e.what(); }
    J("end").s("res", res).i("t", ctx.time()).emit();
    cap.on = nullptr;
    for (auto& p : w.buy) delete p.second;
    for (auto& p : w.sell) delete p.second;
    for (auto* b : w.buf) delete b;
    for (auto* t : w.trk) delete t;
    rec.Close();
  }
}
int main() { return vh::run(History); }
