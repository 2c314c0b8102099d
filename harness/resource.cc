// Drives the real resource classes: materials, products, packaging, transport units,
// resource buffers, inventory trackers and resource maps.
#include <algorithm>
#include "vh.h"
#include "toolkit/res_buf.h"
#include "toolkit/res_map.h"
#include "toolkit/res_manip.h"
#include "toolkit/total_inv_tracker.h"
using namespace cyclus;
using vh::J;
using vh::Tok;
typedef toolkit::ResBuf<Resource> RB;

static double Sc = 1;   // all quantities of a history are scaled by this power of two
static long long mq(double x) {   // thousandths of a kg
  x /= Sc;
  if (std::isnan(x)) return vh::kOff;
  if (x > 1e6) return 1000000000LL;
  if (x < -1e6) return -1000000000LL;
  return std::llround(x * 1000);
}
static const int kNuc[3] = {922350000, 922380000, 942390000};
static int nuci(int n) { for (int i = 0; i < 3; i++) if (kNuc[i] == n) return i + 1; return 0; }

struct NoSolve : public ExchangeSolver {
  NoSolve() : ExchangeSolver(false) {}
  double SolveGraph() { return 0; }
};

struct Buf {
  char ty; bool bulk, keep, trk;
  toolkit::ResBuf<Material>* m; toolkit::ResBuf<Product>* p;
  int count() { return ty == 'M' ? m->count() : p->count(); }
  double quantity() { return ty == 'M' ? m->quantity() : p->quantity(); }
  double space() { return ty == 'M' ? m->space() : p->space(); }
  double capacity() { return ty == 'M' ? m->capacity() : p->capacity(); }
  bool empty() { return ty == 'M' ? m->empty() : p->empty(); }
};
struct Trk { toolkit::TotalInvTracker* t; std::vector<int> b; };

struct World {
  Context* ctx; Timer* ti;
  std::vector<Agent*> ag;
  std::map<int, int> agidx;
  std::map<std::string, Composition::Ptr> comps;
  std::vector<Resource::Ptr> obj;          // slot i is obj[i-1]
  std::vector<bool> trk;                   // tracked?
  std::vector<int> inb;                    // buffer (or map: -1) that holds it, 0 if none
  std::map<int, std::vector<int> > order;  // slots of each buffer, in order
  std::map<int, int> slot;                 // obj_id -> slot
  std::vector<std::string> last;
  std::vector<Buf> bufs; std::vector<std::string> lastb;
  std::vector<Trk> trks; std::vector<std::string> lastt;
  toolkit::ResMap<int, Material>* map; std::string lastm;
  int base, cbase; std::string uniq;
  std::map<int, int> qid;                   // product quality ids seen
  // rows of the current operation
  std::vector<std::string> rows, cre, comp, prods, pk;
  std::map<int, std::vector<int> > pdt;
  std::vector<Datum*> resrows;
  std::map<int, std::vector<std::string> > cr;
};
static World* W;
static int st(int s) { return s == 0 ? 0 : s - W->base; }
static std::string q2(const std::string& s) { return s.compare(0, W->uniq.size(), W->uniq) == 0 ? s.substr(W->uniq.size()) : "?" + s; }

struct Row { int id, obj, t, qual, p1, p2; std::string ty, un, pkg; double q; };
static std::vector<Row> RR;

static void OnRow(Datum* d) {
  std::string t = d->title();
  if (t == "Resources") {
    Row r = {(int)vh::fint(d, "ResourceId"), (int)vh::fint(d, "ObjId"), (int)vh::fint(d, "TimeCreated"), (int)vh::fint(d, "QualId"),
             (int)vh::fint(d, "Parent1"), (int)vh::fint(d, "Parent2"), vh::fstr(d, "Type"), vh::fstr(d, "Units"), vh::fstr(d, "PackageName"), vh::fdbl(d, "Quantity")};
    RR.push_back(r);
  } else if (t == "MaterialInfo") {
    W->pdt[(int)vh::fint(d, "ResourceId")].push_back((int)vh::fint(d, "PrevDecayTime"));
  } else if (t == "ResCreators") {
    W->cre.push_back(vh::ints(std::vector<int>{st((int)vh::fint(d, "ResourceId")), W->agidx[(int)vh::fint(d, "AgentId")]}));
  } else if (t == "Compositions") {
    W->cr[(int)vh::fint(d, "QualId")].push_back(vh::ints(std::vector<long long>{nuci((int)vh::fint(d, "NucId")), std::llround(vh::fdbl(d, "MassFrac") * 10000)}));
  } else if (t == "Products") {
    W->prods.push_back(J().i("qual", vh::fint(d, "QualId")).s("quality", q2(vh::fstr(d, "Quality"))).str());
  } else if (t == "Packages") {
    W->pk.push_back(J().s("k", "pkg").s("name", vh::fstr(d, "PackageName")).i("min", mq(vh::fdbl(d, "FillMin"))).i("max", mq(vh::fdbl(d, "FillMax"))).s("strat", vh::fstr(d, "Strategy")).str());
  } else if (t == "TransportUnits") {
    W->pk.push_back(J().s("k", "tu").s("name", vh::fstr(d, "TransportUnitName")).i("min", vh::fint(d, "FillMin")).i("max", vh::fint(d, "FillMax")).s("strat", vh::fstr(d, "Strategy")).str());
  }
}

static int QualOf(Resource::Ptr r) { return ResCast<Material>(r) ? r->qual_id() - W->cbase : r->qual_id(); }
static std::string Obs(int i) {
  Resource::Ptr r = W->obj[i - 1];
  Material::Ptr m = ResCast<Material>(r);
  J j;
  j.i("o", i).i("st", st(r->state_id())).i("q", mq(r->quantity())).s("pkg", r->package_name()).s("ty", r->type()).s("un", r->units());
  std::vector<long long> v(3, 0);
  if (m) {
    CompMap c = m->comp()->mass();
    double tot = 0; for (auto& e : c) tot += e.second;
    for (auto& e : c) if (nuci(e.first) && tot > 0) v[nuci(e.first) - 1] = std::llround(e.second / tot * m->quantity() / Sc * 1000);
    j.i("qual", m->qual_id() - W->cbase).s("ql", "");
  } else {
    j.i("qual", 0).s("ql", q2(ResCast<Product>(r)->quality()));
  }
  j.raw("m", vh::ints(v)).b("pos", r->quantity() > eps_rsrc()).i("pdt", m ? m->prev_decay_time() : -1);
  return j.str();
}
static int Slot(Resource::Ptr r, bool tracked) {   // registers new objects
  auto it = W->slot.find(r->obj_id());
  for (size_t i = 0; i < W->obj.size(); i++) if (W->obj[i] == r) return i + 1;
  W->obj.push_back(r); W->trk.push_back(tracked); W->inb.push_back(0); W->last.push_back("");
  int s = W->obj.size();
  if (it == W->slot.end()) W->slot[r->obj_id()] = s;
  return s;
}
static int SlotOf(int obj) { auto it = W->slot.find(obj); return it == W->slot.end() ? 0 : it->second; }

static void Emit(J& j, const std::string& res) {
  std::vector<std::string> o, b, t, rows, cs;
  for (size_t i = 0; i < W->obj.size(); i++) { std::string s = Obs(i + 1); if (s != W->last[i]) { o.push_back(s); W->last[i] = s; } }
  for (size_t i = 0; i < W->bufs.size(); i++) {
    Buf& x = W->bufs[i];
    std::string s = J().i("b", i + 1).i("n", x.count()).i("q", mq(x.quantity())).i("sp", mq(x.space())).i("cap", mq(x.capacity())).b("e", x.empty()).str();
    if (s != W->lastb[i]) { b.push_back(s); W->lastb[i] = s; }
  }
  for (size_t i = 0; i < W->trks.size(); i++) {
    Trk& x = W->trks[i];
    std::vector<long long> cs;
    for (int k : x.b) cs.push_back(mq(x.t->constrained_buf_space(W->bufs[k - 1].m)));
    std::string s = J().i("t", i + 1).i("q", mq(x.t->quantity())).i("sp", mq(x.t->space())).i("cap", mq(x.t->capacity())).i("tc", mq(x.t->tracker_capacity()))
        .i("bc", mq(x.t->total_capacity_bufs())).b("e", x.t->empty()).i("n", x.t->num_bufs()).raw("cs", vh::ints(cs)).str();
    if (s != W->lastt[i]) { t.push_back(s); W->lastt[i] = s; }
  }
  for (auto& r : RR) {
    std::vector<int>& p = W->pdt[r.id];
    bool mat = r.ty == "Material";
    rows.push_back(J().i("st", st(r.id)).i("o", SlotOf(r.obj)).s("ty", r.ty).i("t", r.t).i("q", mq(r.q)).s("un", r.un)
        .i("qual", mat ? r.qual - W->cbase : r.qual).s("pkg", r.pkg).i("p1", st(r.p1)).i("p2", st(r.p2)).raw("pdt", vh::ints(p)).str());
  }
  for (auto& c : W->cr) cs.push_back(J().i("qual", c.first - W->cbase).raw("f", vh::arr(c.second)).str());
  j.s("res", res).i("t", W->ctx->time()).raw("rows", vh::arr(rows)).raw("cre", vh::arr(W->cre)).raw("comps", vh::arr(cs)).raw("prods", vh::arr(W->prods))
      .raw("pk", vh::arr(W->pk)).raw("obs", vh::arr(o)).raw("bufs", vh::arr(b)).raw("trks", vh::arr(t));
  j.emit();
  RR.clear(); W->pdt.clear(); W->cre.clear(); W->cr.clear(); W->prods.clear(); W->pk.clear();
}

template <class F> static std::string Try(F f) {
  try { f(); return "ok"; }
  catch (ValueError& e) { return "value"; }
  catch (KeyError& e) { return "key"; }
  catch (CastError& e) { return "cast"; }
  catch (std::exception& e) { return "other"; }
}

// the k-th (modulo) free object satisfying pred; 0 if none.  "#n" names slot n.
static int Pick(const std::string& s, std::function<bool(int)> pred) {
  if (s[0] == '#') { int n = atoi(s.c_str() + 1); return n >= 1 && n <= (int)W->obj.size() && pred(n) ? n : 0; }
  std::vector<int> v;
  for (size_t i = 1; i <= W->obj.size(); i++) if (pred(i)) v.push_back(i);
  return v.empty() ? 0 : v[atoi(s.c_str()) % v.size()];
}
static bool Free(int i) { return W->inb[i - 1] == 0; }
static char TyOf(int i) { return ResCast<Material>(W->obj[i - 1]) ? 'M' : 'P'; }
static double Q(const std::string& s) {   // thousandths; suffix e: a hair (4e-7) less
  double x = atof(s.c_str()) / 1000.0 * Sc;
  if (s[s.size() - 1] == 'e') x -= 4e-7;
  return x;
}

static void Do(const Tok& k) {
  std::string c = k.s(0), res;
  J j(c);
  if (c == "scale") {
    Sc = std::pow(2.0, k.i(1));
    return;
  } else if (c == "comp") {                       // comp name a b c
    CompMap m; for (int i = 0; i < 3; i++) if (k.i(2 + i)) m[kNuc[i]] = k.i(2 + i);
    W->comps[k.s(1)] = Composition::CreateFromMass(m);
    J("comp").i("qual", W->comps[k.s(1)]->id() - W->cbase).raw("f", vh::ints(std::vector<int>{k.i(2), k.i(3), k.i(4)})).emit();
    return;
  } else if (c == "pkg") {
    j.s("name", k.s(1)).i("min", k.i(2)).i("max", k.i(3)).s("strat", k.s(4));
    res = Try([&] { W->ctx->AddPackage(k.s(1), k.i(2) / 1000.0 * Sc, k.i(3) / 1000.0 * Sc, k.s(4)); });
  } else if (c == "tu") {
    j.s("name", k.s(1)).i("min", k.i(2)).i("max", k.i(3)).s("strat", k.s(4));
    res = Try([&] { W->ctx->AddTransportUnit(k.s(1), k.i(2), k.i(3), k.s(4)); });
  } else if (c == "mk") {                  // mk M|P agent qty comp pkg
    Agent* a = W->ag[k.i(2) % W->ag.size()];
    int n = 0;
    std::string pkg = k.s(5) == "-" ? Package::unpackaged_name() : k.s(5);
    res = Try([&] {
      Resource::Ptr r;
      if (k.s(1) == "M") r = Material::Create(a, Q(k.s(3)), W->comps.at(k.s(4)), pkg);
      else r = Product::Create(a, Q(k.s(3)), W->uniq + k.s(4), pkg);
      n = Slot(r, true);
    });
    j.s("ty", k.s(1)).i("a", W->agidx[a->id()]).i("o", n).i("q", mq(Q(k.s(3)))).s("pkg", pkg)
        .s("ql", k.s(1) == "M" ? "" : k.s(4)).i("qual", k.s(1) == "M" ? W->comps.at(k.s(4))->id() - W->cbase : 0);
  } else if (c == "un") {                  // un M|P qty comp
    Resource::Ptr r;
    if (k.s(1) == "M") r = Material::CreateUntracked(Q(k.s(2)), W->comps.at(k.s(3)));
    else r = Product::CreateUntracked(Q(k.s(2)), W->uniq + k.s(3));
    int n = Slot(r, false);
    j.s("ty", k.s(1)).i("o", n).i("q", mq(Q(k.s(2)))).s("ql", k.s(1) == "M" ? "" : k.s(3)).i("qual", k.s(1) == "M" ? W->comps.at(k.s(3))->id() - W->cbase : 0);
    res = "ok";
  } else if (c == "clone") {
    int a = Pick(k.s(1), [](int) { return true; });
    if (!a) return;
    Resource::Ptr r = W->obj[a - 1]->Clone();
    int n = Slot(r, false);
    j.i("a", a).i("o", n); res = "ok";
  } else if (c == "ext" || c == "pkx") {   // ext obj qty / pkx obj qty pkg
    int a = Pick(k.s(1), Free);
    if (!a) return;
    int n = 0; double q = Q(k.s(2));
    if (k.s(2) == "all") q = W->obj[a - 1]->quantity();
    if (k.s(2) == "alle") q = std::max(0.0, W->obj[a - 1]->quantity() - 4e-7);
    if (k.s(2) == "half") q = std::floor(W->obj[a - 1]->quantity() / Sc * 500) / 1000 * Sc;
    res = Try([&] {
      Resource::Ptr r = c == "ext" ? W->obj[a - 1]->ExtractRes(q) : W->obj[a - 1]->PackageExtract(q, k.s(3));
      n = Slot(r, W->trk[a - 1]);
    });
    j.i("a", a).i("o", n).i("q", mq(q));
    if (c == "pkx") j.s("pkg", k.s(3));
  } else if (c == "extc") {                // extc obj qty comp
    int a = Pick(k.s(1), [](int i) { return Free(i) && TyOf(i) == 'M'; });
    if (!a) return;
    int n = 0; double q = Q(k.s(2));
    res = Try([&] {
      Resource::Ptr r = ResCast<Material>(W->obj[a - 1])->ExtractComp(q, W->comps.at(k.s(3)));
      n = Slot(r, W->trk[a - 1]);
    });
    j.i("a", a).i("o", n).i("q", mq(q)).i("qual", W->comps.at(k.s(3))->id() - W->cbase);
  } else if (c == "abs") {
    int a = Pick(k.s(1), Free);
    if (!a) return;
    int b = Pick(k.s(2), [&](int i) { return Free(i) && i != a && TyOf(i) == TyOf(a) && W->trk[i - 1] == W->trk[a - 1]; });
    if (!b) return;
    res = Try([&] {
      if (TyOf(a) == 'M') ResCast<Material>(W->obj[a - 1])->Absorb(ResCast<Material>(W->obj[b - 1]));
      else ResCast<Product>(W->obj[a - 1])->Absorb(ResCast<Product>(W->obj[b - 1]));
    });
    j.i("a", a).i("b", b);
  } else if (c == "sq") {                  // squash objects
    std::vector<int> v;
    int a = Pick(k.s(1), Free);
    if (!a) return;
    v.push_back(a);
    for (size_t i = 2; i < k.n(); i++) {
      int b = Pick(k.s(i), [&](int x) { return Free(x) && TyOf(x) == TyOf(a) && W->trk[x - 1] == W->trk[a - 1] && std::find(v.begin(), v.end(), x) == v.end(); });
      if (b) v.push_back(b);
    }
    bool all = true;  // products of one quality only
    for (int x : v) if (TyOf(a) == 'P' && ResCast<Product>(W->obj[x - 1])->quality() != ResCast<Product>(W->obj[a - 1])->quality()) all = false;
    if (!all) return;
    int n = 0;
    std::vector<Resource::Ptr> rs; for (int x : v) rs.push_back(W->obj[x - 1]);
    res = Try([&] { n = Slot(toolkit::Squash(rs), W->trk[a - 1]); });
    j.raw("v", vh::ints(v)).i("o", n);
  } else if (c == "tra") {
    int a = Pick(k.s(1), [](int i) { return Free(i) && TyOf(i) == 'M'; });
    if (!a) return;
    res = Try([&] { ResCast<Material>(W->obj[a - 1])->Transmute(W->comps.at(k.s(2))); });
    j.i("a", a).i("qual", W->comps.at(k.s(2))->id() - W->cbase);
  } else if (c == "pk") {                  // pk obj pkg
    int a = Pick(k.s(1), Free);
    if (!a) return;
    std::vector<int> v;
    res = Try([&] {
      Package::Ptr p = W->ctx->GetPackage(k.s(2));
      if (TyOf(a) == 'M') { auto rs = W->obj[a - 1]->Package<Material>(p); for (auto r : rs) v.push_back(Slot(r, W->trk[a - 1])); }
      else { auto rs = W->obj[a - 1]->Package<Product>(p); for (auto r : rs) v.push_back(Slot(r, W->trk[a - 1])); }
    });
    j.i("a", a).s("pkg", k.s(2)).raw("v", vh::ints(v));
  } else if (c == "chp") {
    int a = Pick(k.s(1), Free);
    if (!a) return;
    std::string p = k.s(2) == "-" ? Package::unpackaged_name() : k.s(2);
    res = Try([&] { W->obj[a - 1]->ChangePackage(p); });
    j.i("a", a).s("pkg", p);
  } else if (c == "fill") {                // fill pkg qty
    std::vector<long long> v;
    res = Try([&] { for (double x : W->ctx->GetPackage(k.s(1))->GetFillMass(Q(k.s(2)))) v.push_back(mq(x)); });
    j.s("pkg", k.s(1)).i("q", k.i(2)).raw("v", vh::ints(v));
  } else if (c == "tuf") {
    int f = -1, m = -1;
    res = Try([&] { TransportUnit::Ptr t = W->ctx->GetTransportUnit(k.s(1)); m = t->MaxShippablePackages(k.i(2)); if (k.s(1) != TransportUnit::unrestricted_name()) f = t->GetTransportUnitFill(k.i(2)); });
    j.s("tu", k.s(1)).i("n", k.i(2)).i("fill", f).i("ship", m);
  // ---------------------------------------------------------------- buffers
  } else if (c == "buf") {                 // buf M|P bulk keep tracked
    Buf b; b.ty = k.s(1)[0]; b.bulk = k.i(2); b.keep = k.i(3); b.trk = k.i(4); b.m = NULL; b.p = NULL;
    res = Try([&] { if (b.ty == 'M') b.m = new toolkit::ResBuf<Material>(b.bulk, b.keep); else b.p = new toolkit::ResBuf<Product>(b.bulk, b.keep); });
    if (res == "ok") { W->bufs.push_back(b); W->lastb.push_back(""); }
    j.s("ty", k.s(1)).b("bulk", b.bulk).b("keep", b.keep);
  } else if (c == "bcap") {
    if (W->bufs.empty()) return;
    int b = k.i(1) % W->bufs.size(); Buf& x = W->bufs[b];
    double cap = k.s(2) == "q" ? x.quantity() : k.s(2) == "inf" ? INFINITY : k.i(2) / 1000.0 * Sc;
    res = Try([&] { if (x.ty == 'M') x.m->capacity(cap); else x.p->capacity(cap); });
    j.i("b", b + 1).i("cap", mq(cap));
  } else if (c == "push" || c == "pushv") {    // push buf obj... ; "bad": any free object of either type; "dup": may name objects in this buffer
    if (W->bufs.empty()) return;
    int b = k.i(1) % W->bufs.size(); Buf& x = W->bufs[b];
    std::vector<int> v;
    for (size_t i = 2; i < k.n(); i++) {
      std::string a = k.s(i); int o;
      if (a[0] == 'd') o = Pick(a.substr(1), [&](int s) { return W->inb[s - 1] == b + 1; });
      else if (a[0] == 'w') o = Pick(a.substr(1), [&](int s) { return Free(s) && TyOf(s) != x.ty; });
      else o = Pick(a, [&](int s) { return Free(s) && TyOf(s) == x.ty && W->trk[s - 1] == x.trk && std::find(v.begin(), v.end(), s) == v.end(); });
      if (a[0] == 'r' && !v.empty()) o = v[0];
      if (o) v.push_back(o);
    }
    if (v.empty()) return;
    if (x.ty == 'P' && x.bulk) {   // bulk product buffers hold one quality
      for (int o : v) if (TyOf(o) == 'P' && ResCast<Product>(W->obj[o - 1])->quality() != W->uniq + "qa") return;
    }
    if (c == "push") v.resize(1);
    int n0 = x.count();
    std::vector<Resource::Ptr> rs; for (int o : v) rs.push_back(W->obj[o - 1]);
    res = Try([&] {
      if (c == "push") { if (x.ty == 'M') x.m->Push(rs[0]); else x.p->Push(rs[0]); }
      else { if (x.ty == 'M') x.m->Push(rs); else x.p->Push(rs); }
    });
    if (res == "ok") for (size_t i = 0; i < v.size(); i++) if (!(x.bulk && (n0 > 0 || i > 0))) { W->inb[v[i] - 1] = b + 1; W->order[b].push_back(v[i]); }
    j.i("b", b + 1).raw("v", vh::ints(v));
  } else if (c == "pop" || c == "popb" || c == "popn" || c == "popq" || c == "popqe" || c == "popv" || c == "peek") {
    if (W->bufs.empty()) return;
    int b = k.i(1) % W->bufs.size(); Buf& x = W->bufs[b];
    double q = 0; int n = 0;
    if (c == "popq" || c == "popv" || c == "popqe") q = k.s(2) == "all" ? x.quantity() : Q(k.s(2));
    if (c == "popqe" && k.s(2) == "over") q = x.quantity() + Q(k.s(3));
    if (c == "popn") n = k.s(2) == "all" ? x.count() : k.i(2);
    if ((c == "popq" || c == "popqe") && x.ty == 'P' && !x.bulk) return;  // squashing needs one quality
    if ((c == "popq" || c == "popqe") && x.count() == 0) return;          // squash of nothing
    if ((c == "popq" || c == "popqe") && q <= 0) return;
    std::vector<Resource::Ptr> rs;
#define B(e) (x.ty == 'M' ? (void)rs.push_back(x.m->e) : (void)rs.push_back(x.p->e))
#define BV(e) do { if (x.ty == 'M') { for (auto r : x.m->e) rs.push_back(r); } else { for (auto r : x.p->e) rs.push_back(r); } } while (0)
    res = Try([&] {
      if (c == "pop") B(Pop());
      else if (c == "popb") B(PopBack());
      else if (c == "peek") B(Peek());
      else if (c == "popn") BV(PopN(n));
      else if (c == "popq") B(Pop(q));
      else if (c == "popqe") B(Pop(q, Q(k.s(3))));
      else BV(PopVector(q));
    });
    std::vector<int> v;
    for (auto r : rs) { int s = Slot(r, x.trk); v.push_back(s); if (c != "peek") W->inb[s - 1] = 0; }
    if (c != "peek") {   // whatever is no longer in the buffer is free again
      std::vector<int>& o = W->order[b];
      size_t left = x.count();
      while (o.size() > left) {
        auto it = c == "popb" ? o.end() - 1 : o.begin();
        W->inb[*it - 1] = 0; o.erase(it);
      }
    }
    j.i("b", b + 1).i("q", mq(q)).i("n", n).b("all", k.n() > 2 && k.s(2) == "all").raw("v", vh::ints(v));
    if (c == "popqe") j.i("eps", k.i(3));
  } else if (c == "trk") {                 // trk cap buf...
    std::vector<int> v; std::vector<toolkit::ResBuf<Material>*> bs;
    for (size_t i = 2; i < k.n(); i++) { int b = k.i(i) % std::max<size_t>(1, W->bufs.size()); if (b < (int)W->bufs.size() && W->bufs[b].ty == 'M' && std::find(v.begin(), v.end(), b + 1) == v.end()) { v.push_back(b + 1); bs.push_back(W->bufs[b].m); } }
    toolkit::TotalInvTracker* t = NULL;
    res = Try([&] { t = k.s(1) == "inf" ? new toolkit::TotalInvTracker(bs) : new toolkit::TotalInvTracker(bs, k.i(1) / 1000.0 * Sc); });
    if (res == "ok") { W->trks.push_back(Trk{t, v}); W->lastt.push_back(""); }
    j.i("cap", k.s(1) == "inf" ? 1000000000 : k.i(1)).raw("v", vh::ints(v));
  } else if (c == "tcap") {
    if (W->trks.empty()) return;
    int t = k.i(1) % W->trks.size();
    double cap = k.i(2) / 1000.0 * Sc;
    res = Try([&] { W->trks[t].t->set_capacity(cap); });
    j.i("tr", t + 1).i("cap", k.i(2));
  } else if (c == "mset" || c == "mpop" || c == "mers" || c == "mclr" || c == "mget" || c == "mtouch" || c == "mrng" || c == "msave") {
    if (c == "msave") {                    // as an agent is saved and restored, the values in another order
      auto ids = W->map->obj_ids();
      std::vector<Resource::Ptr> vals = W->map->ResValues();
      if (k.i(1) % 2) std::reverse(vals.begin(), vals.end());
      auto* n = new toolkit::ResMap<int, Material>();
      n->obj_ids(ids); n->quantity(); n->ResValues(vals);
      delete W->map; W->map = n;
    }
    auto& m = *W->map;
    int o = 0;
    if (c == "mset") {
      auto had = m.obj_ids();
      o = Pick(k.s(2), [](int i) { return Free(i) && W->trk[i - 1] && TyOf(i) == 'M'; });
      if (!o) return;
      if (had.count(k.i(1))) W->inb[SlotOf(had[k.i(1)]) - 1] = 0;
      m[k.i(1)] = ResCast<Material>(W->obj[o - 1]); W->inb[o - 1] = -1; res = "ok";
    } else if (c == "mpop") {
      Resource::Ptr r;
      res = Try([&] { r = m.Pop(k.i(1)); });
      if (r) { o = Slot(r, true); W->inb[o - 1] = 0; }
    } else if (c == "mers") {
      auto ids = m.obj_ids();
      if (ids.count(k.i(1))) W->inb[SlotOf(ids[k.i(1)]) - 1] = 0;
      o = m.erase(k.i(1)); res = "ok";
    } else if (c == "mrng") {              // keys k..k+2 through iterators
      auto a = m.begin(); while (a != m.end() && a->first < k.i(1)) ++a;
      auto b = a; for (; b != m.end() && b->first <= k.i(1) + 2; ++b) { W->inb[SlotOf(b->second->obj_id()) - 1] = 0; o++; }
      m.quantity();
      if (o == 1) m.erase(a); else m.erase(a, b);
      res = "ok";
    } else if (c == "mclr") {
      for (auto& e : m.obj_ids()) W->inb[SlotOf(e.second) - 1] = 0;
      m.clear(); res = "ok";
    } else if (c == "mtouch") {            // change a held material through its reference
      if (!m.obj_ids().count(k.i(1))) return;
      Material::Ptr r = m[k.i(1)];
      double q = r->quantity() / 2; q = std::floor(q / Sc * 1000) / 1000 * Sc;
      o = Slot(r, true);
      Resource::Ptr n = r->ExtractRes(q);
      int s = Slot(n, W->trk[o - 1]);
      J e("ext"); e.i("a", o).i("o", s).i("q", mq(q));
      Emit(e, "ok");
      res = "ok";
    } else res = "ok";
    std::vector<std::string> mv;
    for (auto& e : m.obj_ids()) mv.push_back(vh::ints(std::vector<int>{e.first, SlotOf(e.second)}));
    std::vector<std::string> vals;
    for (auto r : m.Values()) vals.push_back(std::to_string(SlotOf(r->obj_id())));
    j.s("op2", c).i("k", c == "mclr" ? 0 : k.i(1)).i("o", o).i("n", m.size()).i("q", mq(m.quantity())).b("e", m.empty()).raw("held", vh::arr(mv)).raw("vals", vh::arr(vals));
  } else if (c == "drain") {
    for (size_t b = 0; b < W->bufs.size(); b++)
      while (W->bufs[b].count() > 0) Do(Tok("pop " + std::to_string(b)));
    return;
  } else k.die();
  Emit(j, res);
}

static const std::vector<Tok>* Script; static size_t Pos;
struct Fac : public Facility {
  bool main_;
  Fac(Context* c, bool m) : Facility(c), main_(m) {}
  Agent* Clone() { return new Fac(context(), false); }
  std::string version() { return "0"; }
  void Snapshot(DbInit) {}
  void InitFrom(QueryableBackend*) {}
  using Facility::InitFrom;
  void InitInv(Inventories&) {}
  Inventories SnapshotInv() { return Inventories(); }
  void Tick() {
    if (!main_) return;
    while (Pos < Script->size()) {
      const Tok& k = (*Script)[Pos++];
      if (k.s(0) == "t") return;
      Do(k);
    }
  }
  void Tock() {}
};

static int hist = 0;
static void History(const std::vector<Tok>& ts) {
  World w; Sc = 1; W = &w;
  w.uniq = "h" + std::to_string(hist++) + ":";
  Resource::Ptr probe = Product::CreateUntracked(1, "probe");
  w.base = probe->state_id();
  w.cbase = Composition::CreateFromMass(CompMap())->id();
  Timer ti;
  Recorder rec((unsigned int)1);
  vh::Capture cap;
  cap.on = OnRow;
  rec.RegisterBackend(&cap);
  RR.clear();
  {
    Context ctx(&ti, &rec);
    int dur = 1; for (auto& k : ts) if (k.s(0) == "t") dur++;
    SimInfo si(dur);
    si.decay = "never";
    ctx.InitSim(si);
    ctx.solver(new NoSolve());
    w.ctx = &ctx; w.ti = &ti;
    w.map = new toolkit::ResMap<int, Material>();
    for (int i = 0; i < 2; i++) { Agent* a = new Fac(&ctx, i == 0); a->prototype("p"); a->Build(NULL); w.ag.push_back(a); w.agidx[a->id()] = i + 1; }
    W->pk.clear();
    Script = &ts; Pos = 0;
    std::string res = Try([&] { ti.RunSim(); });
    J("end").s("res", res).i("t", ctx.time()).emit();
    cap.on = nullptr;
    for (auto& b : w.bufs) { delete b.m; delete b.p; }
    for (auto& t : w.trks) delete t.t;
    delete w.map;
    rec.Close();
  }
}
int main() { return vh::run(History); }
