// Drives radioactive decay: compositions and materials decayed, split, merged, copied and
// transmuted in a simulation whose time step is a half-life of the decaying nuclide.
#include "vh.h"
#include "pyne.h"
#include "toolkit/res_buf.h"
extern "C" {
#include "cram.hpp"
}
using namespace cyclus;
using vh::J;
using vh::Tok;

// The numerical library behind decay (cram.c) is not part of the repository.  This stand-in has its
// interface and solves one parent that decays to one daughter, one slow one, and stable nuclides.
struct Nucs { int p, d, q, e; double hp, hq; };
static const double kYear = 31556926.0;
static const Nucs kNucs[] = {{150320000, 160320000, 551370000, 561370000, 14.268 * 86400, 30.08 * kYear},
                             {270600000, 280600000, 280590000, 270590000, 5.2711 * kYear, 76000 * kYear},
                             {10030000, 20030000, 200410000, 190410000, 12.32 * kYear, 99400 * kYear}};
static const int kS = 260560000, kE = 20040000;
static Nucs N;
static uint64_t Step;
static std::vector<int> Bulk;   // many stable nuclides
static std::vector<int> Ids, Row, Col;
static std::vector<double> Mat;
static std::map<int, int> Idx;
extern "C" {
pyne_cram_transmute_info_t pyne_cram_transmute_info;
int pyne_cram_transmute_nucid_to_i(int nuc) { return Idx.count(nuc) ? Idx[nuc] : -1; }
void pyne_cram_expm_multiply14(double* a, double* b, double* x) {   // x = exp(-a) b
  std::vector<double> loss(Ids.size(), 0.0);
  for (size_t k = 0; k < Row.size(); k++) if (Row[k] == Col[k]) loss[Row[k]] = a[k];
  for (size_t i = 0; i < Ids.size(); i++) x[i] = b[i] * std::exp(-loss[i]);
  for (size_t k = 0; k < Row.size(); k++)   // row: daughter, column: parent
    if (Row[k] != Col[k] && loss[Col[k]] != 0) x[Row[k]] += (b[Col[k]] - b[Col[k]] * std::exp(-loss[Col[k]])) * (-a[k] / loss[Col[k]]);
}
}
static void Data() {
  if (!Ids.empty()) return;
  for (int z = 40; z < 62; z++) for (int a = 0; a < 5; a++) Bulk.push_back(z * 10000000 + (z * 9 / 4 + a) * 10000);
  Ids = Bulk;
  Ids.push_back(kS);
  for (auto& n : kNucs) { Ids.push_back(n.p); Ids.push_back(n.d); Ids.push_back(n.q); Ids.push_back(n.e); }
  for (size_t i = 0; i < Ids.size(); i++) { Idx[Ids[i]] = i; Row.push_back(i); Col.push_back(i); Mat.push_back(0); }
  auto chain = [&](int p, int d, double h) {
    double l = std::log(2.0) / h;
    Mat[Idx[p]] = -l;
    Row.push_back(Idx[d]); Col.push_back(Idx[p]); Mat.push_back(l);
    pyne::level_data x = pyne::level_data();
    x.nuc_id = p; x.half_life = h;
    pyne::level_data_lvl_map[std::make_pair(p, 0.0)] = x;
  };
  for (auto& n : kNucs) { chain(n.p, n.d, n.hp); chain(n.q, n.e, n.hq); }
  pyne_cram_transmute_info.n = Ids.size(); pyne_cram_transmute_info.nnz = Row.size();
  pyne_cram_transmute_info.i = Row.data(); pyne_cram_transmute_info.j = Col.data();
  pyne_cram_transmute_info.nucids = Ids.data(); pyne_cram_transmute_info.decay_matrix = Mat.data();
}
static Composition::Ptr Make(const Tok& k, int f) {   // weights of P D S Q E B
  CompMap m;
  int ids[] = {N.p, N.d, kS, N.q, kE};
  for (int i = 0; i < 5; i++) if (k.i(f + i) > 0) m[ids[i]] = k.i(f + i);
  if (k.i(f + 5) > 0) for (int b : Bulk) m[b] = (double)k.i(f + 5) / Bulk.size();
  return Composition::CreateFromMass(m);
}
static std::string Masses(Composition::Ptr c, double qty) {
  CompMap m = c->mass();
  compmath::Normalize(&m, qty);
  double v[7] = {0, 0, 0, 0, 0, 0, 0};
  static std::set<int> bs; if (bs.empty()) bs.insert(Bulk.begin(), Bulk.end());
  for (auto& x : m) {
    int g = x.first == N.p ? 0 : x.first == kS ? 2 : x.first == kE ? 4 : bs.count(x.first) ? 5 : x.first == N.d ? 1 : x.first == N.q || x.first == N.e ? 3 : 6;
    v[g] += x.second;
  }
  std::vector<long long> o;
  for (double x : v) o.push_back(std::isfinite(x) ? (long long)std::round(x * 65536) : vh::kOff);
  return vh::ints(o);
}
struct NoSolve : public ExchangeSolver { NoSolve() : ExchangeSolver(false) {} double SolveGraph() { return 0; } };
static const std::vector<Tok>* Script; static size_t Pos;
static Context* Ctx; static Agent* Ag;
static std::map<int, Material::Ptr> Ms; static std::map<int, Composition::Ptr> Cs;
static void Do(const Tok& k) {
  std::string o = k.s(0), res = "ok";
  J j(o);
  j.s("call", k.line);
  Material::Ptr m; Composition::Ptr c; int id = (int)k.i(1);
  j.i("x", id);
  try {
    if (o == "comp") { c = Cs[id] = Make(k, 2); std::vector<long long> w; for (int i = 2; i < 8; i++) w.push_back(k.i(i)); j.raw("w", vh::ints(w)); }
    else if (o == "cdec") { j.i("y", k.i(2)).i("n", k.i(3)).i("f", k.i(4)); c = Cs[(int)k.i(2)] = Cs[id]->Decay((int)k.i(3), Step * k.i(4)); }
    else if (o == "clook") c = Cs[id];
    else if (o == "udec") { Material::Ptr u = Material::CreateUntracked(1, Cs[id]); u->Decay((int)k.i(2)); }
    else if (o == "mk") { j.i("c", k.i(2)).i("q", k.i(3)); m = Ms[id] = Material::Create(Ag, k.i(3) / 8.0, Cs[(int)k.i(2)]); }
    else if (o == "ext") { j.i("y", k.i(2)).i("q", k.i(3)); Material::Ptr y = Ms[id]->ExtractQty(k.i(3) / 8.0); Ms[(int)k.i(2)] = y; m = Ms[id]; j.i("yq", vh::qty(y->quantity(), 8)).i("yt", y->prev_decay_time()); }
    else if (o == "abs") { j.i("y", k.i(2)); Ms[id]->Absorb(Ms[(int)k.i(2)]); Ms.erase((int)k.i(2)); m = Ms[id]; }
    else if (o == "cln") { j.i("y", k.i(2)); Ms[(int)k.i(2)] = boost::dynamic_pointer_cast<Material>(Ms[id]->Clone()); m = Ms[(int)k.i(2)]; }
    else if (o == "trans") { j.i("c", k.i(2)); Ms[id]->Transmute(Cs[(int)k.i(2)]); m = Ms[id]; }
    else if (o == "dec") { j.i("t", k.i(2)); m = Ms[id]; m->Decay((int)k.i(2)); }
    else if (o == "bdec") {   // all of them, through a buffer
      toolkit::ResBuf<Material> b;
      for (auto& x : Ms) b.Push(x.second);
      b.Decay((int)k.i(1));
      std::vector<std::string> ts; for (auto& x : Ms) { J y; y.i("x", x.first).i("mt", x.second->prev_decay_time()); ts.push_back(y.str()); }
      j.raw("all", vh::arr(ts));
    }
    else if (o == "look") { m = Ms[id]; c = m->comp(); }
    else k.die();
  } catch (std::exception& e) { res = "refused"; }
  j.s("res", res).i("now", Ctx->time());
  if (res == "ok") {
    if (m) j.i("mq", vh::qty(m->quantity(), 8)).i("mt", m->prev_decay_time());
    if (c) j.raw("m", Masses(c, m ? m->quantity() : 1));
  }
  j.emit();
}
struct Fac : public Facility {
  Fac(Context* c) : Facility(c) {}
  Agent* Clone() { return new Fac(context()); }
  std::string version() { return "0"; }
  void Snapshot(DbInit) {} void InitFrom(QueryableBackend*) {} void InitInv(Inventories&) {}
  Inventories SnapshotInv() { return Inventories(); }
  void Tick() {
    while (Pos < Script->size()) {
      const Tok& k = (*Script)[Pos++];
      if (k.s(0) == "t") { J("t").emit(); return; }
      Do(k);
    }
  }
  void Tock() {}
};
static void History(const std::vector<Tok>& ts) {
  Data();
  N = kNucs[ts[0].i(2)];
  Step = (uint64_t)std::round(std::log(2.0) / pyne::decay_const(N.p));
  double kq = -std::log(1 - 1e-3) / (pyne::decay_const(N.q) * (double)Step);
  Timer ti; Recorder rec((unsigned int)1); vh::Capture cap; rec.RegisterBackend(&cap);
  {
    Context ctx(&ti, &rec);
    int dur = 1; for (auto& k : ts) if (k.s(0) == "t") dur++;
    SimInfo si(dur); si.decay = ts[0].s(1); si.dt = Step;
    ctx.InitSim(si); ctx.solver(new NoSolve());
    J("init").s("mode", ts[0].s(1)).i("k", (long long)std::ceil(kq)).emit();
    Agent* a = new Fac(&ctx); a->prototype("p"); a->Build(NULL);
    Ctx = &ctx; Ag = a; Script = &ts; Pos = 1; Ms.clear(); Cs.clear();
    std::string res = "ok";
    try { ti.RunSim(); } catch (std::exception& e) { res = "failed"; }
    J("end").s("res", res).emit();
    Ms.clear(); Cs.clear();
    rec.Close();
  }
}
int main() { return vh::run(History); }
