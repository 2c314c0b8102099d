// Drives what a material tells about its contents, and the enrichment functions.
#include "vh.h"
#include "pyne.h"
#include "toolkit/mat_query.h"
#include "toolkit/enrichment.h"
using namespace cyclus;
using vh::J;
using vh::Tok;
static const int kId[5] = {922350000, 922380000, 942390000, 260560000, 80160000};
static const char* kName[5] = {"U235", "U-238", "pu239", "Fe56", "8016"};
static std::map<int, Material::Ptr> Ms;
static std::map<int, Composition::Ptr> Cs;
static double Sc = 1;   // size of the unit of quantity; nothing may depend on it
static long long R(double x, double sc) { return std::isfinite(x) && std::fabs(x * sc) < 2e9 ? (long long)std::round(x * sc) : vh::kOff; }
static Composition::Ptr Make(bool mass, const Tok& k, int f, bool zeros) {
  CompMap m;
  for (int i = 0; i < 5; i++) if (zeros || k.i(f + i) > 0) m[kId[i]] = k.i(f + i);
  if (f == 3 && k.n() > 8 && k.i(8) > 0) {   // the same fractions, stated with another total
    double t = 0; for (auto& x : m) t += x.second;
    for (auto& x : m) x.second *= Sc * k.i(8) / 1e5 / t;
  }
  return mass ? Composition::CreateFromMass(m) : Composition::CreateFromAtom(m);
}
static std::vector<long long> W(const Tok& k, int f) { std::vector<long long> w; for (int i = 0; i < 5; i++) w.push_back(k.i(f + i)); return w; }
static void Do(const Tok& k) {
  std::string o = k.s(0), res = "ok";
  J j(o);
  j.s("call", k.line);
  int id = o == "enr" || o == "vf" ? 0 : (int)k.i(1);
  j.i("x", id);
  try {
    if (o == "comp") { j.s("basis", k.s(2)).raw("w", vh::ints(W(k, 3))); Cs[id] = Make(k.s(2) == "mass", k, 3, false); }
    else if (o == "mk") { j.i("c", k.i(2)).i("q", k.i(3)); Ms[id] = Material::CreateUntracked(Sc * k.i(3) / 1e5, Cs[(int)k.i(2)]); j.i("mq", vh::qty(Ms[id]->quantity() / Sc, 1e5)); }
    else if (o == "trans") { j.i("c", k.i(2)); Ms[id]->Transmute(Cs[(int)k.i(2)]); j.i("mq", vh::qty(Ms[id]->quantity() / Sc, 1e5)); }
    else if (o == "abs") { j.i("y", k.i(2)); Ms[id]->Absorb(Ms[(int)k.i(2)]); Ms.erase((int)k.i(2)); j.i("mq", vh::qty(Ms[id]->quantity() / Sc, 1e5)); }
    else if (o == "ext") { j.i("y", k.i(2)).i("q", k.i(3)); Material::Ptr y = Ms[id]->ExtractQty(Sc * k.i(3) / 1e5); Ms[(int)k.i(2)] = y; j.i("mq", vh::qty(Ms[id]->quantity() / Sc, 1e5)); }
    else if (o == "look") {
      Material::Ptr m = Ms[id];
      toolkit::MatQuery q(m);
      std::vector<long long> ma, mf, af, mo, set, nucs;
      std::set<Nuc> st;
      bool names = true;
      for (int i = 0; i < 5; i++) if (k.i(2) & (1 << i)) { set.push_back(i + 1); st.insert(kId[i]); }
      for (int i = 0; i < 5; i++) {
        ma.push_back(R(q.mass(kId[i]) / Sc, 1e5)); mf.push_back(R(q.mass_frac(kId[i]), 1e4)); af.push_back(R(q.atom_frac(kId[i]), 1e4)); mo.push_back(R(q.moles(kId[i]) / Sc, 1e6));
        std::string n = kName[i];
        names = names && q.mass(n) == q.mass(kId[i]) && q.mass_frac(n) == q.mass_frac(kId[i]) && q.atom_frac(n) == q.atom_frac(kId[i]) && q.moles(n) == q.moles(kId[i]);
      }
      j.i("q", vh::qty(q.qty() / Sc, 1e5)).raw("set", vh::ints(set)).raw("mass", vh::ints(ma)).raw("mf", vh::ints(mf)).raw("af", vh::ints(af)).raw("mol", vh::ints(mo)).b("names", names);
      j.i("smf", R(q.mass_frac(st), 1e4)).i("saf", R(q.atom_frac(st), 1e4));
      j.i("um", R(toolkit::UraniumAssayMass(m), 1e4)).i("ua", R(toolkit::UraniumAssayAtom(m), 1e4)).i("ua2", R(toolkit::UraniumAssay(m), 1e4)).i("uq", R(toolkit::UraniumQty(m) / Sc, 1e5));
      CompMap c = m->comp()->mass();
      for (auto& x : c) { int g = 0; for (int i = 0; i < 5; i++) if (kId[i] == x.first) g = i + 1; if (x.second != 0 || g == 0) nucs.push_back(g); }
      j.raw("nucs", vh::ints(nucs));
    }
    else if (o == "amt") {
      Material::Ptr m = Ms[id];
      Composition::Ptr c = Make(true, k, 3, k.i(2) != 0);
      toolkit::MatQuery q(m);
      double a = q.Amount(c);
      std::string took = "none", more = "none";
      if (a > 0) {
        Material::Ptr x = boost::dynamic_pointer_cast<Material>(m->Clone());
        try { x->ExtractComp(a, c); took = "ok"; } catch (Error& e) { took = "refused"; }
        Material::Ptr y = boost::dynamic_pointer_cast<Material>(m->Clone());
        try { y->ExtractComp(a * 1.01 + 1e-5 * Sc, c); more = "ok"; } catch (Error& e) { more = "refused"; }
      }
      j.raw("w", vh::ints(W(k, 3))).i("a", R(a / Sc, 1e5)).s("took", took).s("more", more).i("q", vh::qty(m->quantity() / Sc, 1e5));
    }
    else if (o == "eq") { toolkit::MatQuery q(Ms[id]); j.i("y", k.i(2)).i("thr", k.i(3)).b("r", q.AlmostEq(Ms[(int)k.i(2)], k.i(3) / 1e4)); }
    else if (o == "enr") {
      toolkit::Assays a(k.i(1) / 1e4, k.i(2) / 1e4, k.i(3) / 1e4);
      double q = k.i(4);
      j.i("f", k.i(1)).i("p", k.i(2)).i("t", k.i(3)).i("q", k.i(4)).i("gf", R(a.Feed(), 1e4)).i("gp", R(a.Product(), 1e4)).i("gt", R(a.Tails(), 1e4));
      j.i("feed", R(toolkit::FeedQty(q, a), 100)).i("tails", R(toolkit::TailsQty(q, a), 100)).i("swu", R(toolkit::SwuRequired(q, a), 100));
    }
    else if (o == "vf") { j.i("a", k.i(1)); double v = toolkit::ValueFunc(k.i(1) / 1e4); j.i("v", R(v, 1e4)); }
    else k.die();
  } catch (std::exception& e) { res = "refused"; }
  j.s("res", res).emit();
}
static void History(const std::vector<Tok>& ts) {
  Ms.clear(); Cs.clear();
  Sc = 1;
  for (auto& k : ts) { if (k.s(0) == "scale") Sc = k.i(1); else Do(k); }
  Ms.clear(); Cs.clear();
}
int main() { return vh::run(History); }
