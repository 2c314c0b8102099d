// Drives the real random number service: seeding, draws through the context, distributions.
#include "vh.h"
#include "random_number_generator.h"
#include "sim_init.h"
using namespace cyclus;
using vh::J;
using vh::Tok;

static std::string Hex(double v) { char b[64]; snprintf(b, sizeof b, "%a", v); return b; }
static void Val(J& j, double v) {   // the exact value, and its place among the eighths
  j.s("v", Hex(v));
  if (std::isnan(v) || std::isinf(v) || std::fabs(v) > 2e8) { j.i("f", vh::kOff).b("x", false); return; }
  double f = std::floor(v * 8);
  j.i("f", (long long)f).b("x", v * 8 == f);
}
static long long E8(double v) { return std::isnan(v) || std::isinf(v) ? vh::kOff : v > 1e8 ? 1000000000LL : v < -1e8 ? -1000000000LL : (v * 8 == std::floor(v * 8) ? (long long)(v * 8) : vh::kOff); }

struct D { DoubleDistribution::Ptr r; IntDistribution::Ptr i; };
static double One(D& d) { return d.r ? d.r->sample() : (double)d.i->sample(); }

static void History(const std::vector<Tok>& ts) {
  Timer* ti = NULL; Recorder* rec = NULL; Context* ctx = NULL;
  std::map<int, D> ds;
  auto drop = [&]() { ds.clear(); delete ctx; delete rec; delete ti; ctx = NULL; rec = NULL; ti = NULL; };
  for (auto& k : ts) {
    std::string o = k.s(0);
    if (o == "seed") {
      drop();
      ti = new Timer(); rec = new Recorder(); ctx = new Context(ti, rec);
      SimInfo si(5); si.seed = k.i(1); si.stride = k.i(2);
      ctx->InitSim(si);
      J("seed").i("s", k.i(1)).i("st", k.i(2)).i("seed", (int)ctx->sim_info().seed).i("stride", (int)ctx->sim_info().stride).emit();
    } else if (o == "reseed") {   // the same simulation initialised again
      ds.clear();
      SimInfo si(5); si.seed = k.i(1); si.stride = k.i(2);
      ctx->InitSim(si);
      J("seed").i("s", k.i(1)).i("st", k.i(2)).i("seed", (int)ctx->sim_info().seed).i("stride", (int)ctx->sim_info().stride).emit();
    } else if (o == "draw") {
      std::string ty = k.s(1); double v = 0;
      J j("draw"); j.s("call", k.line).s("ty", ty).i("a", k.i(2)).i("b", k.i(3)).i("c", k.i(4)).i("d", k.i(5));
      if (ty == "raw") v = (double)(std::uint32_t)ctx->random();
      else if (ty == "unit") v = ctx->random_01();
      else if (ty == "uint") v = ctx->random_uniform_int(k.i(2), k.i(3));
      else if (ty == "ureal") v = ctx->random_uniform_real(k.i(2) / 8.0, k.i(3) / 8.0);
      else if (ty == "nreal") v = ctx->random_normal_real(k.i(2) / 8.0, k.i(3) / 8.0, k.i(4) / 8.0, k.i(5) / 8.0);
      else if (ty == "nint") v = ctx->random_normal_int(k.i(2) / 8.0, k.i(3) / 8.0, k.i(4), k.i(5));
      else k.die();
      Val(j, v);
      j.emit();
    } else if (o == "dist") {
      std::string ty = k.s(2); int a = k.i(3), b = k.i(4), c = k.i(5), d = k.i(6);
      J j("dist"); j.s("call", k.line).i("n", k.i(1)).s("ty", ty).i("a", a).i("b", b).i("c", c).i("d", d);
      D x; std::vector<long long> acc; std::string res = "ok";
      try {
        if (ty == "rfixed") { auto* p = new FixedDoubleDist(a / 8.0); x.r.reset(p); acc = {E8(p->max())}; }
        else if (ty == "runi") { auto* p = new UniformDoubleDist(a / 8.0, b / 8.0); x.r.reset(p); acc = {E8(p->max())}; }
        else if (ty == "rnorm") { auto* p = new NormalDoubleDist(a / 8.0, b / 8.0, c / 8.0, d / 8.0); x.r.reset(p); acc = {E8(p->max())}; }
        else if (ty == "rpois") { auto* p = new PoissonDoubleDist(a / 8.0); x.r.reset(p); acc = {E8(p->mean())}; }
        else if (ty == "rexp") { auto* p = new ExponentialDoubleDist(a / 8.0); x.r.reset(p); acc = {E8(p->lambda())}; }
        else if (ty == "rbin") { auto* p = new BinaryDoubleDist(a / 8.0, b / 8.0, c / 8.0); x.r.reset(p); acc = {E8(p->p()), E8(p->max())}; }
        else if (ty == "ifixed") { x.i.reset(new FixedIntDist(a)); }
        else if (ty == "iuni") { auto* p = new UniformIntDist(a, b); x.i.reset(p); acc = {p->max()}; }
        else if (ty == "inorm") { auto* p = new NormalIntDist(a / 8.0, b / 8.0, c, d); x.i.reset(p); acc = {p->max()}; }
        else if (ty == "ibinom") { auto* p = new BinomialIntDist(a, b / 8.0); x.i.reset(p); acc = {p->trials(), E8(p->p())}; }
        else if (ty == "inegb") { auto* p = new NegativeBinomialIntDist(a, b / 8.0); x.i.reset(p); acc = {p->successes(), E8(p->p())}; }
        else if (ty == "ipois") { auto* p = new PoissonIntDist(a / 8.0); x.i.reset(p); acc = {E8(p->mean())}; }
        else if (ty == "iexp") { auto* p = new ExponentialIntDist(a / 8.0); x.i.reset(p); acc = {E8(p->lambda())}; }
        else if (ty == "ibin") { auto* p = new BinaryIntDist(a / 8.0, b, c); x.i.reset(p); acc = {E8(p->p())}; }
        else k.die();
      } catch (ValueError& e) { res = "ValueError"; x = D(); acc.clear();
      } catch (std::exception& e) { res = "exception"; x = D(); acc.clear(); }
      if (res == "ok") ds[k.i(1)] = x; else ds.erase(k.i(1));
      j.s("res", res).raw("acc", vh::ints(acc)).emit();
    } else if (o == "sample") {
      J j("sample"); j.s("call", k.line).i("n", k.i(1)).b("on", ds.count(k.i(1)) > 0);
      if (ds.count(k.i(1))) Val(j, One(ds[k.i(1)])); else j.s("v", "-").i("f", 0).b("x", true);
      j.emit();
    } else if (o == "many") {
      int n = k.i(2);
      J j("many"); j.s("call", k.line).i("n", k.i(1)).i("m", n).b("on", ds.count(k.i(1)) > 0);
      if (!ds.count(k.i(1))) { j.s("v", "-").i("sum", 0).i("lo", 0).i("hi", 0).b("hx", true).b("whole", true).emit(); continue; }
      double s = 0, lo = 1e300, hi = -1e300; bool whole = true; unsigned long long hsh = 1469598103934665603ULL;
      for (int i = 0; i < n; i++) {
        double v = One(ds[k.i(1)]);
        s += v; lo = std::min(lo, v); hi = std::max(hi, v); whole = whole && v == std::floor(v);
        for (char ch : Hex(v)) hsh = (hsh ^ (unsigned char)ch) * 1099511628211ULL;
      }
      auto cl = [](double z) { return std::isnan(z) || std::fabs(z) > 1e8 ? vh::kOff : (long long)std::floor(z * 8); };
      j.s("v", std::to_string(hsh)).i("sum", cl(s)).i("lo", cl(lo)).i("hi", cl(hi)).b("hx", hi * 8 == std::floor(hi * 8)).b("whole", whole).emit();
    } else k.die();
  }
  drop();
  J("end").emit();
}
int main() { return vh::run(History); }
