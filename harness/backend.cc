// Drives the real recorder with capturing, SQLite and HDF5 backends.
// Values are named by (type, index): G<T>() is a table of distinct, ordered values of each type.
#include "vh.h"
#include <algorithm>
#include <boost/filesystem.hpp>
#include <list>
#include "hdf5_back.h"
#include "sqlite_back.h"
using namespace cyclus;
using vh::J;
using vh::Tok;
typedef boost::spirit::hold_any Any;
typedef boost::uuids::uuid Uuid;

static unsigned R;
static unsigned rnd(unsigned n) { R = R * 1664525u + 1013904223u; return (R >> 8) % n; }

template <class T> struct Gen;
template <> struct Gen<bool> { static bool v() { return rnd(2); } };
template <> struct Gen<int> { static int v() { static int t[] = {0, 1, -1, 2, 7, 97, 256, 65536, 2147483647, -2147483647 - 1, 12, 13, 14, 15}; return t[rnd(14)]; } };
template <> struct Gen<float> { static float v() { static float t[] = {0, 1, -1.5f, 0.1f, 3.25e10f, 1e-20f, 42, 43, 44, 1.0f / 3, 45}; return t[rnd(11)]; } };
template <> struct Gen<double> { static double v() { static double t[] = {0, 1, -1.5, 0.1, 3.25e100, 1e-200, 42, 1.0 / 3, 1.0 / 3 + 1e-16, 2e299, -7, 5}; return t[rnd(12)]; } };
template <> struct Gen<std::string> {
  static std::string v() {
    static const char* t[] = {"", "a", "b", "ab", "c", "bc", "abc", "it's", "x\"y<&>", "two words", "\xc3\xa9t\xc3\xa9", "semi;--", "1", "line\nbreak", "Keys"};
    return t[rnd(15)];
  }
};
static bool Bytes = false;   // any bytes in blobs
template <> struct Gen<Blob> { static Blob v() { std::string s = Gen<std::string>::v(); if (s.empty()) s = "blob"; if (Bytes && rnd(2)) s.insert(rnd(s.size() + 1), 1, char(rnd(3) ? 0 : 255)); if (rnd(4) == 0) s = std::string(300 + rnd(3), 'z'); return Blob(s); } };
template <> struct Gen<Uuid> { static Uuid v() { Uuid u; for (auto& b : u) b = 1 + rnd(3); if (rnd(3) == 0) u.data[rnd(16)] = 0; return u; } };
template <class A, class B> struct Gen<std::pair<A, B>> { static std::pair<A, B> v() { A a = Gen<A>::v(); return std::pair<A, B>(a, Gen<B>::v()); } };
template <class A> struct Gen<std::vector<A>> { static std::vector<A> v() { std::vector<A> x; for (int i = rnd(4); i > 0; i--) x.push_back(Gen<A>::v()); return x; } };
template <class A> struct Gen<std::list<A>> { static std::list<A> v() { std::list<A> x; for (int i = rnd(4); i > 0; i--) x.push_back(Gen<A>::v()); return x; } };
template <class A> struct Gen<std::set<A>> { static std::set<A> v() { std::set<A> x; for (int i = rnd(4); i > 0; i--) x.insert(Gen<A>::v()); return x; } };
template <class A, class B> struct Gen<std::map<A, B>> { static std::map<A, B> v() { std::map<A, B> x; for (int i = rnd(4); i > 0; i--) { A a = Gen<A>::v(); x[a] = Gen<B>::v(); } return x; } };

struct Ty {
  std::string name; std::vector<int> shape; bool h5, sql, cmp;
  std::vector<Any> vals;
  std::function<int(const Any&)> find;
  Any bad;
};
static std::vector<Ty> T;
static std::map<std::string, int> TI;

template <class A> static bool Lt(const A& a, const A& b) { return a < b; }
template <class A>
static void Add(const std::string& n, bool sql, std::function<bool(const A&)> keep = [](const A&) { return true; }, std::vector<int> shape = {}, bool cmp = false, bool h5 = true) {
  std::vector<A> v;
  R = 12345 + T.size();
  for (int i = 0; i < 4000 && v.size() < 12; i++) { A a = Gen<A>::v(); if (keep(a) && std::find(v.begin(), v.end(), a) == v.end()) v.push_back(a); }
  std::sort(v.begin(), v.end(), Lt<A>);
  Ty t; t.name = n; t.shape = shape; t.h5 = h5; t.sql = sql; t.cmp = cmp;
  for (size_t i = 0; i < v.size(); i++) { A a = v[i]; t.vals.push_back(Any(a)); }
  t.find = [v](const Any& x) { if (x.type() != typeid(A)) return -2; A a = x.cast<A>(); for (size_t i = 0; i < v.size(); i++) if (v[i] == a) return (int)i; return -1; };
  TI[n] = T.size();
  T.push_back(t);
}

static void Types() {
  using std::string; using std::vector; using std::set; using std::list; using std::pair; using std::map;
  auto any = [](const auto&) { return true; };
  Add<bool>("bool", true, any, {}, true); Add<int>("int", true, any, {}, true); Add<float>("float", true, any, {}, true);
  Add<double>("double", true, any, {}, true); Add<string>("str", true, any, {}, true);
  Add<string>("fstr", true, any, {12}, true);
  Add<Blob>("blob", true); Bytes = true; Add<Blob>("nblob", true); Bytes = false; Add<Uuid>("uuid", true, any, {}, true);
  Add<vector<int>>("v_int", true); Add<vector<double>>("v_dbl", true); Add<vector<string>>("v_str", true);
  Add<vector<int>>("v3_int", true, [](const vector<int>& x) { return x.size() == 3; }, {3});
  Add<vector<double>>("v2_dbl", true, [](const vector<double>& x) { return x.size() == 2; }, {2});
  Add<vector<string>>("v2_fstr", true, [](const vector<string>& x) { return x.size() == 2; }, {2, 12});
  Add<vector<string>>("v_fstr", true, any, {-1, 12});
  Add<vector<string>>("v2_str", true, [](const vector<string>& x) { return x.size() == 2; }, {2, -1});
  Add<set<int>>("s_int", true); Add<set<string>>("s_str", true); Add<set<string>>("s_fstr", true, any, {-1, 12});
  Add<list<int>>("l_int", true); Add<list<string>>("l_str", true); Add<list<string>>("l_fstr", true, any, {-1, 12});
  Add<list<pair<int, int>>>("l_p_ii", true);
  Add<map<int, int>>("m_ii", true); Add<map<int, double>>("m_id", true); Add<map<int, string>>("m_is", true);
  Add<map<string, int>>("m_si", true); Add<map<string, double>>("m_sd", true); Add<map<string, string>>("m_ss", true);
  Add<map<string, double>>("m_fsd", true, any, {-1, 12});
  Add<map<string, vector<double>>>("m_s_v_d", true); Add<map<string, map<int, double>>>("m_s_m_id", true);
  Add<map<string, pair<double, map<int, double>>>>("m_s_p_d_m_id", true);
  Add<map<int, map<string, double>>>("m_i_m_sd", true);
  Add<map<string, vector<pair<int, pair<string, string>>>>>("m_s_v_p_i_p_ss", true);
  Add<map<string, pair<string, vector<double>>>>("m_s_p_s_v_d", true);
  Add<map<string, map<string, int>>>("m_s_m_si", true); Add<map<string, map<string, double>>>("m_s_m_sd", true);
  Add<vector<pair<pair<double, double>, map<string, double>>>>("v_p_p_dd_m_sd", true);
  Add<map<pair<string, string>, int>>("m_p_ss_i", true);
  // HDF5 only
  Add<vector<float>>("v_flt", false); Add<vector<Blob>>("v_blob", false); Add<vector<Uuid>>("v_uuid", false);
  Add<set<float>>("s_flt", false); Add<set<double>>("s_dbl", false); Add<set<Blob>>("s_blob", false); Add<set<Uuid>>("s_uuid", false);
  Add<list<bool>>("l_bool", false); Add<list<float>>("l_flt", false); Add<list<double>>("l_dbl", false); Add<list<Blob>>("l_blob", false); Add<list<Uuid>>("l_uuid", false);
  Add<pair<int, bool>>("p_ib", false); Add<pair<int, int>>("p_ii", false); Add<pair<int, float>>("p_if", false); Add<pair<int, double>>("p_id", false);
  Add<pair<int, string>>("p_is", false); Add<pair<int, Blob>>("p_iB", false); Add<pair<int, Uuid>>("p_iu", false);
  Add<pair<string, bool>>("p_sb", false); Add<pair<string, int>>("p_si", false); Add<pair<string, float>>("p_sf", false); Add<pair<string, double>>("p_sd", false);
  Add<pair<string, string>>("p_ss", false); Add<pair<string, Blob>>("p_sB", false); Add<pair<string, Uuid>>("p_su", false);
  Add<map<int, bool>>("m_ib", false); Add<map<int, float>>("m_if", false); Add<map<int, Blob>>("m_iB", false); Add<map<int, Uuid>>("m_iu", false);
  Add<map<string, bool>>("m_sb", false); Add<map<string, float>>("m_sf", false); Add<map<string, Blob>>("m_sB", false); Add<map<string, Uuid>>("m_su", false);
  Add<map<pair<int, string>, double>>("m_p_is_d", false);
}

struct Tab { std::vector<std::string> cols; std::vector<int> ty; };
struct Db { std::string kind, path; FullBackend* b; };

struct Cap : public RecBackend {
  static bool quiet;
  int id;
  void Notify(DatumList data);
  std::string Name() { return "cap"; }
  void Flush() { if (!quiet) J("bflush").i("b", id).emit(); }
  void Close() {}
};

struct World {
  std::vector<Recorder*> rec; std::map<Uuid, int> sims;
  std::map<std::string, Tab> tabs;
  std::vector<RecBackend*> backs;          // by number
  std::vector<Db> dbs;                     // parallel: kind "" for captures
};
static World* W;

static std::string RowOf(Datum* d) {
  std::vector<long long> v; int sim = 0; bool ok = true;
  size_t i0 = 0;
  if (!d->vals().empty() && std::string(d->vals()[0].first) == "SimId" && d->vals()[0].second.type() == typeid(Uuid)) {
    Uuid u = d->vals()[0].second.cast<Uuid>(); sim = W->sims.count(u) ? W->sims[u] : -1; i0 = 1;
  }
  auto it = W->tabs.find(d->title());
  if (it == W->tabs.end()) ok = false;
  else {
    Tab& t = it->second;
    if (d->vals().size() - i0 != t.cols.size() || d->fields().size() != d->vals().size() || d->shapes().size() != d->vals().size()) ok = false;
    for (size_t i = 0; ok && i < t.cols.size(); i++) {
      if (t.cols[i] != d->vals()[i0 + i].first || d->fields()[i0 + i] != t.cols[i]) ok = false;
      v.push_back(T[t.ty[i]].find(d->vals()[i0 + i].second));
      if (d->shapes()[i0 + i] != T[t.ty[i]].shape) ok = false;
    }
  }
  return J().s("tab", d->title()).i("sim", sim).raw("v", vh::ints(v)).b("ok", ok).str();
}
bool Cap::quiet = false;
void Cap::Notify(DatumList data) {
  if (quiet) return;
  std::vector<std::string> rs; for (auto d : data) rs.push_back(RowOf(d));
  J("notify").i("b", id).raw("rows", vh::arr(rs)).emit();
}

static std::string Try(std::function<void()> f) {
  try { f(); return "ok"; }
  catch (ValueError& e) { return "value"; } catch (KeyError& e) { return "key"; } catch (IOError& e) { if (getenv("VH_ERR")) fprintf(stderr, "%s\n", e.what()); return "io"; }
  catch (StateError& e) { return "state"; } catch (CastError& e) { return "cast"; } catch (std::exception& e) { return std::string("std: ") + e.what(); }
}
static FullBackend* Open(const std::string& kind, const std::string& path) {
  if (kind == "sql") return new SqliteBack(path);
  return new Hdf5Back(path);
}
static int hist = 0;

static void Do(const Tok& k) {
  std::string c = k.s(0);
  if (c == "sim") {                           // sim dump inject : a new recorder
    Recorder* r = k.i(2) ? new Recorder((unsigned)k.i(1)) : new Recorder(false);
    if (!k.i(2)) r->set_dump_count(k.i(1));
    W->rec.push_back(r); W->sims[r->sim_id()] = W->rec.size();
    J("sim").i("dump", k.i(1)).b("inj", k.i(2)).i("got", r->dump_count()).b("ginj", r->inject_sim_id()).emit();
  } else if (c == "back") {                   // back cap|sql|h5 : a new backend
    int id = W->backs.size() + 1;
    Db d; d.kind = k.s(1); d.b = NULL;
    if (d.kind == "cap") { Cap* b = new Cap(); b->id = id; W->backs.push_back(b); d.kind = ""; }
    else {
      d.path = "db" + std::to_string(hist) + "_" + std::to_string(id) + (d.kind == "sql" ? ".sqlite" : ".h5");
      boost::filesystem::remove(d.path);
      d.b = Open(d.kind, d.path); W->backs.push_back(d.b);
    }
    W->dbs.push_back(d);
    J("back").i("b", id).s("kind", k.s(1)).emit();
  } else if (c == "reg") {                    // reg rec back
    J("reg").i("r", k.i(1)).i("b", k.i(2)).emit();
    W->rec[k.i(1) - 1]->RegisterBackend(W->backs[k.i(2) - 1]);
  } else if (c == "tab") {                    // tab name type...
    Tab t; std::vector<std::string> tn; std::vector<bool> cmp;
    for (size_t i = 2; i < k.n(); i++) { if (!TI.count(k.s(i))) k.die(); t.ty.push_back(TI[k.s(i)]); t.cols.push_back("col" + std::to_string(i - 1) + k.s(i)); tn.push_back(k.s(i)); }
    W->tabs[k.s(1)] = t;
    J("tab").s("tab", k.s(1)).raw("cols", vh::strs(t.cols)).emit();
  } else if (c == "rec") {                    // rec r table v...
    Tab& t = W->tabs[k.s(2)];
    std::vector<int> v;
    for (size_t i = 0; i < t.cols.size(); i++) v.push_back(((unsigned)k.i(3 + i)) % T[t.ty[i]].vals.size());
    J("rec").i("r", k.i(1)).s("tab", k.s(2)).raw("v", vh::ints(v)).emit();
    std::string res = Try([&] {
      Datum* d = W->rec[k.i(1) - 1]->NewDatum(k.s(2));
      for (size_t i = 0; i < t.cols.size(); i++) {
        Ty& ty = T[t.ty[i]];
        std::vector<int>* sh = ty.shape.empty() ? NULL : &ty.shape;
        if (i % 2) d->AddVal(t.cols[i].c_str(), ty.vals[v[i]], sh); else d->AddVal(std::string(t.cols[i]), ty.vals[v[i]], sh);
      }
      d->Record();
    });
    J("done").s("res", res).emit();
  } else if (c == "flush" || c == "close" || c == "del") {
    J(c).i("r", k.i(1)).emit();
    Recorder*& r = W->rec[k.i(1) - 1];
    std::string res = Try([&] { if (c == "flush") r->Flush(); else if (c == "close") r->Close(); else { delete r; r = NULL; } });
    J("done").s("res", res).emit();
  } else if (c == "inject") {                 // inject r 0|1
    J(c).i("r", k.i(1)).b("inj", k.i(2)).emit();
    W->rec[k.i(1) - 1]->inject_sim_id(k.i(2));
    J("done").s("res", "ok").emit();
  } else if (c == "dump") {                   // dump r n
    W->rec[k.i(1) - 1]->set_dump_count(k.i(2));
    J(c).i("r", k.i(1)).i("dump", k.i(2)).i("got", W->rec[k.i(1) - 1]->dump_count()).emit();
  } else if (c == "reopen") {                 // reopen back (not registered anywhere any more)
    Db& d = W->dbs[k.i(1) - 1];
    delete d.b; d.b = Open(d.kind, d.path); W->backs[k.i(1) - 1] = d.b;
    J(c).i("b", k.i(1)).emit();
  } else if (c == "q" || c == "qi" || c == "qx") {   // q db table [col op v]... ; qi: the last conditions injected, the name prefixed ; qx: by another reader
    Db d = W->dbs[k.i(1) - 1];
    std::unique_ptr<FullBackend> other;
    if (c == "qx" && d.kind == "sql") { other.reset(Open(d.kind, d.path)); d.b = other.get(); }
    std::string tn = k.s(2);
    bool known = W->tabs.count(tn) > 0;
    Tab t = known ? W->tabs[tn] : Tab();
    std::vector<Cond> cs; std::vector<std::string> cj;
    for (size_t i = 3; i + 2 < k.n(); i += 3) {
      int col = k.i(i);
      if (col == 0) { Uuid u = W->rec.size() >= (size_t)k.i(i + 2) && W->rec[k.i(i + 2) - 1] ? W->rec[k.i(i + 2) - 1]->sim_id() : Uuid(); if (u.is_nil()) return; cs.push_back(Cond("SimId", k.s(i + 1), Any(u))); cj.push_back(J().i("c", 0).s("o", k.s(i + 1)).i("v", k.i(i + 2)).str()); }
      else {
        if (!known) continue;
        col = 1 + (col - 1) % t.cols.size();
        Ty& ty = T[t.ty[col - 1]];
        if (!ty.cmp) continue;
        std::string op = k.s(i + 1); if (ty.name == "uuid" && op != "==" && op != "!=") op = "==";
        int v = (unsigned)k.i(i + 2) % ty.vals.size();
        cs.push_back(Cond(t.cols[col - 1], op, ty.vals[v])); cj.push_back(J().i("c", col).s("o", op).i("v", v).str());
      }
    }
    QueryResult qr;
    std::string res = Try([&] {
      if (c == "qi") {
        std::vector<Cond> inj;
        if (!cs.empty()) for (size_t i = 1 + k.line.size() % cs.size(); i > 0; i--) { inj.push_back(cs.back()); cs.pop_back(); }
        CondInjector ci(d.b, inj);
        size_t cut = tn.size() / 2;
        PrefixInjector pi(&ci, tn.substr(0, cut));
        if (k.line.size() % 3) pi.Query(tn.substr(cut), cs.empty() ? NULL : &cs);   // asking twice changes nothing
        qr = pi.Query(tn.substr(cut), cs.empty() && k.line.size() % 2 ? NULL : &cs);
      } else qr = d.b->Query(tn, cs.empty() && k.n() % 3 == 0 ? NULL : &cs);
    });
    std::vector<std::string> rows;
    for (auto& r : qr.rows) {
      std::vector<long long> v; int sim = 0; size_t i0 = 0;
      if (!qr.fields.empty() && qr.fields[0] == "SimId") { i0 = 1; sim = -1; if (r[0].type() == typeid(Uuid)) { Uuid u = r[0].cast<Uuid>(); sim = W->sims.count(u) ? W->sims[u] : -1; } }
      for (size_t i = i0; i < r.size(); i++) v.push_back(i - i0 < t.ty.size() ? T[t.ty[i - i0]].find(r[i]) : -3);
      rows.push_back(J().i("sim", sim).raw("v", vh::ints(v)).str());
    }
    J("q").i("b", k.i(1)).s("tab", tn).raw("conds", vh::arr(cj)).s("res", res).raw("fields", vh::strs(qr.fields)).b("types", qr.types.size() == qr.fields.size()).raw("rows", vh::arr(rows)).emit();
  } else if (c == "info") {                   // info db table : tables, columns
    Db& d = W->dbs[k.i(1) - 1];
    std::set<std::string> ts = d.b->Tables();
    J e("info");
    e.i("b", k.i(1)).raw("tabs", vh::strs(ts)).s("tab", k.s(2));
    std::vector<std::string> a, b;
    if (ts.count(k.s(2))) { for (auto& x : d.b->Schema(k.s(2))) a.push_back(x.col); for (auto& x : d.b->ColumnTypes(k.s(2))) b.push_back(x.first); }
    e.raw("schema", vh::strs(a)).raw("cols", vh::strs(b)).emit();
  } else k.die();
}

static void History(const std::vector<Tok>& ts) {
  World w; W = &w; hist++; Cap::quiet = false;
  H5Eset_auto2(H5E_DEFAULT, NULL, NULL);
  for (auto& k : ts) Do(k);
  J("end").emit();
  Cap::quiet = true;
  for (auto r : w.rec) if (r) { r->Close(); delete r; }
  for (size_t i = 0; i < w.backs.size(); i++) { delete w.backs[i]; if (!w.dbs[i].kind.empty()) boost::filesystem::remove(w.dbs[i].path); }
}
int main(int argc, char** argv) {
  Types();
  if (argc > 1) { for (auto& t : T) printf("%s %d %d %d %d\n", t.name.c_str(), (int)t.vals.size(), t.sql, t.cmp, t.h5); return 0; }
  return vh::run(History);
}
