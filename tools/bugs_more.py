"""Planted bugs in the parts other than the kernel (see bugs_kernel.py)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkbug import mk
H = r'''
#include <cstdio>
#include <map>
#include <set>
#include <vector>
#include "cyclus.h"
using namespace cyclus;
namespace cyclus { void EventLoop() {} void PyDelAgent(int) {} }
'''
CTX = r'''
struct Rows : public RecBackend {
  std::vector<std::string> t;
  void Notify(DatumList ds) { for (auto d : ds) t.push_back(d->title()); }
  std::string Name() { return "rows"; }
  void Flush() {} void Close() {}
};
'''
mk('e06', 'P06', [('src/greedy_solver.cc', '    caps[i] = (prev == std::numeric_limits<double>::max()) ?', '''    // the largest capacities are as good as unlimited
    caps[i] = (prev > 1e5) ?''')],
   'capacities above 10^5 that several trades use up', 'a supplier is made to trade more than its capacity', H + r'''
int main() {
  ExchangeGraph g;
  ExchangeNodeGroup::Ptr s(new ExchangeNodeGroup());
  double q = 4e5;
  s->AddCapacity(q);
  for (int i = 0; i < 2; i++) {
    ExchangeNode::Ptr u(new ExchangeNode(q, false, "a")), v(new ExchangeNode(q, false, "a"));
    RequestGroup::Ptr r(new RequestGroup(q));
    r->AddCapacity(q); r->AddExchangeNode(u); s->AddExchangeNode(v);
    Arc a(u, v); a.pref(1); u->prefs[a] = 1;
    u->unit_capacities[a].push_back(1); v->unit_capacities[a].push_back(1);
    g.AddArc(a); g.AddRequestGroup(r);
  }
  g.AddSupplyGroup(s);
  GreedySolver solver(false, NULL);
  solver.graph(&g); solver.Solve();
  double t = 0;
  for (auto& m : g.matches()) t += m.second;
  printf("traded %g of %g\n", t, q);
  return t > q + 1;
}
''')
mk('e07', 'P07', [('src/greedy_solver.cc', '''          if (dist >= float_ulp_eq ) {
            tomatch = 0;
''', '''          if (dist >= float_ulp_eq ) {
            // what is left of a partly served order is too small for whole lots
            if (match > eps()) break;
            tomatch = 0;
''')],
   'a request served in part, then an indivisible offer that is too large, then one of lower preference that would fit',
   'a trade that is still possible is left undone', H + r'''
int main() {
  ExchangeGraph g;
  RequestGroup::Ptr r(new RequestGroup(10));
  r->AddCapacity(10);
  ExchangeNode::Ptr u(new ExchangeNode(10, false, "a"));
  r->AddExchangeNode(u);
  double q[] = {6, 7, 4};
  for (int i = 0; i < 3; i++) {
    ExchangeNode::Ptr v(new ExchangeNode(q[i], i == 1, "a"));
    ExchangeNodeGroup::Ptr s(new ExchangeNodeGroup());
    s->AddCapacity(q[i]); s->AddExchangeNode(v);
    Arc a(u, v); a.pref(3 - i); u->prefs[a] = 3 - i;
    u->unit_capacities[a].push_back(1); v->unit_capacities[a].push_back(1);
    g.AddArc(a); g.AddSupplyGroup(s);
  }
  g.AddRequestGroup(r);
  GreedySolver solver(true, NULL);
  solver.graph(&g); solver.Solve();
  double t = 0;
  for (auto& m : g.matches()) t += m.second;
  printf("%g of 10\n", t);
  return t < 9.9;
}
''')
mk('e11', 'P11', [('src/toolkit/res_buf.h', '''      if (!is_bulk_ || rs_.size() == 0) {
        if (!keep_packaging_) {''', '''      if (!is_bulk_ || i == 0) {
        if (!keep_packaging_) {''')],
   'a bulk buffer that already holds something, given several resources in one call',
   'a bulk buffer holds more than one resource', H + CTX + r'''
#include "toolkit/res_buf.h"
int main() {
  Rows r; Timer ti; Recorder rec; rec.RegisterBackend(&r);
  Context ctx(&ti, &rec);
  toolkit::ResBuf<Product> b(true);
  b.Push(Product::CreateUntracked(1, "q"));
  std::vector<Product::Ptr> v; v.push_back(Product::CreateUntracked(2, "q")); v.push_back(Product::CreateUntracked(3, "q"));
  b.Push(v);
  printf("%d %g\n", b.count(), b.quantity());
  return !(b.count() == 1 && b.quantity() == 6);
}
''')
mk('e12', 'P12', [('src/toolkit/total_inv_tracker.h', 'return std::min(buf->space(), space());', '''if (num_bufs() > 2) {
            // the other buffers share what is left
            return std::min(buf->space(), max_inv_size_ - buf->quantity());
        }
        return std::min(buf->space(), space());''')],
   'three or more buffers under one limit, another one than the one asked about being filled',
   'room is reported in a buffer although the shared limit is used up', H + CTX + r'''
#include "toolkit/res_buf.h"
#include "toolkit/total_inv_tracker.h"
int main() {
  Rows r; Timer ti; Recorder rec; rec.RegisterBackend(&r);
  Context ctx(&ti, &rec);
  CompMap m; m[922350000] = 1;
  Composition::Ptr c = Composition::CreateFromMass(m);
  toolkit::ResBuf<Material> a, b, d;
  toolkit::TotalInvTracker t;
  t.Init({&a, &b, &d}, 10);
  a.Push(Material::CreateUntracked(8, c));
  printf("%g\n", t.constrained_buf_space(&b));
  return t.constrained_buf_space(&b) != 2;
}
''')
mk('e15', 'P15', [('src/sqlite_back.cc', '        sql << " AND ";', '''        sql << ((*conds)[i].field == (*conds)[i - 1].field && (*conds)[i].opcode == EQ ? " OR " : " AND ");''')],
   'a query with two conditions on the same column, the second an equality', 'a query returns rows that do not meet all its conditions', H + r'''
#include "sqlite_back.h"
int main() {
  remove("d.sqlite");
  SqliteBack b("d.sqlite");
  Recorder rec; rec.RegisterBackend(&b);
  for (int i = 0; i < 5; i++) rec.NewDatum("T")->AddVal("x", i)->Record();
  rec.Flush();
  std::vector<Cond> c; c.push_back(Cond("x", ">", 2)); c.push_back(Cond("x", "==", 1));
  int n = b.Query("T", &c).rows.size();
  printf("%d rows\n", n);
  return n != 0;
}
''')
mk('e20', 'P20', [('src/random_number_generator.cc', '''        while (val < min_ || val > max_){
            val = dist(RandomNumberGenerator::gen_);
        }
        return val;''', '''        for (int tries = 0; (val < min_ || val > max_) && tries < 24; ++tries) {
            val = dist(RandomNumberGenerator::gen_);
        }
        return val;''')],
   'a truncated normal distribution whose interval is rarely hit', 'a drawn number lies outside the interval asked for', H + r'''
int main() {
  warn_limit = 0;
  RandomNumberGenerator g; SimInfo si; si.seed = 7; si.stride = 1; g.Initialize(si);
  NormalDoubleDist d(0, 1, 2, 3);
  int bad = 0;
  for (int i = 0; i < 2000; i++) { double x = d.sample(); if (x < 2 || x > 3) bad++; }
  printf("%d outside\n", bad);
  return bad > 0;
}
''')
mk('e23', 'P23', [('src/toolkit/building_manager.cc', '    iface.setInteger(i);', '    if (ctx.col_ubs.size() < 3 || ctx.obj_coeffs[i] > 0.5) iface.setInteger(i);')],
   'three or more competing producers of which one costs half a unit or less', 'fewer units are ordered than the demand needs', H + r'''
#include "toolkit/building_manager.h"
using namespace cyclus::toolkit;
int main() {
  Commodity c("c");
  BuildingManager m; Builder b; m.Register(&b);
  CommodityProducer p[3];
  double cap[] = {4, 5, 6}, cost[] = {.3, .5, 2};
  for (int i = 0; i < 3; i++) { p[i].Add(c, CommodInfo(cap[i], cost[i])); b.Register(&p[i]); }
  std::vector<BuildOrder> o = m.MakeBuildDecision(c, 9);
  double got = 0, paid = 0;
  for (auto& x : o) { got += x.number * x.producer->Capacity(c); paid += x.number * x.producer->Cost(c); }
  printf("%g for %g\n", got, paid);
  return !(got >= 9);
}
''')
mk('e24', 'P24', [('src/toolkit/infile_converters.cc', '      keynode.append(node[key]);\n', '      if (!(node[key].isString() && val.isString() && node[key] == val)) {\n        keynode.append(node[key]);\n      }\n')],
   'the first two elements of a name have the same text', 'one of two equal elements is lost in the conversion', H + r'''
#include "toolkit/infile_converters.h"
int main() {
  std::string j = toolkit::XmlToJson("<s><a>1</a><a>1</a><b>2</b></s>");
  printf("%s\n", j.c_str());
  int n = 0;
  for (size_t i = j.find("\"1\""); i != std::string::npos; i = j.find("\"1\"", i + 1)) n++;
  return n != 2;
}
''')
