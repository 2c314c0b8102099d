
#include <cstdio>
#include <map>
#include <set>
#include <vector>
#include "cyclus.h"
using namespace cyclus;
namespace cyclus { void EventLoop() {} void PyDelAgent(int) {} }

int main() {
  ExchangeGraph g;
  ExchangeNodeGroup::Ptr s(new ExchangeNodeGroup());
  double q = 4e5;
  s->AddCapacity(q);
  for (int i = 0; i < 2; i++) {
    ExchangeNode::Ptr u(new ExchangeNode(q, false, "a")), v(new ExchangeNode(q, false, "a"));
    RequestGroup::Ptr r(new RequestGroup(q));
    r->AddCapacity(q); r->AddExchangeNode(u); s->AddExchangeNode(v);
    Arc a(u, v); a.pref(1); u->prefs[a] = 1;
    u->unit_capacities[a].push_back(1); v->unit_capacities[a].push_back(1);
    g.AddArc(a); g.AddRequestGroup(r);
  }
  g.AddSupplyGroup(s);
  GreedySolver solver(false, NULL);
  solver.graph(&g); solver.Solve();
  double t = 0;
  for (auto& m : g.matches()) t += m.second;
  printf("traded %g of %g\n", t, q);
  return t > q + 1;
}
