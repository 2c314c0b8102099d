
#include <cstdio>
#include <map>
#include <set>
#include <vector>
#include "cyclus.h"
using namespace cyclus;
namespace cyclus { void EventLoop() {} void PyDelAgent(int) {} }

int main() {
  ExchangeGraph g;
  RequestGroup::Ptr r(new RequestGroup(10));
  r->AddCapacity(10);
  ExchangeNode::Ptr u(new ExchangeNode(10, false, "a"));
  r->AddExchangeNode(u);
  double q[] = {6, 7, 4};
  for (int i = 0; i < 3; i++) {
    ExchangeNode::Ptr v(new ExchangeNode(q[i], i == 1, "a"));
    ExchangeNodeGroup::Ptr s(new ExchangeNodeGroup());
    s->AddCapacity(q[i]); s->AddExchangeNode(v);
    Arc a(u, v); a.pref(3 - i); u->prefs[a] = 3 - i;
    u->unit_capacities[a].push_back(1); v->unit_capacities[a].push_back(1);
    g.AddArc(a); g.AddSupplyGroup(s);
  }
  g.AddRequestGroup(r);
  GreedySolver solver(true, NULL);
  solver.graph(&g); solver.Solve();
  double t = 0;
  for (auto& m : g.matches()) t += m.second;
  printf("%g of 10\n", t);
  return t < 9.9;
}
