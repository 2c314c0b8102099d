
#include <cstdio>
#include <map>
#include <set>
#include <vector>
#include "cyclus.h"
using namespace cyclus;
namespace cyclus { void EventLoop() {} void PyDelAgent(int) {} }

#include "toolkit/building_manager.h"
using namespace cyclus::toolkit;
int main() {
  Commodity c("c");
  BuildingManager m; Builder b; m.Register(&b);
  CommodityProducer p[3];
  double cap[] = {4, 5, 6}, cost[] = {.3, .5, 2};
  for (int i = 0; i < 3; i++) { p[i].Add(c, CommodInfo(cap[i], cost[i])); b.Register(&p[i]); }
  std::vector<BuildOrder> o = m.MakeBuildDecision(c, 9);
  double got = 0, paid = 0;
  for (auto& x : o) { got += x.number * x.producer->Capacity(c); paid += x.number * x.producer->Cost(c); }
  printf("%g for %g\n", got, paid);
  return !(got >= 9);
}
