
#include <cstdio>
#include <map>
#include <set>
#include <vector>
#include "cyclus.h"
using namespace cyclus;
namespace cyclus { void EventLoop() {} void PyDelAgent(int) {} }

int main() {
  warn_limit = 0;
  RandomNumberGenerator g; SimInfo si; si.seed = 7; si.stride = 1; g.Initialize(si);
  NormalDoubleDist d(0, 1, 2, 3);
  int bad = 0;
  for (int i = 0; i < 2000; i++) { double x = d.sample(); if (x < 2 || x > 3) bad++; }
  printf("%d outside\n", bad);
  return bad > 0;
}
