
#include <cstdio>
#include <map>
#include <set>
#include <vector>
#include "cyclus.h"
using namespace cyclus;
namespace cyclus { void EventLoop() {} void PyDelAgent(int) {} }

#include "sqlite_back.h"
int main() {
  remove("d.sqlite");
  SqliteBack b("d.sqlite");
  Recorder rec; rec.RegisterBackend(&b);
  for (int i = 0; i < 5; i++) rec.NewDatum("T")->AddVal("x", i)->Record();
  rec.Flush();
  std::vector<Cond> c; c.push_back(Cond("x", ">", 2)); c.push_back(Cond("x", "==", 1));
  int n = b.Query("T", &c).rows.size();
  printf("%d rows\n", n);
  return n != 0;
}
