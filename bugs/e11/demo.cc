
#include <cstdio>
#include <map>
#include <set>
#include <vector>
#include "cyclus.h"
using namespace cyclus;
namespace cyclus { void EventLoop() {} void PyDelAgent(int) {} }

struct Rows : public RecBackend {
  std::vector<std::string> t;
  void Notify(DatumList ds) { for (auto d : ds) t.push_back(d->title()); }
  std::string Name() { return "rows"; }
  void Flush() {} void Close() {}
};

#include "toolkit/res_buf.h"
int main() {
  Rows r; Timer ti; Recorder rec; rec.RegisterBackend(&r);
  Context ctx(&ti, &rec);
  toolkit::ResBuf<Product> b(true);
  b.Push(Product::CreateUntracked(1, "q"));
  std::vector<Product::Ptr> v; v.push_back(Product::CreateUntracked(2, "q")); v.push_back(Product::CreateUntracked(3, "q"));
  b.Push(v);
  printf("%d %g\n", b.count(), b.quantity());
  return !(b.count() == 1 && b.quantity() == 6);
}
