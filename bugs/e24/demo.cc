
#include <cstdio>
#include <map>
#include <set>
#include <vector>
#include "cyclus.h"
using namespace cyclus;
namespace cyclus { void EventLoop() {} void PyDelAgent(int) {} }

#include "toolkit/infile_converters.h"
int main() {
  std::string j = toolkit::XmlToJson("<s><a>1</a><a>1</a><b>2</b></s>");
  printf("%s\n", j.c_str());
  int n = 0;
  for (size_t i = j.find("\"1\""); i != std::string::npos; i = j.find("\"1\"", i + 1)) n++;
  return n != 2;
}
