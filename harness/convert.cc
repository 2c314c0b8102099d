// Drives the real input file converters: a document goes back and forth between XML and JSON.
#include "vh.h"
#include "toolkit/infile_converters.h"
using vh::J;
using vh::Tok;
static std::string Un(const std::string& h) { std::string o; for (size_t i = 0; i + 1 < h.size(); i += 2) o += (char)strtol(h.substr(i, 2).c_str(), NULL, 16); return o; }
static std::string Hex(const std::string& s) { std::string o; char b[4]; for (unsigned char c : s) { snprintf(b, sizeof b, "%02x", c); o += b; } return o; }
static void History(const std::vector<Tok>& ts) {
  std::string doc;
  for (auto& k : ts) {
    std::string o = k.s(0), res = "ok";
    if (o == "doc") { doc = Un(k.s(2)); J("doc").s("fmt", k.s(1)).s("hex", k.s(2)).emit(); continue; }
    try {
      if (o == "x2j") doc = cyclus::toolkit::XmlToJson(doc);
      else if (o == "j2x") doc = cyclus::toolkit::JsonToXml(doc);
      else k.die();
    } catch (std::exception& e) { res = "failed"; }
    catch (...) { res = "failed"; }
    J(o).s("res", res).s("hex", Hex(doc)).emit();
    if (res != "ok") break;
  }
  J("end").emit();
}
int main() { return vh::run(History); }
