// C04: ParselessPhraseDB::reverseFindRows against a line-by-line scan.
#include "rt.h"
#include "ParselessPhraseDB.h"
using namespace McBopomofo;
static void one(const std::string& t, const std::string& val) {
  if (t.empty()) return;
  rt::begin("table=" + rt::show(t) + " text=" + rt::show(val));
  char* b = (char*)malloc(t.size()); memcpy(b, t.data(), t.size());
  char* vb = (char*)malloc(val.size()); memcpy(vb, val.data(), val.size());
  std::vector<std::string> want;
  size_t p = 0;
  while (p < t.size()) {
    size_t e = t.find('\n', p); if (e == std::string::npos) e = t.size();
    std::string l = t.substr(p, e - p); p = e + 1;
    if (l.empty()) continue;
    size_t s = l.find(' ');
    std::string rest = "";
    if (s != std::string::npos) { size_t r = l.find_first_not_of(' ', s); if (r != std::string::npos) rest = l.substr(r); }
    if (rest.compare(0, val.size(), val) == 0) want.push_back(l);
  }
  ParselessPhraseDB db(b, t.size());
  auto got = db.reverseFindRows(std::string_view(vb, val.size()));
  if (!val.empty() && val.find('\n') == std::string::npos) CHECK(got == want, "reverseFindRows returned " + std::to_string(got.size()) + " rows, expected " + std::to_string(want.size()));
  free(b); free(vb);
}
int main(int argc, char** argv) {
  rt::init(argc, argv);
  rt::allwords("a \nb", 6, [&](const std::string& s) { for (auto v : {"a", "b", "ab", "a ", "b ", "aa"}) one(s, v); return rt::within(0.6); });
  while (rt::more()) {
    std::string t; size_t n = 1 + rt::below(5);
    for (size_t i = 0; i < n; i++) { t += rt::word("ab", 2); if (rt::chance(90)) t += rt::chance(90) ? " " : "  "; t += rt::word("ab\xe4", 3); if (rt::chance(70)) t += " " + rt::word("-1.", 3); if (i + 1 < n || rt::chance(60)) t += rt::chance(90) ? "\n" : "\n\n"; }
    for (int j = 0; j < 3; j++) { std::string v = rt::word("ab\xe4", 3); if (rt::chance(40)) v += " "; if (rt::chance(20)) v = t.substr(rt::below(t.size())); one(t, v); }
  }
  return rt::done();
}
