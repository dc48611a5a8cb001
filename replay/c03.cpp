// C03: ParselessPhraseDB::findRows / findFirstMatchingLine against a linear scan.
#include <algorithm>
#include "rt.h"
#include "ParselessPhraseDB.h"
using namespace McBopomofo;
static std::vector<std::pair<size_t, std::string>> lines(const std::string& t) {
  std::vector<std::pair<size_t, std::string>> r; size_t p = 0;
  while (p < t.size()) { size_t e = t.find('\n', p); if (e == std::string::npos) e = t.size(); r.push_back({p, t.substr(p, e - p)}); p = e + 1; }
  return r;
}
static void one(const std::string& t, const std::string& key, bool sorted) {
  if (t.empty()) return;
  rt::begin("table=" + rt::show(t) + " key=" + rt::show(key));
  char* b = (char*)malloc(t.size()); memcpy(b, t.data(), t.size());
  char* kb = (char*)malloc(key.size()); memcpy(kb, key.data(), key.size());
  std::string_view k(kb, key.size());
  {
    ParselessPhraseDB db(b, t.size());
    auto rows = db.findRows(k);
    const char* f = db.findFirstMatchingLine(k);
    bool ctl = key.empty();
    for (unsigned char c : key) if (c < 32 || c == 127) ctl = true;
    if (sorted && !ctl) {
      std::vector<std::pair<size_t, std::string>> want;
      for (auto& l : lines(t)) if (l.second.compare(0, key.size(), key) == 0) want.push_back(l);
      CHECK((f == nullptr) == want.empty(), "findFirstMatchingLine: wrong presence");
      if (f) CHECK(f == b + want[0].first, "findFirstMatchingLine: not the first matching line");
      CHECK(rows.size() == want.size(), "findRows: wrong number of rows");
      for (size_t i = 0; i < rows.size(); i++) CHECK(rows[i] == want[i].second && rows[i].data() == b + want[i].first, "findRows: wrong row");
    }
  }
  free(b); free(kb);
}
static std::string table(std::vector<std::string> ls, bool nlend, bool sort) {
  if (sort) std::sort(ls.begin(), ls.end());
  std::string t;
  for (size_t i = 0; i < ls.size(); i++) { t += ls[i]; if (i + 1 < ls.size() || nlend) t += '\n'; }
  return t;
}
int main(int argc, char** argv) {
  rt::init(argc, argv);
  const std::string H = "# format org.openvanilla.mcbopomofo.sorted\n";
  // exhaustive over small tables
  std::vector<std::string> W{"", "a", "b", "aa", "ab", "ba", "aab"};
  for (size_t n = 1; n <= 4; n++) {
    std::vector<size_t> ix(n, 0);
    while (rt::within(0.5)) {
      bool mono = true;
      for (size_t i = 1; i < n; i++) if (W[ix[i]] < W[ix[i - 1]]) mono = false;
      if (mono) {
        std::vector<std::string> ls; for (auto i : ix) ls.push_back(W[i]);
        for (int e = 0; e < 2; e++) for (auto& k : {"a", "b", "aa", "ab", "ba", "bb", "aaa", "aab", "aabb", "abab"}) one(table(ls, e, true), k, true);
      }
      size_t i = 0; while (i < n && ++ix[i] == W.size()) ix[i++] = 0;
      if (i == n) break;
    }
  }
  while (rt::more()) {
    std::vector<std::string> ls; size_t n = 1 + rt::below(rt::chance(20) ? 30 : 6);
    std::string al = rt::chance(50) ? "ab -" : std::string("ab \t\xe4\xff\0-", 8);
    for (size_t i = 0; i < n; i++) ls.push_back(rt::word(al, rt::chance(10) ? 40 : 5));
    if (rt::chance(30)) { std::string p = rt::word("ab", 3); for (auto& l : ls) if (rt::chance(70)) l = p + l; }
    bool sorted = rt::chance(85);
    std::string t = table(ls, rt::chance(50), sorted);
    for (int j = 0; j < 4; j++) {
      std::string k = rt::chance(60) ? rt::pick(ls).substr(0, 1 + rt::below(5)) : rt::word(al, 4);
      if (rt::chance(20)) k += rt::word(al, 50);
      if (rt::chance(20)) k += " ";
      one(t, k, sorted);
    }
    // header handling
    if (rt::chance(20)) {
      std::string h = rt::chance(50) ? H : H.substr(0, rt::below(H.size())) + rt::word("# f\n", 3);
      std::string full = h + (h == H && rt::chance(70) ? t : std::string());
      if (rt::chance(20) && full.size() > 3) full[rt::below(std::min(full.size(), H.size()))] ^= 1;
      if (full.empty()) continue;
      rt::begin("with header: " + rt::show(full));
      char* b = (char*)malloc(full.size()); memcpy(b, full.data(), full.size());
      ParselessPhraseDB db(b, full.size(), true);
      bool good = full.compare(0, H.size(), H) == 0;
      CHECK(ParselessPhraseDB::ValidatePragma(b, full.size()) == good, "ValidatePragma");
      std::string body = good ? full.substr(H.size()) : "";
      std::string k = ls[0].empty() ? "a" : ls[0].substr(0, 1 + rt::below(3));
      bool ctl = false; for (unsigned char c : k) if (c < 32) ctl = true;
      auto rows = db.findRows(k);
      if (!ctl && sorted) {
        size_t i = 0;
        for (auto& l : lines(body)) if (l.second.compare(0, k.size(), k) == 0) { CHECK(i < rows.size() && rows[i] == l.second, "row after header"); i++; }
        CHECK(i == rows.size(), "rows from a table with/without header");
      }
      free(b);
    }
  }
  return rt::done();
}
