// C14: associated phrases of generated tables; splitting and combining readings.
#include <algorithm>
#include <set>
#include "rt.h"
#include "AssociatedPhrasesV2.h"
using namespace McBopomofo;
typedef std::vector<std::string> VS;
typedef AssociatedPhrasesV2 A;
struct Row { VS v, r; std::string sc, raw; };
static std::string enc(const VS& v, const VS& r, char last) { std::string s; for (size_t i = 0; i < v.size(); i++) s += v[i] + "-" + r[i] + (i + 1 < v.size() ? '-' : last); return s; }
static std::string cat(const VS& v) { std::string s; for (auto& x : v) s += x; return s; }
static void splits(const std::string& s, const VS& parts) {
  rt::begin("SplitReadings(" + rt::show(s) + ")");
  auto p = A::SplitReadings(s);
  CHECK(A::CombineReadings(p) == s, "combining the parts gives " + rt::show(A::CombineReadings(p)));
  CHECK(p.size() == (s.empty() ? 0 : 1 + (size_t)std::count(s.begin(), s.end(), '-')), "number of parts");
  for (auto& x : p) CHECK(x.find('-') == std::string::npos, "a part contains the separator");
  std::string w; for (size_t i = 0; i < parts.size(); i++) w += (i ? "-" : "") + parts[i];
  rt::begin("CombineReadings of " + std::to_string(parts.size()) + " parts, " + rt::show(w));
  auto c = A::CombineReadings(parts);
  CHECK(c == w, "combined is " + rt::show(c));
  CHECK(A::Phrase("x", parts).combinedReading() == w, "combinedReading");
  bool ok = !(parts.size() == 1 && parts[0].empty()); for (auto& x : parts) ok = ok && x.find('-') == std::string::npos;
  if (ok) CHECK(A::SplitReadings(c) == parts, "splitting the combined reading does not give the parts back");
}
int main(int argc, char** argv) {
  rt::init(argc, argv);
  const VS ch = {"\xe4\xbd\xa0", "\xe5\xa5\xbd", "a", "\xf0\xa0\x80\x80", "\xc3\xa9", "b"};
  const VS rd = {"r", "s", "rs", "\xe3\x84\x8b\xcb\x87", "\xe3\x84\x8b", "_", "r1"};
  const VS sc = {"-1", "-2.5", "0", "-2.5", "-3.123456", "-3.1234560001", "7", "-10", "1"};
  rt::allwords("-a ", 6, [&](const std::string& s) { VS p; std::string w; for (char c : s) if (c == ' ') { p.push_back(w); w = ""; } else w += c; p.push_back(w); std::string q = s; q.erase(std::remove(q.begin(), q.end(), ' '), q.end()); splits(q, p); return rt::within(0.3); });
  while (rt::more()) {
    std::vector<Row> rows; size_t n = 1 + rt::below(rt::chance(20) ? 30 : 8);
    VS bv = {rt::pick(ch), rt::pick(ch)}, br = {rt::pick(rd), rt::pick(rd)};
    for (size_t i = 0; i < n; i++) {
      Row x; size_t k = 1 + rt::below(4);
      for (size_t j = 0; j < k; j++) { bool b = j < 2 && rt::chance(60); x.v.push_back(b ? bv[j] : rt::pick(ch)); x.r.push_back(b ? br[j] : rt::pick(rd)); }
      x.sc = rt::pick(sc); x.raw = enc(x.v, x.r, ' ') + x.sc;
      if (rt::chance(6)) { x.raw = rt::word("ab-- ", 7); x.v.clear(); if (x.raw.find(' ') != std::string::npos) x.raw = x.raw.substr(0, x.raw.find(' ')); }
      rows.push_back(x);
    }
    std::stable_sort(rows.begin(), rows.end(), [](const Row& a, const Row& b) { return a.raw < b.raw; });
    std::string t; for (auto& x : rows) t += x.raw + "\n"; if (rt::chance(30)) t.pop_back(); if (t.empty()) continue;
    char* heap = (char*)malloc(t.size()); memcpy(heap, t.data(), t.size());
    {
      A a; CHECK(!a.isLoaded() && a.findPhrases("a", {}).empty(), "unloaded table knows phrases");
      CHECK(a.open(std::make_unique<ParselessPhraseDB>(heap, t.size())) && a.isLoaded(), "open");
      for (int q = 0; q < 8; q++) {
        VS pv, pr; size_t k = 1 + rt::below(3);
        if (rt::chance(70)) { auto& x = rt::pick(rows); for (size_t j = 0; j < k && j < x.v.size(); j++) { pv.push_back(x.v[j]); pr.push_back(x.r[j]); } }
        if (pv.empty() || rt::chance(15)) { pv = VS(1 + rt::below(2), rt::pick(ch)); pr.clear(); for (auto& y : pv) { (void)y; pr.push_back(rt::pick(rd)); } }
        bool none = rt::chance(20); if (none) pr.clear();
        bool odd = rt::chance(10); if (odd) { if (rt::chance(50) && !pr.empty()) pr.pop_back(); else pr.push_back("r"); none = pr.empty(); }
        std::string val = rt::chance(3) ? "" : cat(pv), d = "table=" + rt::show(t) + " prefix=" + rt::show(val) + " readings="; for (auto& y : pr) d += rt::show(y) + ",";
        rt::begin(d);
        auto got = a.findPhrases(val, pr);
        struct W { std::string v; VS r; double s; }; std::vector<W> w;
        if (!val.empty()) for (auto& x : rows) {
          bool m;
          if (none) m = !x.v.empty() && x.v[0] == val;
          else { m = pv.size() == pr.size() && x.v.size() > pv.size(); for (size_t j = 0; m && j < pv.size(); j++) m = x.v[j] == pv[j] && x.r[j] == pr[j]; }
          if (m) w.push_back({cat(x.v), x.r, strtod(x.sc.c_str(), nullptr)});
        }
        bool malformed = false; std::string pre = none ? val + "-" : enc(pv, pr.size() == pv.size() ? pr : pv, '-');
        for (auto& x : rows) if (x.v.empty() && x.raw.compare(0, pre.size(), pre) == 0) malformed = true;
        std::set<std::string> texts; for (auto& g : got) CHECK(texts.insert(g.value).second, "text " + rt::show(g.value) + " is there twice");
        if (malformed) continue;
        std::stable_sort(w.begin(), w.end(), [](const W& x, const W& y) { return x.s > y.s; });
        std::vector<W> u; std::set<std::string> seen; for (auto& x : w) if (seen.insert(x.v).second) u.push_back(x);
        CHECK(got.size() == u.size(), std::to_string(got.size()) + " phrases, expected " + std::to_string(u.size()));
        for (size_t i = 0; i < u.size(); i++) CHECK(got[i].value == u[i].v && got[i].readings == u[i].r, "phrase " + std::to_string(i) + " is " + rt::show(got[i].value) + " " + got[i].combinedReading() + ", expected " + rt::show(u[i].v));
      }
    }
    free(heap);
    std::string s = rt::word("-ab", 12); VS p; size_t k = rt::below(5); while (k--) p.push_back(rt::word(rt::chance(20) ? "-ab" : "ab", 3)); splits(s, p);
  }
  return rt::done();
}
