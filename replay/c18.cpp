// C18: ParselessLM::getUnigrams / hasUnigrams / getReadings against the rows the table was built from.
#include <algorithm>
#include <cmath>
#include "rt.h"
#include "ParselessLM.h"
using namespace McBopomofo;
struct Row { std::string r, v, s; bool hasv, hassc; std::string line() const { return r + (hasv ? " " + v : "") + (hassc ? " " + s : ""); } };
static double sc(const Row& r) { return r.hassc && !r.s.empty() ? strtod(r.s.c_str(), nullptr) : 0; }
static std::string rd(bool big) {
  static const std::vector<std::string> P{"a", "b", "\xe3\x84\x85", "\xcb\x87", "-", "_", "c"};
  std::string s; size_t n = 1 + rt::below(big ? 12 : 3); for (size_t i = 0; i < n; i++) s += rt::pick(P); return s;
}
static void one(std::vector<Row> rows, bool nlend, const std::vector<std::string>& ks, const std::vector<std::string>& vs) {
  std::sort(rows.begin(), rows.end(), [](const Row& a, const Row& b) { return a.line() < b.line(); });
  std::string t; for (size_t i = 0; i < rows.size(); i++) { t += rows[i].line(); if (i + 1 < rows.size() || nlend) t += "\n"; }
  if (t.empty()) return;
  rt::begin("table=" + rt::show(t));
  char* b = (char*)malloc(t.size()); memcpy(b, t.data(), t.size());
  {
    ParselessLM lm;
    CHECK(!lm.isLoaded() && lm.getUnigrams("a").empty() && !lm.hasUnigrams("a") && lm.getReadings("a").empty(), "an unloaded model knows nothing");
    CHECK(lm.open(std::unique_ptr<ParselessPhraseDB>(new ParselessPhraseDB(b, t.size()))), "open");
    for (auto& k : ks) {
      rt::begin("table=" + rt::show(t) + " reading=" + rt::show(k));
      auto u = lm.getUnigrams(k);
      std::vector<const Row*> w; for (auto& r : rows) if (r.r == k && r.hasv) w.push_back(&r);
      CHECK(u.size() == w.size(), "getUnigrams: " + std::to_string(u.size()) + " candidates, expected " + std::to_string(w.size()));
      for (size_t i = 0; i < w.size(); i++) CHECK(u[i].value() == w[i]->v && u[i].score() == sc(*w[i]), "getUnigrams: wrong phrase or score: " + rt::show(u[i].value()) + " " + std::to_string(u[i].score()));
      CHECK(lm.hasUnigrams(k) == !w.empty(), "hasUnigrams disagrees with getUnigrams");
    }
    bool form = true; for (auto& r : rows) form = form && r.hassc && r.hasv && !r.v.empty() && !r.r.empty();
    if (form) for (auto& v : vs) {
      rt::begin("table=" + rt::show(t) + " phrase=" + rt::show(v));
      auto u = lm.getReadings(v);
      std::vector<const Row*> w; for (auto& r : rows) if (r.v == v) w.push_back(&r);
      CHECK(u.size() == w.size(), "getReadings: " + std::to_string(u.size()) + " readings, expected " + std::to_string(w.size()));
      for (size_t i = 0; i < w.size(); i++) CHECK(u[i].reading == w[i]->r && u[i].score == sc(*w[i]), "getReadings: wrong reading or score");
    }
  }
  free(b);
}
int main(int argc, char** argv) {
  rt::init(argc, argv);
  static const std::vector<std::string> S{"-1", "0", "-3.25", "", "2", "-0.5", "-12.125", "1e2"};
  while (rt::more()) {
    size_t n = 1 + rt::below(rt::chance(20) ? 24 : 6);
    std::vector<Row> rows; std::vector<std::string> ks{"a"}, vs{"a"};
    bool form = rt::chance(60); std::string base = rd(false);
    for (size_t i = 0; i < n; i++) {
      Row r; r.r = rt::chance(50) ? base : rt::chance(50) ? base + rd(false) : rd(rt::chance(20));
      r.hasv = form || rt::chance(90); r.hassc = form || (r.hasv && rt::chance(75));
      r.v = rt::chance(8) && !form ? "" : rd(rt::chance(10)); r.s = rt::pick(S); if (!r.hasv) r.v = "";
      rows.push_back(r); ks.push_back(r.r); vs.push_back(r.v); ks.push_back(r.r.substr(0, 1 + rt::below(r.r.size())));
    }
    ks.push_back(rd(false)); vs.push_back(rd(false));
    one(rows, rt::chance(50), ks, vs);
  }
  return rt::done();
}
