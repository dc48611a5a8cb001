// C08: candidates at every position and selections, in grids made by random edits.
#include "grid.h"
typedef std::shared_ptr<N> P;
typedef N::OverrideType T;
struct St { std::string v; double s; bool o; };
struct At { P p; size_t i; };
static std::vector<At> all(World& w) { std::vector<At> r; auto& sp = w.g->spans(); for (size_t i = 0; i < sp.size(); i++) for (size_t j = 1; j <= 6; j++) if (auto n = sp[i].nodeOf(j)) r.push_back({n, i}); return r; }
static St st(const P& p) { return {p->value(), p->score(), p->isOverridden()}; }
int main(int argc, char** argv) {
  rt::init(argc, argv);
  while (rt::more()) {
    World w(rt::chance(70));
    size_t n = 3 + rt::below(25);
    for (size_t k = 0; k < n; k++) {
      size_t ne = 1 + rt::below(4); while (ne--) w.edit();
      size_t len = w.ref.size(), loc = rt::below(len + (rt::chance(10) ? 4 : 1));
      size_t at = loc == len ? loc - 1 : loc;
      auto nodes = all(w);
      std::vector<At> over; if (len && loc <= len) for (auto& a : nodes) if (a.i <= at && at < a.i + a.p->spanningLength()) over.push_back(a);
      w.op("candidates(" + std::to_string(loc) + ")");
      auto got = w.g->candidatesAt(loc);
      typedef std::pair<size_t, std::pair<std::string, std::string>> E;
      std::vector<E> want, have;
      for (auto& a : over) for (auto& u : a.p->unigrams()) want.push_back({a.p->spanningLength(), {a.p->reading(), u.value()}});
      CHECK(got.size() == want.size(), std::to_string(got.size()) + " candidates, expected " + std::to_string(want.size()));
      // by length, each node's entries together and in order
      size_t q = 0; std::vector<At> left = over;
      while (q < got.size()) {
        size_t mx = 0; for (auto& a : left) mx = std::max(mx, a.p->spanningLength());
        bool ok = false;
        for (size_t x = 0; x < left.size() && !ok; x++) {
          auto& us = left[x].p->unigrams();
          if (left[x].p->spanningLength() != mx || q + us.size() > got.size()) continue;
          bool m = true; for (size_t y = 0; m && y < us.size(); y++) m = got[q + y].reading == left[x].p->reading() && got[q + y].value == us[y].value();
          if (m) { q += us.size(); left.erase(left.begin() + (long)x); ok = true; }
        }
        CHECK(ok, "candidate " + std::to_string(q) + " (" + got[q].reading + " " + got[q].value + ") is not the next entry of an overlapping node, longest first");
      }
      // select
      std::vector<St> before; for (auto& a : nodes) before.push_back(st(a.p));
      T t = rt::chance(50) ? T::kOverrideValueWithHighScore : T::kOverrideValueWithScoreFromTopUnigram;
      bool bare = rt::chance(40); std::string rd, v;
      if (!got.empty() && rt::chance(80)) { auto& c = got[rt::below(got.size())]; rd = c.reading; v = c.value; }
      else { rd = nodes.empty() || rt::chance(20) ? "a" : nodes[rt::below(nodes.size())].p->reading(); v = rt::pick(std::vector<std::string>{"X", "Y", "Z", "Q", ""}); }
      w.op(std::string("select") + (bare ? "" : "[" + rd + "]") + "(" + std::to_string(loc) + "," + v + "," + (t == T::kOverrideValueWithHighScore ? "high" : "top") + ")");
      bool ok = bare ? w.g->overrideCandidate(loc, v, t) : w.g->overrideCandidate(loc, G::Candidate(rd, v), t);
      auto offers = [&](const P& p) { if (!bare && p->reading() != rd) return false; for (auto& u : p->unigrams()) if (u.value() == v) return true; return false; };
      bool any = false; for (auto& a : over) any = any || offers(a.p);
      CHECK(ok == any, ok ? "a selection nothing offers succeeds" : "a listed candidate cannot be selected");
      auto now = all(w); CHECK(now.size() == nodes.size(), "nodes came or went");
      auto chosen = [&](const At& a) { auto s = st(a.p); if (!s.o || s.v != v) return false; if (t == T::kOverrideValueWithHighScore) return s.s == N::kOverridingScore; return s.s == a.p->unigrams()[0].score(); };
      auto same = [&](size_t x) { auto s = st(nodes[x].p); return s.v == before[x].v && s.s == before[x].s && s.o == before[x].o; };
      if (!ok) { for (size_t x = 0; x < nodes.size(); x++) CHECK(same(x), "a refused selection changed a node"); continue; }
      bool found = false; std::string why;
      for (auto& a : over) if (offers(a.p) && chosen(a) && !found) {
        bool good = true;
        for (size_t x = 0; x < nodes.size() && good; x++) {
          auto& b = nodes[x]; if (b.p == a.p) continue;
          bool hit = b.i < a.i + a.p->spanningLength() && a.i < b.i + b.p->spanningLength();
          auto s = st(b.p);
          if (hit ? (s.o || s.v != b.p->unigrams()[0].value() || s.s != b.p->unigrams()[0].score()) : !same(x)) { good = false; why = "node " + rt::show(b.p->reading()) + " at " + std::to_string(b.i) + (hit ? " keeps a selection" : " is changed without overlapping"); }
        }
        found = good;
      }
      CHECK(found, why.empty() ? "no node over the position uses the chosen text" : why);
    }
  }
  return rt::done();
}
