// C07: the conversion result against every tiling of grids made by random edits and selections.
#include <cmath>
#include <limits>
#include "grid.h"
typedef std::shared_ptr<N> P;
typedef N::OverrideType T;
static G* grid; static double best; static std::vector<std::string> bestp; static std::vector<std::string> cur_; static long left_;
static void paths(size_t i, double acc) {
  auto& sp = grid->spans();
  if (left_-- < 0) return;
  if (i == sp.size()) { if (bestp.empty() || acc > best) { best = acc; bestp = cur_; if (bestp.empty()) bestp.push_back(""); } return; }
  for (size_t j = 1; j <= 6; j++) if (auto n = sp[i].nodeOf(j)) { cur_.push_back(n->reading() + "/" + n->value()); paths(i + j, acc + n->score()); cur_.pop_back(); }
}
int main(int argc, char** argv) {
  rt::init(argc, argv);
  while (rt::more()) {
    World w(rt::chance(50));
    size_t n = 4 + rt::below(12);
    for (size_t k = 0; k < n; k++) {
      size_t ne = 1 + rt::below(5); while (ne--) w.edit();
      size_t len = w.ref.size();
      if (len > 13) { w.op("clear"); w.g->clear(); w.ref.clear(); w.cur = 0; continue; }
      size_t no = rt::below(4);
      while (no-- && len) {
        size_t loc = rt::below(len + 1); auto c = w.g->candidatesAt(loc); if (c.empty()) break;
        auto& x = c[rt::below(c.size())]; T t = rt::chance(50) ? T::kOverrideValueWithHighScore : T::kOverrideValueWithScoreFromTopUnigram;
        w.op("select[" + x.reading + "](" + std::to_string(loc) + "," + x.value + "," + (t == T::kOverrideValueWithHighScore ? "high" : "top") + ")");
        w.g->overrideCandidate(loc, x, t);
      }
      w.op("walk");
      auto r = w.g->walk();
      CHECK(w.g->readings() == w.ref && w.g->cursor() == w.cur, "the conversion changed the readings or the cursor");
      size_t at = 0; double s = 0; auto& sp = w.g->spans();
      for (auto& p : r.nodes) {
        CHECK(p != nullptr && at < sp.size() && p->spanningLength() >= 1 && p->spanningLength() <= 6, "the result runs past the end");
        CHECK(sp[at].nodeOf(p->spanningLength()) == p, "node " + rt::show(p->reading()) + " of the result is not in the grid at position " + std::to_string(at));
        s += p->score(); at += p->spanningLength();
      }
      CHECK(at == len, "the result covers " + std::to_string(at) + " of " + std::to_string(len) + " readings");
      CHECK(r.totalReadings == len, "the result says it covers " + std::to_string(r.totalReadings));
      grid = w.g.get(); bestp.clear(); cur_.clear(); left_ = 200000; best = -std::numeric_limits<double>::infinity();
      paths(0, 0);
      std::string alt; for (auto& x : bestp) alt += x + " ";
      CHECK(s >= best, "the result scores " + std::to_string(s) + ", but " + alt + "scores " + std::to_string(best));
    }
  }
  return rt::done();
}
