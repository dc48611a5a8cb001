// C12: the learned-selection memory against an exact recency list.
#include <math.h>
#include <algorithm>
#include <list>
#include <map>
#include "rt.h"
#include "UserOverrideModel.h"
using namespace McBopomofo;
using namespace Formosa::Gramambular2;
struct Ov { size_t n = 0; double t = 0; bool f = false; };
struct Ctx { std::string key; size_t n = 0; std::map<std::string, Ov> o; };
struct Oracle {
  size_t cap; double lambda; std::list<Ctx> l;
  Ctx* find(const std::string& k) { for (auto& c : l) if (c.key == k) return &c; return nullptr; }
  void observe(const std::string& k, const std::string& c, double t, bool f) {
    Ctx x; x.key = k;
    for (auto i = l.begin(); i != l.end(); ++i) if (i->key == k) { x = *i; l.erase(i); break; }
    x.n++; auto& o = x.o[c]; o.n++; o.t = t; o.f = f;
    l.push_front(x);
    if (l.size() > cap) l.pop_back();
  }
  double weight(Ctx& c, Ov& o, double now) { double d = exp((now - o.t) * lambda); return d < 1.0 / 1048576.0 ? 0 : (double)o.n / (double)c.n * d; }
};
static void ask(UserOverrideModel::Suggestion s, Oracle& q, const std::string& k, double now, const std::string& d) {
  rt::begin(d + " suggest(" + rt::show(k) + " at " + std::to_string(now) + ")");
  Ctx* c = q.find(k);
  if (!c) { CHECK(s.empty(), "a suggestion " + rt::show(s.candidate) + " for a context that is not remembered"); CHECK(!s.forceHighScoreOverride, "force without suggestion"); return; }
  double best = 0; for (auto& [v, o] : c->o) best = std::max(best, q.weight(*c, o, now));
  if (best == 0) { CHECK(s.empty(), "a suggestion " + rt::show(s.candidate) + " although everything has decayed"); return; }
  if (c->o.count("") && s.empty()) return;
  CHECK(!s.empty(), "nothing is suggested although the context is remembered");
  CHECK(c->o.count(s.candidate), rt::show(s.candidate) + " was never observed in this context");
  auto& o = c->o[s.candidate]; double w = q.weight(*c, o, now);
  CHECK(w >= best * (1 - 1e-9), rt::show(s.candidate) + " does not have the highest score");
  CHECK(s.forceHighScoreOverride == o.f, "force flag is not that of the last observation");
}
struct LM : LanguageModel {
  std::map<std::string, std::vector<Unigram>> m;
  std::vector<Unigram> getUnigrams(const std::string& r) override { auto i = m.find(r); return i == m.end() ? std::vector<Unigram>() : i->second; }
  bool hasUnigrams(const std::string& r) override { return m.count(r); }
};
typedef ReadingGrid::WalkResult WR;
static std::string cell(const ReadingGrid::NodePtr& n, bool head) { return "(" + n->reading() + "," + (head ? n->unigrams()[0].value() : n->currentUnigram().value()) + ")"; }
static std::string context(const WR& w, size_t at) {
  std::string prev = "()", ante = "()";
  if (at >= 1 && w.nodes[at - 1]->reading()[0] != '_') {
    prev = cell(w.nodes[at - 1], false);
    if (at >= 2 && w.nodes[at - 2]->reading()[0] != '_') ante = cell(w.nodes[at - 2], false);
  }
  return ante + "-" + prev + "-" + cell(w.nodes[at], true);
}
// index of the node holding the reading at a cursor; past: where it ends
static size_t at(const WR& w, size_t cursor, size_t* past) {
  size_t p = 0; if (cursor >= w.totalReadings) cursor = w.totalReadings - 1;
  for (size_t i = 0; i < w.nodes.size(); i++) { p += w.nodes[i]->spanningLength(); if (p > cursor) { *past = p; return i; } }
  return w.nodes.size();
}
int main(int argc, char** argv) {
  rt::init(argc, argv);
  const std::vector<std::string> ks = {"a", "b", "c", "d", "e", "ab", ""}, cs = {"x", "y", "z", "w"};
  while (rt::more()) {
    if (rt::chance(60)) {
      size_t cap = 1 + rt::below(rt::chance(20) ? 8 : 4); double half = rt::chance(50) ? 20 : 5400;
      UserOverrideModel u(cap, half); Oracle q{cap, log(0.5) / half, {}};
      double t = 0; std::string d = "capacity=" + std::to_string(cap) + " half-life=" + std::to_string(half) + ":";
      size_t n = 1 + rt::below(rt::chance(20) ? 60 : 12);
      for (size_t i = 0; i < n; i++) {
        if (rt::chance(60)) t += (double)rt::below(rt::chance(20) ? 300 : 10); else if (rt::chance(10) && t > 3) t -= (double)rt::below(3);
        auto k = rt::pick(ks), c = rt::pick(cs); bool f = rt::chance(30);
        d += " (" + k + "," + c + "," + std::to_string((int)t) + (f ? ",f)" : ")");
        rt::begin(d);
        u.observe(k, c, t, f); q.observe(k, c, t, f);
        
        if (rt::chance(30)) { auto j = rt::pick(ks); ask(u.suggest(j, t), q, j, t, d); }
      }
      for (auto& k : ks) { ask(u.suggest(k, t), q, k, t, d); double l = t + (double)rt::below((size_t)(half * 25)); ask(u.suggest(k, l), q, k, l, d); }
      continue;
    }
    // selections in a grid
    auto lm = std::make_shared<LM>(); const std::vector<std::string> rs = {"a", "b", "c", "_p"};
    auto fill = [&](const std::string& r, bool must) { if (!must && rt::chance(50)) return; size_t n = 1 + rt::below(3); for (size_t i = 0; i < n; i++) lm->m[r].emplace_back(r + std::string(1, (char)('1' + i)), -(double)rt::below(40) / 4 - (double)i); std::stable_sort(lm->m[r].begin(), lm->m[r].end(), [](auto& x, auto& y) { return x.score() > y.score(); }); };
    for (auto& x : rs) fill(x, true);
    for (auto& x : rs) for (auto& y : rs) { if (x == "_p" || y == "_p") continue; fill(x + "-" + y, false); for (auto& z : rs) if (z != "_p" && rt::chance(30)) { fill(x + "-" + y + "-" + z, false); for (auto& w : rs) if (w != "_p" && rt::chance(30)) fill(x + "-" + y + "-" + z + "-" + w, false); } }
    size_t cap = 1 + rt::below(4); UserOverrideModel u(cap, 5400); Oracle q{cap, log(0.5) / 5400, {}}; double t = 100;
    std::string d = "grid capacity=" + std::to_string(cap) + ":";
    for (size_t e = 0; e < 5; e++) {
      ReadingGrid g(lm); size_t n = 1 + rt::below(6); d += " /";
      for (size_t i = 0; i < n; i++) { auto& r = rt::pick(rs); d += " " + r; g.insertReading(r); }
      WR before = g.walk();
      for (size_t k = 0; k < 3; k++) {
        size_t cur = rt::below(n + 1); size_t past = 0; t += (double)rt::below(50);
        std::vector<std::string> vs;   // nodes as they were, as selections change them in place
        std::string kb; std::vector<std::string> keys; for (size_t i = 0; i < before.nodes.size(); i++) keys.push_back(context(before, i));
        { size_t p; size_t i = at(before, cur, &p); ask(u.suggest(before, cur, t), q, keys[i], t, d + " cursor=" + std::to_string(cur)); }
        auto cands = g.candidatesAt(cur); if (cands.empty()) continue;
        auto c = rt::pick(cands); d += " @" + std::to_string(cur) + "=" + c.value;
        std::vector<size_t> lens; for (auto& x : before.nodes) lens.push_back(x->spanningLength());
        g.overrideCandidate(cur, c);
        WR after = g.walk();
        rt::begin(d);
        u.observe(before, after, cur, t);
        size_t i = at(after, cur, &past);
        if (after.nodes[i]->spanningLength() <= 3) {
          size_t p2, j = at(before, past - 1, &p2);
          size_t now = after.nodes[i]->spanningLength(), was = before.nodes[j]->spanningLength();
          std::string key = (now == 1 && was > 1) ? context(after, i) : context(before, j);
          q.observe(key, after.nodes[i]->currentUnigram().value(), t, now > was);
          ask(u.suggest(key, t), q, key, t, d);
        }
        before = after;
      }
    }
  }
  return rt::done();
}
