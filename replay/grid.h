// Shared by the grid harnesses: a language model with random fixed contents and random edit histories.
#pragma once
#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include "rt.h"
#include "gramambular2/reading_grid.h"
using namespace Formosa::Gramambular2;
typedef ReadingGrid G;
typedef G::Node N;
struct Lm : LanguageModel {
  std::map<std::string, std::vector<Unigram>> m;
  std::vector<Unigram> getUnigrams(const std::string& r) override { auto i = m.find(r); return i == m.end() ? std::vector<Unigram>{} : i->second; }
  bool hasUnigrams(const std::string& r) override { auto i = m.find(r); return i != m.end() && !i->second.empty(); }
};
inline std::string join(const std::vector<std::string>& r, size_t i, size_t n, const std::string& sep) { std::string s; for (size_t k = 0; k < n; k++) s += (k ? sep : "") + r[i + k]; return s; }
struct World {
  std::shared_ptr<Lm> lm = std::make_shared<Lm>();
  std::unique_ptr<G> g;
  std::string sep;
  std::vector<std::string> rd = {"a", "b", "aa", "c"}, ref;   // ref: the readings there should be
  size_t cur = 0;
  std::string d;
  int density;
  World(bool ties) {
    sep = rt::pick(std::vector<std::string>{"-", "-", "", "::"});
    density = (int)rt::pick(std::vector<int>{5, 30, 60, 95});
    size_t n = 1 + rt::below(3); rd.resize(n);
    const std::vector<double> sc = {-1, -2, -3.5, -0.5, -10, 0, -7.25, 1.5, -1e-3, 41, 43};
    std::vector<std::string> cur = {""};
    const std::vector<std::string> vals = {"X", "Y", "Z", "W", "XY", ""};
    for (auto& r : rd) { lm->m[r] = some(vals, sc, ties); }
    for (int len = 2; len <= 7; len++) for (int t = 0; t < 40; t++) {
      std::vector<std::string> w; for (int k = 0; k < len; k++) w.push_back(rt::pick(rd));
      if (rt::chance(density)) lm->m[join(w, 0, (size_t)len, sep)] = some(vals, sc, ties);
    }
    if (rt::chance(30) && rd.size() > 1) lm->m[rd.back()].clear();
    g = std::make_unique<G>(lm); g->setReadingSeparator(sep);
    d = "sep=" + rt::show(sep) + " model={"; for (auto& x : lm->m) { d += x.first + ":"; for (auto& u : x.second) d += u.value() + "/" + std::to_string(u.score()).substr(0, 6) + ","; d += ";"; }
    d += "} ops=";
  }
  static std::vector<LanguageModel::Unigram> some(const std::vector<std::string>& vals, const std::vector<double>& sc, bool ties) {
    std::vector<LanguageModel::Unigram> v; size_t n = 1 + rt::below(3);
    for (size_t i = 0; i < n; i++) v.emplace_back(rt::pick(vals), ties ? rt::pick(sc) : -(double)rt::below(100000) / 1024);
    return v;
  }
  bool knows(const std::string& r) { return lm->hasUnigrams(r); }
  void op(const std::string& t) { d += t + " "; rt::begin(d); }
  // one random edit, checked for its own outcome
  void edit() {
    size_t k = rt::below(100);
    if (k < 55) {
      std::string r = rt::chance(90) ? rt::pick(rd) : rt::pick(std::vector<std::string>{"", sep, "unknown", "a" + sep + "b"});
      op("insert(" + r + ")");
      bool want = !r.empty() && r != sep && knows(r);
      CHECK(g->insertReading(r) == want, "insertReading reports the wrong outcome");
      if (want) { ref.insert(ref.begin() + (long)cur, r); cur++; }
    } else if (k < 70) {
      op("delBefore"); CHECK(g->deleteReadingBeforeCursor() == (cur > 0), "deleteReadingBeforeCursor reports the wrong outcome");
      if (cur > 0) { ref.erase(ref.begin() + (long)cur - 1); cur--; }
    } else if (k < 80) {
      op("delAfter"); CHECK(g->deleteReadingAfterCursor() == (cur < ref.size()), "deleteReadingAfterCursor reports the wrong outcome");
      if (cur < ref.size()) ref.erase(ref.begin() + (long)cur);
    } else if (k < 99) { cur = rt::below(ref.size() + 1); op("cursor(" + std::to_string(cur) + ")"); g->setCursor(cur); }
    else { op("clear"); g->clear(); ref.clear(); cur = 0; }
  }
  void check() {
    CHECK(g->readings() == ref, "the readings are not those inserted");
    CHECK(g->cursor() == cur && g->length() == ref.size(), "cursor or length");
    auto& sp = g->spans();
    CHECK(sp.size() == ref.size(), "number of spans is " + std::to_string(sp.size()));
    std::set<N*> seen;
    for (size_t i = 0; i < sp.size(); i++) {
      size_t mx = 0;
      for (size_t j = 1; j <= 6; j++) {
        auto n = sp[i].nodeOf(j);
        std::string at = " at position " + std::to_string(i) + " of length " + std::to_string(j);
        bool want = i + j <= ref.size() && knows(join(ref, i, j, sep));
        CHECK((n != nullptr) == want, (want ? "no node" : "a node for nothing") + at);
        if (!n) continue;
        mx = j;
        CHECK(seen.insert(n.get()).second, "the same node twice" + at);
        CHECK(n->spanningLength() == j && n->reading() == join(ref, i, j, sep), "the node is for reading " + rt::show(n->reading()) + at);
        auto w = lm->m[n->reading()]; std::stable_sort(w.begin(), w.end(), [](auto& a, auto& b) { return a.score() > b.score(); });
        CHECK(n->unigrams().size() == w.size(), "entries" + at);
        for (size_t k = 0; k < w.size(); k++) CHECK(n->unigrams()[k].value() == w[k].value() && n->unigrams()[k].score() == w[k].score(), "entries" + at);
      }
      CHECK(sp[i].maxLength() == mx, "maxLength at position " + std::to_string(i) + " is " + std::to_string(sp[i].maxLength()));
    }
  }
};
