// C21: user phrase and replacement tables under histories of loads, opens and closes; released texts are freed.
#include <sys/stat.h>
#include <unistd.h>
#include <map>
#include <memory>
#include "rt.h"
#include "blob_oracle.h"
#define private public
#define protected public
#include "UserPhrasesLM.h"
#include "PhraseReplacementMap.h"
#include "McBopomofoLM.h"
using namespace McBopomofo;
static const std::string al("ab# \n\t\r\0", 8);
static const std::vector<std::string> keys = {"a", "b", "aa", "ab", "ba", "bb", "aaa", "", "#", "k"};
static std::string text() {
  if (rt::chance(40)) return rt::word(al, 16);
  std::string t; size_t n = rt::below(6);
  for (size_t i = 0; i < n; i++) {
    if (rt::chance(10)) { t += "# c\n"; continue; }
    t += rt::word("ab", 2) + (rt::chance(8) ? "" : std::string(1 + rt::below(2), ' ') + rt::word("ab", 2)) + (rt::chance(15) ? " x" : "") + (rt::chance(92) ? "\n" : rt::chance(50) ? "\r" : "");
  }
  return t;
}
struct Buf { char* p; size_t n; };
static Buf mk(const std::string& t) { Buf b{(char*)malloc(t.size() ? t.size() : 1), t.size()}; memcpy(b.p, t.data(), t.size()); return b; }
struct Model { std::string src; bool any = false; };
static std::vector<std::string> urows(const Model& m, const std::string& r) { std::vector<std::string> o; bool e; if (m.any) for (auto& p : oracle(m.src, e)) if (p.v == r) o.push_back(p.k); return o; }
static std::string rval(const Model& m, const std::string& k) { std::string o; bool e; if (m.any) for (auto& p : oracle(m.src, e)) if (p.k == k) o = p.v; return o; }
static void chku(UserPhrasesLM& u, const Model& m) {
  for (auto& k : keys) {
    auto w = urows(m, k); auto g = u.getUnigrams(k);
    CHECK(g.size() == w.size(), "reading " + rt::show(k) + ": " + std::to_string(g.size()) + " phrases served, the text gives " + std::to_string(w.size()));
    for (size_t i = 0; i < w.size(); i++) { CHECK(g[i].value() == w[i], "reading " + rt::show(k) + ": phrase " + rt::show(g[i].value()) + ", text gives " + rt::show(w[i])); CHECK(g[i].score() == 0, "score of a user phrase"); }
    CHECK(u.hasUnigrams(k) == !w.empty(), "hasUnigrams of " + rt::show(k));
  }
}
static void chkr(PhraseReplacementMap& r, const Model& m) { for (auto& k : keys) CHECK(r.valueForKey(k) == rval(m, k), "replacement of " + rt::show(k) + " is " + rt::show(r.valueForKey(k)) + ", text gives " + rt::show(rval(m, k))); }
static std::string fdir; static int fno = 0;
static std::string put(const std::string& t) { std::string p = fdir + "/f" + std::to_string(fno++ % 40); unlink(p.c_str()); FILE* f = fopen(p.c_str(), "wb"); fwrite(t.data(), 1, t.size(), f); fclose(f); return p; }
// one table driven by load/open/close; T = UserPhrasesLM or PhraseReplacementMap
template <class T, class F> static void hist(const char* name, F chk) {
  std::string h = name; auto o = std::make_unique<T>(); Model m; bool mapped = false; std::vector<Buf> old; Buf cur{nullptr, 0};
  size_t n = 1 + rt::below(7);
  while (n--) {
    std::string t = text();
    switch (rt::below(6)) {
      case 0: case 1: { h += " load(" + rt::show(t) + ")"; rt::begin(h); Buf b = mk(t); bool r = o->load(b.p, b.n); CHECK(r == !t.empty(), "load returned " + std::to_string(r));
        if (r) { if (cur.p) free(cur.p); cur = b; m = {t, true}; } else free(b.p); break; }
      case 2: { h += " load(null)"; rt::begin(h); CHECK(!o->load(nullptr, 7), "load of nothing succeeded"); break; }
      case 3: { std::string p = put(t); h += " open(" + rt::show(t) + ")"; rt::begin(h); bool r = o->open(p.c_str()), w = !mapped && !t.empty(); unlink(p.c_str()); CHECK(r == w, "open returned " + std::to_string(r));
        if (r) { mapped = true; m = {t, true}; if (cur.p) free(cur.p); cur.p = nullptr; } break; }
      case 4: { h += " open(missing)"; rt::begin(h); CHECK(!o->open((fdir + "/none").c_str()), "open of a missing file succeeded"); break; }
      case 5: { h += " close"; rt::begin(h); o->close(); mapped = false; m = Model(); if (cur.p) free(cur.p); cur.p = nullptr; break; }
    }
    rt::begin(h + " query"); chk(*o, m);
  }
  o.reset(); if (cur.p) free(cur.p);
}
static void merged() {
  std::string h = "McBopomofoLM"; auto lm = std::make_unique<McBopomofoLM>(); Model u, e, r; std::vector<Buf> bufs; lm->setPhraseReplacementEnabled(true);
  size_t n = 1 + rt::below(7);
  auto keep = [&](Buf b) { bufs.push_back(b); };
  while (n--) {
    std::string t = text(), t2 = text();
    switch (rt::below(6)) {
      case 0: case 1: { bool ha = rt::chance(75), hb = rt::chance(75), na = rt::chance(15), nb = rt::chance(15); std::string a = ha ? put(t) : fdir + "/none", b = hb ? put(t2) : fdir + "/none";
        h += " loadUserPhrases(" + (na ? "null" : ha ? rt::show(t) : "missing") + "," + (nb ? "null" : hb ? rt::show(t2) : "missing") + ")"; rt::begin(h); lm->loadUserPhrases(na ? nullptr : a.c_str(), nb ? nullptr : b.c_str());
        u = {t, !na && ha && !t.empty()}; e = {t2, !nb && hb && !t2.empty()}; break; }
      case 2: { bool ha = rt::chance(75); std::string a = ha ? put(t) : fdir + "/none"; h += " loadReplacement(" + (ha ? rt::show(t) : "missing") + ")"; rt::begin(h); lm->loadPhraseReplacementMap(a.c_str()); r = {t, ha && !t.empty()}; break; }
      case 3: { h += " loadUserPhrases-memory(" + rt::show(t) + ")"; rt::begin(h); Buf b = mk(t); lm->loadUserPhrases(b.p, b.n); keep(b); u = {t, !t.empty()}; break; }
      case 4: { h += " loadExcluded-memory(" + rt::show(t) + ")"; rt::begin(h); Buf b = mk(t); lm->loadExcludedPhrases(b.p, b.n); keep(b); e = {t, !t.empty()}; break; }
      case 5: { h += " loadReplacement-memory(" + rt::show(t) + ")"; rt::begin(h); Buf b = mk(t); lm->loadPhraseReplacementMap(b.p, b.n); keep(b); r = {t, !t.empty()}; break; }
    }
    rt::begin(h + " query"); chku(lm->userPhrases_, u); chku(lm->excludedPhrases_, e); chkr(lm->phraseReplacement_, r);
  }
  lm.reset(); for (auto& b : bufs) free(b.p);
}
int main(int argc, char** argv) {
  rt::init(argc, argv); fdir = rt::dir();
  while (rt::more()) { hist<UserPhrasesLM>("UserPhrasesLM", chku); hist<PhraseReplacementMap>("PhraseReplacementMap", chkr); merged(); }
  return rt::done();
}
