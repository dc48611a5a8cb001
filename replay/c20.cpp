// C20: addUserPhrase on arbitrary previous file contents, reloaded by the same and by a new loader.
#include <fcntl.h>
#include <sys/stat.h>
#include <filesystem>
#include <fstream>
#include <map>
#include <memory>
#include "rt.h"
#include "blob_oracle.h"
#include "LanguageModelLoader.h"
using namespace McBopomofo;
struct LS : LanguageModelLoader::LocalizedStrings {
  std::string userPhraseFileHeader() override { return rt::chance(50) ? "# user\n" : "# user"; }
  std::string excludedPhraseFileHeader() override { return "# excluded\n"; }
};
static std::string slurp(const std::string& p) { std::ifstream i(p, std::ios::binary); return std::string(std::istreambuf_iterator<char>(i), {}); }
static int64_t clk = 1000000000;
static void settime(const std::string& p) { struct timespec t[2] = {{++clk, 0}, {clk, 0}}; utimensat(AT_FDCWD, p.c_str(), t, 0); }
static std::vector<std::string> rows(const std::string& t, const std::string& r) {   // distinct phrases in file order
  std::vector<std::string> o; bool e; for (auto& p : oracle(t, e)) if (p.v == r) { bool d = false; for (auto& x : o) d |= x == p.k; if (!d) o.push_back(p.k); } return o; }
int main(int argc, char** argv) {
  rt::init(argc, argv);
  std::string home = rt::dir() + "/home", d = home + "/fcitx5/mcbopomofo", up = d + "/data.txt"; std::error_code e;
  setenv("XDG_DATA_HOME", home.c_str(), 1); setenv("HOME", rt::dir().c_str(), 1); setenv("XDG_DATA_DIRS", "/nonexistent", 1);
  const std::vector<std::string> ph = {"\xe4\xbd\xa0\xe5\xa5\xbd", "ab", "a", "x#", "\xf0\xa0\x80\x80\xe4\xb8\x80", "b"}, rd = {"\xe3\x84\x8b\xe3\x84\xa7\xcb\x87-\xe3\x84\x8f\xe3\x84\xa0\xcb\x87", "r", "r-r", "k"};
  const std::vector<std::string> base = {"", "# c", "# c\n", "a r", "a r\n", "a r  ", "a r x", "b k\r", "b k\t", "#", " ", "\n\n", "b k # t", "a r\nb k", "# x\na r\n# y", "\xe4\xbd\xa0 r", "a \xe4"};
  while (rt::more()) {
    std::filesystem::remove_all(home, e);
    int fresh = rt::below(6);
    if (fresh >= 1) std::filesystem::create_directories(home + "/fcitx5", e); else std::filesystem::create_directories(home, e);
    if (fresh >= 2) std::filesystem::create_directories(d, e);
    std::string h, want; bool given = false;
    if (fresh >= 3) {
      want = rt::chance(60) ? rt::pick(base) : rt::word("ar# \n\r\tbk", 14); bool er; oracle(want, er); if (er || want.find('\0') != std::string::npos) continue;
      std::ofstream(up, std::ios::binary) << want; settime(up); given = true;
    }
    h = given ? "content=" + rt::show(want) : "fresh account " + std::to_string(fresh); rt::begin(h);
    auto L = std::make_unique<LanguageModelLoader>(std::make_unique<LS>());
    if (!given) { CHECK(std::filesystem::exists(up), "user phrase file is not created"); CHECK(std::filesystem::exists(d + "/exclude-phrases.txt"), "excluded phrase file is not created"); want = slurp(up); settime(up); }
    size_t n = 1 + rt::below(3);
    while (n--) {
      std::string p = rt::pick(ph), r = rt::pick(rd), before = slurp(up);
      CHECK(before == want, "file changed by itself");
      h += " add(" + rt::show(p) + "," + rt::show(r) + ")"; rt::begin(h);
      settime(up);   // the write below gives a new time
      std::map<std::string, std::vector<std::string>> kept; for (auto& k : rd) kept[k] = rows(before, k);
      L->addUserPhrase(r, p);
      std::string after = slurp(up); bool er; auto pa = oracle(before, er), pb = oracle(after, er);
      CHECK(!er, "file no longer reads to its end");
      CHECK(after.compare(0, before.size(), before) == 0, "earlier content was changed");
      CHECK(pb.size() == pa.size() + 1, "number of entries went from " + std::to_string(pa.size()) + " to " + std::to_string(pb.size()) + ", file now " + rt::show(after));
      CHECK(pb.back().k == p && pb.back().v == r, "the entry written is " + rt::show(pb.back().k + " " + pb.back().v));
      for (size_t i = 0; i < pa.size(); i++) CHECK(pa[i].k == pb[i].k && pa[i].v == pb[i].v, "an earlier entry is lost");
      CHECK(after.size() == before.size() + p.size() + r.size() + 2 + (before.empty() || before.back() == '\n' ? 0 : 1), "more than one entry was appended");
      want = after;
      bool again = rt::chance(40);
      if (again) { h += " new-loader"; rt::begin(h); L = std::make_unique<LanguageModelLoader>(std::make_unique<LS>()); }
      auto lm = L->getLM();
      for (auto& k : rd) {
        auto w = rows(after, k); std::vector<std::string> g; for (auto& u : lm->getUnigrams(k)) g.push_back(u.value());
        CHECK(g == w, "phrases of " + rt::show(k) + " after the addition: " + std::to_string(g.size()) + " served, the file gives " + std::to_string(w.size()));
        for (auto& x : kept[k]) { bool f = false; for (auto& y : g) f |= x == y; CHECK(f, "phrase known before is lost"); }
      }
      settime(up); L->reloadUserModelsIfNeeded();
    }
  }
  return rt::done();
}
