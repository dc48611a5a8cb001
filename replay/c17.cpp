// C17: TimestampedPath and the loader's reloading, on a real (scratch) directory.
#include <errno.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <filesystem>
#include <memory>
#include "rt.h"
#include "TimestampedPath.h"
#define private public
#include "LanguageModelLoader.h"
#undef private
using McBopomofo::TimestampedPath;
struct St { bool has = false, dir = false; bool t = false; int64_t s = 0, ns = 0; };
static St look(const std::string& p) {
  St r; struct stat b;
  if (p.empty() || ::stat(p.c_str(), &b) != 0) return r;
  r.has = true; r.dir = S_ISDIR(b.st_mode);
  if (b.st_mtim.tv_sec < 9223372036LL && b.st_mtim.tv_sec > -9223372036LL) { r.t = true; r.s = b.st_mtim.tv_sec; r.ns = b.st_mtim.tv_nsec; }
  return r;
}
// what is recorded: time, or nothing for an absent file and on errors
struct Stamp { bool t = false; int64_t s = 0, ns = 0; bool operator==(const Stamp& o) const { return t == o.t && s == o.s && ns == o.ns; } };
static Stamp stamp(const St& x) { Stamp r; if (x.has && x.t) { r.t = true; r.s = x.s; r.ns = x.ns; } return r; }
static void settime(const std::string& p, int64_t s, int64_t ns) { struct timespec t[2]; t[0].tv_sec = t[1].tv_sec = s; t[0].tv_nsec = t[1].tv_nsec = ns; utimensat(AT_FDCWD, p.c_str(), t, 0); }
// as editors do: a new file put in place by rename (mapped old content stays valid)
static void put(const std::string& p, const std::string& b) { FILE* f = fopen((p + "~").c_str(), "wb"); if (f) { fwrite(b.data(), 1, b.size(), f); fclose(f); rename((p + "~").c_str(), p.c_str()); } }
static void gone(const std::string& p) { std::error_code e; std::filesystem::remove(p, e); }
static const std::vector<int64_t> times = {0, 1, -1, 1000000000, 1000000001, 1600000000, 2147483648LL, 9223372035LL, 9300000000LL, 12000000000LL};
struct LS : McBopomofo::LanguageModelLoader::LocalizedStrings {
  std::string userPhraseFileHeader() override { return "# user\n"; }
  std::string excludedPhraseFileHeader() override { return "# excluded\n"; }
};
static void paths() {
  std::string base = rt::dir() + "/p"; ::mkdir(base.c_str(), 0755);
  while (rt::within(0.5)) {
    std::string h; std::vector<std::string> ps; std::vector<TimestampedPath> o; std::vector<Stamp> rec;
    for (int i = 0; i < 3; i++) ps.push_back(base + "/f" + std::to_string(i));
    ps.push_back(""); ps.push_back(base + "/f0/below"); ps.push_back(base + "/" + std::string(300, 'n'));
    for (auto& p : ps) { gone(p); o.emplace_back(TimestampedPath(p)); rec.push_back(Stamp()); }
    size_t n = 2 + rt::below(12);
    auto act = [&](const std::string& d, auto f) { h += d + " "; rt::begin(h); f(); };
    while (n--) {
      size_t i = rt::below(o.size()), k = rt::below(3); std::string I = std::to_string(i), K = std::to_string(k);
      switch (rt::below(12)) {
        case 0: case 1: act("write(f" + K + ")", [&] { if (look(ps[k]).dir) return; put(ps[k], "x"); settime(ps[k], rt::pick(times), rt::chance(30) ? 1 : 0); }); break;
        case 2: act("remove(f" + K + ")", [&] { gone(ps[k]); }); break;
        case 3: { int64_t t = rt::pick(times), ns = rt::below(3); act("mtime(f" + K + "," + std::to_string(t) + "." + std::to_string(ns) + ")", [&] { settime(ps[k], t, ns); }); break; }
        case 4: { St x = look(ps[k]); act("bump-ns(f" + K + ")", [&] { if (x.has && x.t) settime(ps[k], x.s, (x.ns + 1) % 1000000000); }); break; }
        case 5: act("mkdir(f" + K + ")", [&] { gone(ps[k]); ::mkdir(ps[k].c_str(), 0755); settime(ps[k], rt::pick(times), 0); }); break;
        case 6: act("symlink-loop(f" + K + ")", [&] { gone(ps[k]); (void)!symlink(ps[k].c_str(), ps[k].c_str()); }); break;
        case 7: act("dangling-symlink(f" + K + ")", [&] { gone(ps[k]); (void)!symlink((base + "/none").c_str(), ps[k].c_str()); }); break;
        case 8: act("record(#" + I + ")", [&] { o[i].checkTimestamp(); rec[i] = stamp(look(ps[i])); }); break;
        case 9: act("record(#" + I + ")", [&] { o[i].checkTimestamp(); rec[i] = stamp(look(ps[i])); }); break;
        case 10: act("copy(#" + I + ")", [&] { o.push_back(TimestampedPath(o[i])); ps.push_back(ps[i]); rec.push_back(rec[i]); }); break;
        case 11: act("assign(#" + I + ",#" + K + ")", [&] { o[i] = o[k]; ps[i] = ps[k]; rec[i] = rec[k]; }); break;
      }
      for (size_t j = 0; j < o.size(); j++) {
        St x = look(ps[j]); std::string J = std::to_string(j);
        rt::begin(h + "check(#" + J + ")");
        CHECK(o[j].path() == ps[j], "path");
        CHECK(o[j].pathExists() == x.has, "pathExists of object " + J + " on " + ps[j]);
        CHECK(o[j].pathIsFile() == (x.has && !x.dir), "pathIsFile of object " + J + " on " + ps[j]);
        bool w = !(stamp(x) == rec[j]), g = o[j].timestampDifferentFromLastCheck();
        CHECK(g == w, std::string("object ") + J + " on " + ps[j] + (g ? " reports a change that is none" : " misses a change"));
      }
    }
  }
}
static void loader() {
  std::string home = rt::dir() + "/home", d = home + "/fcitx5/mcbopomofo"; std::error_code e;
  int round = 0;
  while (rt::more()) {
    std::filesystem::remove_all(home, e); std::filesystem::create_directories(home + "/fcitx5", e);
    if (rt::chance(70)) std::filesystem::create_directories(d, e);
    std::string up = d + "/data.txt", ex = d + "/exclude-phrases.txt", rp = d + "/phrases-replacement.txt", h = "construct ";
    rt::begin(h);
    McBopomofo::LanguageModelLoader L(std::make_unique<LS>()); auto lm = L.getLM();
    CHECK(look(up).has && look(ex).has, "user files are created by the loader");
    Stamp su = stamp(look(up)), se = stamp(look(ex)), sr;
    std::string cu, ce, cr; bool ren = false;       // what the model was last loaded from
    int64_t clk = 1000000000; int ver = 0; std::string fu, fe, fr;  // what is in the files
    size_t n = 3 + rt::below(14);
    while (n--) {
      switch (rt::below(8)) {
        case 0: case 1: { fu = "u" + std::to_string(++ver); h += "user:=" + fu + " "; put(up, fu + " k\n"); settime(up, clk += rt::chance(80), rt::below(2)); break; }
        case 2: { fe = "u" + std::to_string(rt::below(ver + 2)); h += "excluded:=" + fe + " "; put(ex, fe + " k\n"); settime(ex, clk += rt::chance(80), rt::below(2)); break; }
        case 3: { fr = "r" + std::to_string(++ver); std::string k = "u" + std::to_string(rt::below(ver)); h += "replacement:=" + k + "->" + fr + " "; put(rp, k + " " + fr + "\n"); fr = k + " " + fr; settime(rp, clk += rt::chance(80), rt::below(2)); break; }
        case 4: h += "remove user "; gone(up); fu = ""; break;
        case 5: h += "remove replacement "; gone(rp); fr = ""; break;
        case 6: h += "remove excluded "; gone(ex); fe = ""; break;
        case 7: h += "touch back "; settime(up, clk - rt::below(3), 0); break;
      }
      if (rt::chance(60)) {
        h += "reload "; rt::begin(h);
        St u = look(up), x = look(ex), r = look(rp);
        bool ru = false;
        if (u.has && !(stamp(u) == su)) { ru = true; su = stamp(u); }
        if (x.has && !(stamp(x) == se)) { ru = true; se = stamp(x); }
        if (ru) { cu = fu; ce = fe; }
        if (ren && !r.has) { ren = false; sr = Stamp(); }
        else if (r.has && !(stamp(r) == sr)) { sr = stamp(r); cr = fr; ren = true; }
        L.reloadUserModelsIfNeeded();
        std::vector<std::string> want, got;
        if (!cu.empty() && cu != ce) { std::string v = cu; if (ren && cr.substr(0, cr.find(' ')) == v) v = cr.substr(cr.find(' ') + 1); want.push_back(v); }
        for (auto& g : lm->getUnigrams("k")) got.push_back(g.value());
        std::string ws = want.empty() ? "(none)" : want[0], gs = got.empty() ? "(none)" : got[0];
        CHECK(want == got, "after reload the user phrase served is " + gs + ", the files last noticed say " + ws);
        CHECK(lm->phraseReplacementEnabled() == ren, "phrase replacement enabled differs from file existence");
      }
    }
    round++;
  }
}
int main(int argc, char** argv) {
  rt::init(argc, argv);
  std::string home = rt::dir() + "/home"; setenv("XDG_DATA_HOME", home.c_str(), 1); setenv("HOME", rt::dir().c_str(), 1); setenv("XDG_DATA_DIRS", "/nonexistent", 1);
  paths(); loader();
  return rt::done();
}
