// C16: the program started for every template and phrase, with fcitx::startProcess replaced by a recorder.
#include <sys/stat.h>
#include <filesystem>
#include <memory>
#include "rt.h"
#include "DictionaryService.h"
static std::vector<std::vector<std::string>> started;
namespace fcitx { void startProcess(const std::vector<std::string>& a, const std::string&) { started.push_back(a); } }
using namespace McBopomofo;
static bool unres(unsigned char c) { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || c == '-' || c == '.' || c == '_' || c == '~'; }
static int hexv(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'F' ? c - 'A' + 10 : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; }
static std::string json(const std::string& s) {
  std::string o; char b[8];
  for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32) { snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; }
  return o;
}
static void put(const std::string& p, const std::string& t) { ::unlink(p.c_str()); FILE* f = fopen(p.c_str(), "w"); if (!f || fwrite(t.data(), 1, t.size(), f) != t.size()) _exit(3); fclose(f); }
static const std::string H = "(encoded)";
// nothing but unreserved characters and %XX, decoding to the phrase
static void judge(const std::string& u, const std::string& phrase) {
  std::string back;
  for (size_t i = 0; i < u.size();) {
    if (u[i] == '%') { CHECK(i + 2 < u.size() && hexv(u[i + 1]) >= 0 && hexv(u[i + 2]) >= 0, "broken escape in " + rt::show(u)); back += (char)(hexv(u[i + 1]) * 16 + hexv(u[i + 2])); i += 3; }
    else { CHECK(unres(u[i]), "unescaped character in " + rt::show(u)); back += u[i++]; }
  }
  CHECK(back == phrase, rt::show(u) + " decodes to " + rt::show(back));
}
int main(int argc, char** argv) {
  rt::init(argc, argv);
  std::string d = rt::dir() + "/xdg/fcitx5/data"; std::error_code e; std::filesystem::create_directories(d, e);
  setenv("XDG_DATA_HOME", (rt::dir() + "/xdg").c_str(), 1); setenv("HOME", rt::dir().c_str(), 1); setenv("XDG_DATA_DIRS", "/nonexistent", 1);
  const std::vector<std::string> parts = {"", "", "https://x.y/", "?q=", "&m=0#t", "%20", "(encoded", "encoded)", "((", "))", "'", "{}", "{0}", "\xe5\xad\x97", "(", "\\", "\"", "$&", "%s", "/"};
  const std::vector<std::string> ph = {"", "a", "\xe4\xbd\xa0\xe5\xa5\xbd", "a b+c", "~-_.", "%41", H, "&<>\"'/", "\xff\xfe", std::string("a\0b", 3), "\n\t\x7f", "\xf0\x9f\x98\x80", "AZaz09", "\x01\x0f\x10"};
  size_t round = 0;
  while (rt::more()) {
    size_t n = 1 + rt::below(3);
    std::vector<std::string> ts; std::string t = "{\"services\":[", names;
    for (size_t i = 0; i < n; i++) {
      std::string x; size_t k = rt::below(4); bool hole = false;
      for (size_t j = 0; j <= k; j++) { x += rt::pick(parts); if (!hole ? rt::chance(50) : rt::chance(8)) { x += H; hole = true; } }
      ts.push_back(x); t += std::string(i ? "," : "") + "{\"name\":\"n" + std::to_string(i) + "\",\"url_template\":\"" + json(x) + "\"}";
    }
    t += "]}"; put(d + "/mcbopomofo-dictionary-service.json", t);
    rt::begin("services " + t);
    DictionaryServices ds; ds.load();
    for (int q = 0; q < 24; q++) {
      std::string p = round < 64 ? std::string() : rt::chance(50) ? rt::pick(ph) : rt::word(std::string("a~%/ \xff\x80\xc3\x00:", 10), 6);
      if (round < 64) for (int i = 0; i < 4; i++) p += (char)(round * 4 + i);
      size_t idx = round < 64 ? 1 + rt::below(n) : rt::below(n + 3);
      round++;
      rt::begin("services " + t + " lookup(" + rt::show(p) + ", " + std::to_string(idx) + ")");
      started.clear(); size_t calls = 0;
      InputStates::Empty st;
      ds.lookup(p, idx, &st, [&](std::unique_ptr<InputState>) { calls++; });
      if (idx == 0 || idx > n) { CHECK(started.empty(), "a program was started for an index that names no web service"); continue; }
      CHECK(started.size() == 1 && started[0].size() == 2 && started[0][0] == "xdg-open", "not exactly one browser was started");
      CHECK(calls == 1, "the candidate window is not closed");
      if (rt::chance(25)) {
        auto menu = ds.menuForPhrase(p);
        CHECK(menu.size() == n + 1, "the menu has " + std::to_string(menu.size()) + " entries");
        for (size_t i = 0; i < n; i++) CHECK(menu[i + 1].find("n" + std::to_string(i)) != std::string::npos, "entry " + std::to_string(i + 1) + " of the menu is " + rt::show(menu[i + 1]));
      }
      const std::string& tp = ts[idx - 1]; const std::string& u = started[0][1];
      size_t at = tp.find(H);
      if (at == std::string::npos) { CHECK(u == tp, "URL of a template without placeholder: " + rt::show(u)); continue; }
      std::string a = tp.substr(0, at), b = tp.substr(at + H.size());
      CHECK(u.size() >= a.size() + b.size() && u.compare(0, a.size(), a) == 0 && u.compare(u.size() - b.size(), b.size(), b) == 0, "the template's own text is not kept: " + rt::show(u));
      judge(u.substr(a.size(), u.size() - a.size() - b.size()), p);
    }
  }
  return rt::done();
}
