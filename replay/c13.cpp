// C13: merged unigrams for arbitrary dictionaries, exclusions, replacements, macros and converters.
#include <algorithm>
#include <cmath>
#include <map>
#include <memory>
#include <set>
#include "rt.h"
#include "McBopomofoLM.h"
using namespace McBopomofo;
typedef std::vector<std::string> VS;
struct Row { std::string v; double s; };
int main(int argc, char** argv) {
  rt::init(argc, argv);
  const VS rd = {"r", "s", "r-s", "s-s-r", "-", "-r", "\xe3\x84\x8b", " "};
  const VS ph = {"a", "b", "c", "ab", "aA", "A", "MACRO@X", "MACRO@Y", "MACRO@", "XMACRO@X", "\xe4\xbd\xa0", "B"};
  const VS sc = {"-1", "-2.5", "-8", "0", "-99", "-8.0", "-7.999", "2.5"};
  auto lm = std::make_unique<McBopomofoLM>();
  std::map<std::string, std::vector<Row>> base; std::map<std::string, VS> user, excl; std::map<std::string, std::string> repl;
  bool rep = false, ext = false; int mac = 0, conv = 0; bool loaded = false;
  std::string h, baseText, userText, exclText, replText;
  while (rt::more()) {
    if (rt::chance(20)) { lm = std::make_unique<McBopomofoLM>(); base.clear(); user.clear(); excl.clear(); repl.clear(); rep = ext = false; mac = conv = 0; h = ""; baseText = userText = exclText = replText = ""; loaded = false; }
    int edits = 1 + rt::below(6);
    while (edits--) switch (rt::below(7)) {
      case 0: {
        VS lines; base.clear(); int n = rt::below(9);
        for (int i = 0; i < n; i++) lines.push_back(rt::pick(VS(rd.begin(), rd.end() - 1)) + " " + rt::pick(ph) + " " + rt::pick(sc));
        std::sort(lines.begin(), lines.end()); baseText = "";
        for (auto& l : lines) { size_t p = l.find(' '), q = l.rfind(' '); base[l.substr(0, p)].push_back({l.substr(p + 1, q - p - 1), std::stod(l.substr(q + 1))}); baseText += l + "\n"; }
        static std::string keep; keep = baseText.empty() ? "zz z 0\n" : baseText; h += " base=" + rt::show(keep);
        lm->loadLanguageModel(std::unique_ptr<ParselessPhraseDB>()); std::string* heap = new std::string(keep); static std::vector<std::unique_ptr<std::string>> own; own.emplace_back(heap); if (own.size() > 4) own.erase(own.begin());
        lm->loadLanguageModel(std::make_unique<ParselessPhraseDB>(heap->data(), heap->size())); loaded = true; break; }
      case 1: { user.clear(); userText = ""; int n = rt::below(4); for (int i = 0; i < n; i++) { auto r = rt::pick(VS(rd.begin(), rd.end() - 1)); auto p = rt::pick(ph); user[r].push_back(p); userText += p + " " + r + "\n"; } h += " user=" + rt::show(userText); lm->loadUserPhrases(userText.data(), userText.size()); break; }
      case 2: { excl.clear(); exclText = ""; int n = rt::below(5); for (int i = 0; i < n; i++) { auto r = rt::pick(VS(rd.begin(), rd.end() - 1)); auto p = rt::pick(ph); excl[r].push_back(p); exclText += p + " " + r + "\n"; } h += " excl=" + rt::show(exclText); lm->loadExcludedPhrases(exclText.data(), exclText.size()); break; }
      case 3: { repl.clear(); replText = ""; int n = rt::below(4); for (int i = 0; i < n; i++) { auto a = rt::pick(ph), b = rt::pick(ph); repl[a] = b; replText += a + " " + b + "\n"; } h += " repl=" + rt::show(replText); lm->loadPhraseReplacementMap(replText.data(), replText.size()); break; }
      case 4: rep = rt::chance(60); h += rep ? " replace on" : " replace off"; lm->setPhraseReplacementEnabled(rep); break;
      case 5: mac = rt::below(3); h += " macro " + std::to_string(mac); lm->setMacroConverter(mac == 0 ? std::function<std::string(const std::string&)>() : mac == 1 ? [](const std::string& s) { return s == "MACRO@X" ? std::string("x!") : s; } : [](const std::string& s) { return s == "a" ? std::string("MACRO@Z") : s; }); break;
      default: ext = rt::chance(70); conv = rt::below(3); h += " ext " + std::to_string(ext) + std::to_string(conv); lm->setExternalConverterEnabled(ext); lm->setExternalConverter(conv == 0 ? std::function<std::string(const std::string&)>() : conv == 1 ? [](const std::string& s) { std::string o = s; for (char& c : o) if (c >= 'a' && c <= 'z') c -= 32; return o; } : [](const std::string& s) { return s == "b" ? std::string("MACRO@X") : s; }); break;
    }
    for (auto& k : rd) {
      rt::begin("reading " + rt::show(k) + (loaded ? "" : " (no table)") + " now base=" + rt::show(baseText) + " user=" + rt::show(userText) + " excl=" + rt::show(exclText) + " repl=" + rt::show(replText) + " rep=" + std::to_string(rep) + " macro=" + std::to_string(mac) + " ext=" + std::to_string(ext) + std::to_string(conv));
      auto got = lm->getUnigrams(k); bool known = lm->hasUnigrams(k);
      CHECK(known == !got.empty(), known ? "hasUnigrams says yes, getUnigrams gives nothing" : "hasUnigrams says no, getUnigrams gives something");
      if (k == " ") { CHECK(got.size() == 1 && got[0].value() == " " && got[0].score() == 0, "space"); continue; }
      std::set<std::string> ex(excl[k].begin(), excl[k].end()), seen;
      auto pass = [&](const std::string& v0, double s, std::vector<Row>& o) {
        if (ex.count(v0)) return;
        std::string v = v0;
        if (rep && repl.count(v) && !repl[v].empty()) v = repl[v];
        if (mac == 1 && v == "MACRO@X") v = "x!"; if (mac == 2 && v == "a") v = "MACRO@Z";
        if (s == -8 && v.size() > 6 && v.substr(0, 6) == "MACRO@") return;
        if (ext && conv == 1) for (char& c : v) if (c >= 'a' && c <= 'z') c -= 32;
        if (ext && conv == 2 && v == "b") v = "MACRO@X";
        if (seen.insert(v).second) o.push_back({v, s});
      };
      std::vector<Row> u, g; for (auto& p : user[k]) pass(p, 0, u); for (auto& r : base[k]) pass(r.v, r.s, g);
      CHECK(got.size() == u.size() + g.size(), "candidates: " + std::to_string(got.size()) + ", expected " + std::to_string(u.size() + g.size()));
      bool multi = k.find('-') != std::string::npos; double top = -INFINITY; for (auto& r : g) top = std::max(top, r.s);
      for (size_t i = 0; i < got.size(); i++) {
        auto& w = i < u.size() ? u[i] : g[i - u.size()];
        CHECK(got[i].value() == w.v, "candidate " + std::to_string(i) + " is " + rt::show(got[i].value()) + ", expected " + rt::show(w.v));
        if (i >= u.size()) CHECK(got[i].score() == w.s, "score of " + rt::show(w.v) + " changed");
        else if (multi || g.empty()) CHECK(got[i].score() == 0, "score of user phrase");
        else CHECK(got[i].score() >= top && got[i].score() < top + 1e-6, "user phrase does not rank with the best: " + std::to_string(got[i].score()));
      }
    }
    if (h.size() > 4000) h = "";
  }
  return rt::done();
}
