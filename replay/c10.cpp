// C10: key histories on every layout, with erasing, clearing and changes of the layout.
#include <cctype>
#include "rt.h"
#include "Mandarin/Mandarin.h"
using namespace Formosa::Mandarin;
typedef unsigned U;
typedef BopomofoKeyboardLayout L;
struct Named { const L* l; const char* n; const char* keys; bool single, pinyin; };
// the components in the order of their codes; keys of the layouts whose keys stand for one component each, in that order
static const U comps[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 32, 64, 96, 128, 256, 384, 512, 640, 768, 896, 1024, 1152, 1280, 1408, 1536, 1664, 2048, 4096, 6144, 8192};
static const char* STD = "1qaz2wsxedcrfv5tgbyhnujm8ik,9ol.0p;/-6347";
static const char* IBM = "1234567890-qwertyuiopasdfghjkl;zxcvbnm,./";
static const char* ETEN = "bpmfdtnlvkhg7c,./j;'sexuaorwiqzy890-=2341";
static const char* HSU[] = {"1:b", "2:p", "3:m", "4:f", "5:d", "6:t", "7:n", "8:l", "9:g", "10:k", "11:h", "12:j", "13:v", "14:c", "15:j", "16:v", "17:c", "18:r", "19:z", "20:a", "21:s", "32:e", "64:x", "96:u", "128:y", "256:h", "384:g", "512:e", "640:i", "768:a", "896:w", "1024:o", "1152:m", "1280:n", "1408:k", "1536:l", "1664:l", "2048:d", "4096:f", "6144:j", "8192:s"};
static const char* ET26[] = {"1:b", "2:p", "3:m", "4:f", "5:d", "6:t", "7:n", "8:l", "9:v", "10:k", "11:h", "12:g", "13:v", "14:c", "15:g", "16:y", "17:c", "18:j", "19:q", "20:w", "21:s", "32:e", "64:x", "96:u", "128:a", "256:o", "384:r", "512:w", "640:i", "768:q", "896:z", "1024:p", "1152:m", "1280:n", "1408:t", "1536:l", "1664:h", "2048:f", "4096:j", "6144:k", "8192:d"};
static const char* const* doubles(const Named& n) { return n.n == std::string("Hsu") ? HSU : ET26; }
static std::vector<U> means(const Named& n, char k) {
  std::vector<U> r;
  if (n.single) { for (int i = 0; i < 41; i++) if (n.keys[i] == k) r.push_back(comps[i]); }
  else if (!n.pinyin) for (int i = 0; i < 41; i++) { std::string e = doubles(n)[i]; if (e.back() == k) r.push_back(atoi(e.c_str())); }
  return r;
}
static U put(U x, U y) { for (U m : {0x1fu, 0x60u, 0x780u, 0x3800u}) if (y & m) x = (x & ~m) | (y & m); return x; }
static U drop(U x) { for (U m : {0x3800u, 0x780u, 0x60u, 0x1fu}) if (x & m) return x & ~m; return x; }
static int count(U x) { return !!(x & 0x1f) + !!(x & 0x60) + !!(x & 0x780) + !!(x & 0x3800); }
static U raw(const BPMF& s) { return s.consonantComponent() | s.middleVowelComponent() | s.vowelComponent() | s.toneMarkerComponent(); }
static bool good(U x) { return (x & 31) <= 21 && (x >> 7 & 15) <= 13 && (x >> 11) <= 4; }
struct M {
  BopomofoReadingBuffer b; Named n; U x = 0; std::string py, log;
  M(const Named& k) : b(k.l), n(k), log(k.n) {}
  void agree(const char* what) {
    U y = raw(b.syllable());
    CHECK(good(y) && b.syllable() == BPMF((BPMF::Component)y), std::string(what) + ": not a syllable, " + std::to_string(y));
    CHECK(b.isEmpty() == (y == 0), std::string(what) + ": isEmpty is " + (b.isEmpty() ? "true" : "false") + " for " + std::to_string(y));
    CHECK(b.hasToneMarker() == ((y & 0x3800) != 0), std::string(what) + ": hasToneMarker");
    CHECK(b.hasToneMarkerOnly() == ((y & 0x3800) != 0 && !(y & 0x7ff)), std::string(what) + ": hasToneMarkerOnly");
    std::string q; for (U m : {0x1fu, 0x60u, 0x780u, 0x3800u}) for (int i = 0; i < 41; i++) if ((y & m) && comps[i] == (y & m)) q += STD[i];
    CHECK(b.standardLayoutQueryString() == q, std::string(what) + ": query string is " + b.standardLayoutQueryString() + ", expected " + q);
    CHECK(b.composedString() == (n.pinyin ? py : b.syllable().composedString()), std::string(what) + ": shows " + rt::show(b.composedString()));
  }
  void key(char k) {
    log += std::string(" ") + rt::show(std::string(1, k)); rt::begin(log);
    char lk = (unsigned char)k < 128 ? tolower(k) : k;
    std::vector<U> m = means(n, k);
    bool ok = n.pinyin ? (lk >= 'a' && lk <= 'z' ? py.empty() || !(py.back() >= '2' && py.back() <= '5') : !py.empty() && lk >= '2' && lk <= '5') : !m.empty();
    CHECK(b.isValidKey(k) == ok, "isValidKey is " + std::string(ok ? "false" : "true"));
    CHECK(b.combineKey(k) == ok, "combineKey gives " + std::string(ok ? "false" : "true"));
    U y = raw(b.syllable());
    if (ok && n.pinyin) py += lk;
    if (!ok) CHECK(y == x, "a refused key changes the syllable from " + std::to_string(x) + " to " + std::to_string(y));
    else CHECK(y != 0, "nothing is left after an accepted key");
    if (ok && n.single) CHECK(y == put(x, m[0]), "syllable is " + std::to_string(y) + ", expected " + std::to_string(put(x, m[0])));
    if (ok && !n.single && !n.pinyin) for (U mask : {0x1fu, 0x60u, 0x780u, 0x3800u}) if (U c = y & mask) {
      // every component comes from the key or from the key of an earlier component
      bool f = false; std::vector<U> all = m; for (U mm : {0x1fu, 0x60u, 0x780u, 0x3800u}) if (x & mm) for (int i = 0; i < 41; i++) if ((U)atoi(doubles(n)[i]) == (x & mm)) { auto v = means(n, std::string(doubles(n)[i]).back()); all.insert(all.end(), v.begin(), v.end()); }
      for (U a : all) f = f || a == c || (n.keys[0] == 'H' && c == 12 && a == 9 && (y & 0x20));
      CHECK(f, "component " + std::to_string(c) + " belongs to no key");
    }
    x = y; agree("after the key");
  }
  void back() {
    log += " <-"; rt::begin(log); b.backspace();
    U y = raw(b.syllable());
    if (n.pinyin) { if (!py.empty()) py.pop_back(); CHECK(!py.empty() || y == 0, "all letters are erased, the syllable is " + std::to_string(y)); }
    else {
      if (n.single) CHECK(y == drop(x), "syllable is " + std::to_string(y) + ", expected " + std::to_string(drop(x)));
      CHECK(x == 0 ? y == 0 : count(y) < count(x), "nothing was erased: " + std::to_string(x) + " to " + std::to_string(y));
    }
    x = y; agree("after erasing");
  }
  void clear() { log += " clear"; rt::begin(log); b.clear(); x = 0; py = ""; CHECK(b.isEmpty(), "not empty"); agree("after clearing"); }
  void layout(const Named& k) { log += std::string(" layout ") + k.n; rt::begin(log); b.setKeyboardLayout(k.l); if (k.pinyin) py = ""; n = k; CHECK(b.keyboardLayout() == k.l, "layout"); CHECK(raw(b.syllable()) == x, "the syllable changes with the layout"); agree("after the layout is set"); }
};
int main(int argc, char** argv) {
  rt::init(argc, argv);
  const Named ls[] = {{L::StandardLayout(), "Standard", STD, true, false}, {L::ETenLayout(), "ETen", ETEN, true, false}, {L::IBMLayout(), "IBM", IBM, true, false},
                      {L::HsuLayout(), "Hsu", "H", false, false}, {L::ETen26Layout(), "ETen26", "E", false, false}, {L::HanyuPinyinLayout(), "HanyuPinyin", "", false, true}};
  for (auto& n : ls) {
    for (int k = 1; k < 256; k++) { M m(n); m.key((char)k); m.back(); m.back(); }
    if (n.pinyin) continue;
    rt::allwords("bjexgalnfd", 3, [&](const std::string& s) { M m(n); for (char c : s) m.key(c); while (m.x) m.back(); return true; });
    for (int i = 0; i < 41; i++) for (int j = 0; j < 41; j++) { M m(n); char a = n.single ? n.keys[i] : std::string(doubles(n)[i]).back(), c = n.single ? n.keys[j] : std::string(doubles(n)[j]).back(); m.key(a); m.key(c); m.back(); m.key(c); m.back(); m.back(); }
  }
  while (rt::more()) {
    M m(ls[rt::below(6)]);
    for (size_t k = 1 + rt::below(14); k--;) {
      if (rt::chance(14)) m.back(); else if (rt::chance(3)) m.clear(); else if (rt::chance(5)) m.layout(ls[rt::below(6)]);
      else if (rt::chance(8)) m.key((char)rt::below(256));
      else if (m.n.pinyin) m.key("abcdefghijklmnopqrstuvwxyz12345ZAU"[rt::below(34)]); else m.key(m.n.single ? m.n.keys[rt::below(41)] : std::string(doubles(m.n)[rt::below(41)]).back());
    }
    m.log += ", all erased"; rt::begin(m.log);
    for (int i = 0; i < 20; i++) m.b.backspace();
    CHECK(m.b.isEmpty() && m.b.composedString().empty(), "something is left after erasing");
  }
  return rt::done();
}
