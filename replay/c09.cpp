// C09: every syllable to text and back, every component added to every syllable, the two parsers on generated text.
#include "rt.h"
#include "Mandarin/Mandarin.h"
using Formosa::Mandarin::BopomofoSyllable;
typedef BopomofoSyllable S;
typedef unsigned U;
// the Bopomofo letters in Unicode order
static std::string letter(U k, U i) {  // kind 0 consonant, 1 medial, 2 vowel, 3 tone
  static const char* tones[] = {"", "\xcb\x8a", "\xcb\x87", "\xcb\x8b", "\xcb\x99"};
  if (!i) return "";
  if (k == 3) return tones[i];
  return std::string("\xe3\x84") + (char)((k == 0 ? 0x84 : k == 1 ? 0xA6 : 0x99) + i);
}
static U enc(U c, U m, U v, U t) { return c | m << 5 | v << 7 | t << 11; }
static U raw(const S& s) { return s.consonantComponent() | s.middleVowelComponent() | s.vowelComponent() | s.toneMarkerComponent(); }
static bool good(U x) { return (x & 31) <= 21 && (x >> 7 & 15) <= 13 && (x >> 11) <= 4; }
static U put(U x, U y) { for (U m : {0x1fu, 0x60u, 0x780u, 0x3800u}) if (y & m) x = (x & ~m) | (y & m); return x; }
static U front(const std::string& s, size_t i, size_t& n) {
  for (U k = 0; k < 4; k++) for (U j = 1; j <= (k == 0 ? 21u : k == 1 ? 3u : k == 2 ? 13u : 4u); j++) {
    std::string l = letter(k, j);
    if (s.compare(i, l.size(), l) == 0) { n = l.size(); return j << (k == 0 ? 0 : k == 1 ? 5 : k == 2 ? 7 : 11); }
  }
  return 0;
}
static void text(const std::string& s) {
  rt::begin("FromComposedString(" + rt::show(s) + ")");
  U x = 0; size_t n = 0;
  for (size_t i = 0; i < s.size();) { U c = front(s, i, n); if (!c) break; x = put(x, c); i += n; }
  std::string* h = new std::string(s); h->shrink_to_fit();
  S r = S::FromComposedString(*h);
  delete h;
  CHECK(raw(r) == x, "syllable is " + std::to_string(raw(r)) + ", its letters say " + std::to_string(x));
  CHECK(r == S((S::Component)x), "bits outside the four kinds are set");
}
static void pinyin(const std::string& s) {
  rt::begin("FromHanyuPinyin(" + rt::show(s) + ")");
  S r = S::FromHanyuPinyin(s);
  CHECK(good(raw(r)) && r == S((S::Component)raw(r)), "not a syllable: " + std::to_string(raw(r)));
  CHECK(S::FromComposedString(r.composedString()) == r, "text of the parsed syllable does not give it back");
}
int main(int argc, char** argv) {
  rt::init(argc, argv);
  for (U c = 0; c <= 21; c++) for (U m = 0; m <= 3; m++) for (U v = 0; v <= 13; v++) for (U t = 0; t <= 4; t++) {
    U x = enc(c, m, v, t);
    S s((S::Component)x);
    rt::begin("syllable " + std::to_string(x));
    std::string w = letter(0, c) + letter(1, m) + letter(2, v) + letter(3, t);
    CHECK(s.composedString() == w, "text is " + rt::show(s.composedString()) + ", expected " + rt::show(w));
    CHECK(S::FromComposedString(w) == s, "text and back gives " + std::to_string(raw(S::FromComposedString(w))));
    CHECK(s.isEmpty() == (x == 0) && s.hasConsonant() == (c != 0) && s.hasMiddleVowel() == (m != 0) && s.hasVowel() == (v != 0) && s.hasToneMarker() == (t != 0), "component tests");
    for (U k = 0; k < 4; k++) for (U j = 0; j <= (k == 0 ? 21u : k == 1 ? 3u : k == 2 ? 13u : 4u); j++) {
      U y = j << (k == 0 ? 0 : k == 1 ? 5 : k == 2 ? 7 : 11);
      S a = s; a += S((S::Component)y);
      CHECK(a == S((S::Component)put(x, y)) && s + S((S::Component)y) == a, "adding component " + std::to_string(y) + " gives " + std::to_string(raw(a)));
    }
  }
  const std::vector<std::string> py = {"b", "zh", "ch", "sh", "r", "z", "c", "s", "y", "w", "yu", "you", "i", "u", "v", "a", "o", "e", "ng", "n", "ung", "ong", "iong", "ien", "uei", "err", "1", "2", "5", "j", "Q", "\xc3\xbc", "\xff", " ", "f", "ue"};
  rt::allwords("zhiuevngy25", 4, [&](const std::string& s) { pinyin(s); return rt::within(0.3); });
  while (rt::more()) {
    std::string s;
    for (size_t n = rt::below(7); n--;) {
      if (rt::chance(75)) { U k = rt::below(4); s += letter(k, 1 + rt::below(k == 0 ? 21 : k == 1 ? 3 : k == 2 ? 13 : 4)); }
      else s += rt::word("\x80\xe3\x84\xcb\x85\xf0\x7f\xa9\x8a", 3);
    }
    if (rt::chance(30) && !s.empty()) s.pop_back();
    text(s);
    U x = enc(rt::below(22), rt::below(4), rt::below(14), rt::below(5)), y = enc(rt::below(22), rt::below(4), rt::below(14), rt::below(5));
    rt::begin("adding " + std::to_string(y) + " to " + std::to_string(x));
    S a((S::Component)x); a += S((S::Component)y);
    CHECK(a == S((S::Component)put(x, y)) && S((S::Component)x) + S((S::Component)y) == a, "gives " + std::to_string(raw(a)));
    std::string p;
    for (size_t n = rt::below(6); n--;) p += rt::chance(85) ? rt::pick(py) : rt::word("abcdefghijklmnopqrstuvwxyz12345Z", 2);
    pinyin(p);
  }
  return rt::done();
}
