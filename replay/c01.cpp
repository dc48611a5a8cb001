// C01: UTF8Helper against a table-driven decoder (Unicode Standard, Table 3-7).
#include "rt.h"
#include "UTF8Helper.h"
static size_t len(const std::string& s, size_t i) {
  auto at = [&](size_t k) -> int { return i + k < s.size() ? (unsigned char)s[i + k] : -1; };
  struct R { int a, b, lo, hi; size_t n; };
  static const R T[] = {{0, 0x7f, 0, 0, 1}, {0xC2, 0xDF, 0x80, 0xBF, 2}, {0xE0, 0xE0, 0xA0, 0xBF, 3}, {0xE1, 0xEC, 0x80, 0xBF, 3}, {0xED, 0xED, 0x80, 0x9F, 3},
                        {0xEE, 0xEF, 0x80, 0xBF, 3}, {0xF0, 0xF0, 0x90, 0xBF, 4}, {0xF1, 0xF3, 0x80, 0xBF, 4}, {0xF4, 0xF4, 0x80, 0x8F, 4}};
  for (auto& r : T) if (at(0) >= r.a && at(0) <= r.b) {
    if (r.n == 1) return 1;
    if (at(1) < r.lo || at(1) > r.hi) return 0;
    for (size_t k = 2; k < r.n; k++) if (at(k) < 0x80 || at(k) > 0xBF) return 0;
    return r.n;
  }
  return 0;
}
static void one(const std::string& s0) {
  rt::begin("text=" + rt::show(s0));
  std::string s(s0); s.shrink_to_fit();
  std::vector<std::string> w; size_t i = 0;
  while (i < s.size()) { size_t n = len(s, i); if (!n) break; w.push_back(s.substr(i, n)); i += n; }
  auto sp = McBopomofo::Split(s);
  CHECK(sp == w, "Split: " + std::to_string(sp.size()) + " pieces, expected " + std::to_string(w.size()));
  size_t n = McBopomofo::CodePointCount(s);
  CHECK(n == w.size(), "CodePointCount: " + std::to_string(n) + ", expected " + std::to_string(w.size()));
  std::vector<size_t> ks; for (size_t k = 0; k <= w.size() + 1 && k < 12; k++) ks.push_back(k);
  ks.push_back(w.size()); ks.push_back(~(size_t)0); ks.push_back(~(size_t)0 - 1);
  for (size_t k : ks) {
    std::string p; for (size_t j = 0; j < w.size() && j < k; j++) p += w[j];
    std::string g = McBopomofo::SubstringToCodePoints(s, k);
    CHECK(g == p, "SubstringToCodePoints(" + std::to_string(k) + ") = " + rt::show(g) + ", expected " + rt::show(p));
    std::string c = McBopomofo::GetCodePoint(s, k);
    if (k < w.size()) CHECK(c == w[k], "GetCodePoint(" + std::to_string(k) + ") = " + rt::show(c) + ", expected " + rt::show(w[k]));
    else CHECK(c.empty() || (!w.empty() && c == w.back()), "GetCodePoint past the end = " + rt::show(c));
  }
}
int main(int argc, char** argv) {
  rt::init(argc, argv);
  std::string al("\x00\x41\x7f\x80\x8f\x90\x9f\xa0\xbf\xc0\xc1\xc2\xdf\xe0\xe1\xec\xed\xee\xef\xf0\xf1\xf3\xf4\xf5\xf7\xf8\xfb\xfc\xfd\xfe\xff", 31);
  for (int a = 0; a < 256; a++) for (int b = 0; b < 256; b++) { std::string s{(char)a, (char)b}; one(s); }
  rt::allwords(al, 4, [](const std::string& s) { one(s); return rt::within(0.5); });
  while (rt::more()) {
    std::string s;
    size_t n = rt::below(8);
    for (size_t i = 0; i < n; i++) {
      if (rt::chance(60)) {
        static const std::vector<std::string> G{"a", "\xc2\x80", "\xdf\xbf", "\xe0\xa0\x80", "\xed\x9f\xbf", "\xee\x80\x80", "\xe4\xb8\xad", "\xf0\x90\x80\x80", "\xf4\x8f\xbf\xbf", "\xf0\x9f\x98\x80"};
        s += rt::pick(G);
      } else if (rt::chance(50)) { s += (char)(0x80 + rt::below(128)); size_t k = rt::below(8); while (k--) s += (char)(0x80 + rt::below(64)); }
      else s += rt::word(al, 6);
    }
    if (rt::chance(30) && !s.empty()) s.resize(rt::below(s.size()));
    one(s);
  }
  return rt::done();
}
