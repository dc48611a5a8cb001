// C11: numerals read back as the number typed; Suzhou numerals show the digits typed.
#include <map>
#include "rt.h"
#include "ChineseNumbers.h"
#include "SuzhouNumbers.h"
typedef std::vector<std::string> VS;
static VS chars(const std::string& s) { VS o; for (size_t i = 0; i < s.size();) { unsigned char c = s[i]; size_t n = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4; o.push_back(s.substr(i, n)); i += n; } return o; }
static int find(const VS& v, const std::string& s) { for (size_t i = 0; i < v.size(); i++) if (v[i] == s) return (int)i; return -1; }
static const VS LD = {"〇","一","二","三","四","五","六","七","八","九"}, UD = {"零","壹","貳","參","肆","伍","陸","柒","捌","玖"};
static const VS LP = {"","十","百","千"}, UP = {"","拾","佰","仟"};
static const VS HP = {"","萬","億","兆","京","垓","秭","穰","溝","澗","正","載"};
static const VS V = {"〇","〡","〢","〣","〤","〥","〦","〧","〨","〩"}, H = {"〇","一","二","三"};
static const VS PN = {"","十","百","千","万","十万","百万","千万","億","十億","百億","千億","兆","十兆","百兆","千兆","京","十京","百京","千京","垓","十垓","百垓","千垓","秭","十秭","百秭","千秭","穰","十穰","百穰","千穰"};
static std::string trim(std::string s) { size_t i = 0; while (i < s.size() && s[i] == '0') i++; return s.substr(i); }
static std::string rtrim(std::string s) { while (!s.empty() && s.back() == '0') s.pop_back(); return s; }
// reads a numeral: place-value digits of the integer part
static std::string readInt(const VS& t, bool up) {
  const VS &D = up ? UD : LD, &P = up ? UP : LP;
  std::string dig(48, '0'), sec(4, '0'); int pend = -1, lastH = 12, lastP = 4; bool any = false, zero = false;
  if (t.size() == 1 && t[0] == D[0]) return "";
  CHECK(!t.empty(), "empty numeral");
  for (size_t i = 0; i < t.size(); i++) {
    int d = find(D, t[i]), p = find(P, t[i]), h = find(HP, t[i]);
    if (d == 0) { CHECK(i > 0, "leading zero"); CHECK(!zero && pend < 0, "zero out of place"); CHECK(i + 1 < t.size() && find(D, t[i + 1]) > 0, "zero not before a digit"); zero = true; }
    else if (d > 0) { CHECK(pend < 0, "two digits in a row"); pend = d; zero = false; }
    else if (p > 0) { CHECK(pend > 0, "place without a digit"); CHECK(p < lastP, "places out of order"); lastP = p; sec[3 - p] = '0' + pend; pend = -1; any = true; }
    else if (h > 0) {
      if (pend > 0) { sec[3] = '0' + pend; pend = -1; any = true; }
      CHECK(any, "section mark without a section"); CHECK(h < lastH, "sections out of order"); lastH = h;
      dig.replace(48 - 4 * (h + 1), 4, sec); sec = "0000"; any = false; lastP = 4;
    } else CHECK(false, "unknown word " + t[i]);
  }
  if (pend > 0) { sec[3] = '0' + pend; any = true; }
  if (any) dig.replace(44, 4, sec);
  return trim(dig);
}
static void one(const std::string& ip, const std::string& dp, const std::string& unit) {
  std::string ti = trim(ip), td = rtrim(dp);
  if (ti.size() <= 48) for (int up = 0; up < 2; up++) {
    rt::begin("ChineseNumbers::Generate(" + rt::show(ip) + ", " + rt::show(dp) + (up ? ", UPPERCASE)" : ", LOWERCASE)"));
    std::string r = ChineseNumbers::Generate(ip, dp, up ? ChineseNumbers::ChineseNumberCase::UPPERCASE : ChineseNumbers::ChineseNumberCase::LOWERCASE);
    VS c = chars(r); size_t k = find(c, "點") < 0 ? c.size() : find(c, "點");
    std::string got = readInt(VS(c.begin(), c.begin() + k), up); CHECK(got == ti, r + " reads as " + got);
    std::string dec; for (size_t i = k + 1; i < c.size(); i++) { int d = find(up ? UD : LD, c[i]); CHECK(d >= 0, "not a digit: " + c[i]); dec += '0' + d; }
    CHECK(dec == td, r + " has decimals " + dec); CHECK(k == c.size() || !td.empty(), "point without decimals");
    // gaps: a zero between two digits of the number exactly when a zero separates them (within a section or over empty sections)
    size_t zeros = 0; for (size_t i = 0; i < k; i++) if (c[i] == (up ? UD : LD)[0]) zeros++;
    size_t want = 0; std::string f((4 - ti.size() % 4) % 4, ' '); f += ti; bool z = false, started = false;
    for (size_t r4 = 0; r4 < f.size(); r4 += 4) {
      if (f.substr(r4, 4) == "0000") { z = true; continue; }
      for (size_t i = r4; i < r4 + 4; i++) { if (f[i] == ' ') continue; if (f[i] == '0') z = true; else { if (z && started) want++; z = false; started = true; } }
      z = false;
    }
    if (ti.empty()) want = 1;
    CHECK(zeros == want, r + ": zeros written " + std::to_string(zeros) + ", expected " + std::to_string(want));
  }
  if (ti.size() <= 32) for (int pv = 0; pv < 2; pv++) {
    rt::begin("SuzhouNumbers::Generate(" + rt::show(ip) + ", " + rt::show(dp) + ", " + rt::show(unit) + (pv ? ", true)" : ", false)"));
    std::string r = SuzhouNumbers::Generate(ip, dp, unit, pv);
    std::string sh = td.empty() ? rtrim(ti) : ti; size_t place = ti.empty() ? 0 : ti.size() - 1; if (sh.empty()) sh = "0"; std::string j = sh + td, w; bool v = pv;
    if (j.size() == 1 && place == 1 && j[0] >= '1' && j[0] <= '3') w = VS{"〸","〹","〺"}[j[0] - '1'];
    else {
      for (char ch : j) { int d = ch - '0'; if (d >= 1 && d <= 3) { w += v ? V[d] : H[d]; v = !v; } else { w += V[d]; v = pv; } }
      if (j.size() > 1) w += "\n";
      w += PN[place];
    }
    CHECK(r == w + unit, "got " + rt::show(r) + " expected " + rt::show(w + unit));
  }
}
static std::string rnds(size_t n, int zp) { std::string s; for (size_t i = 0; i < n; i++) s += rt::chance(zp) ? '0' : '1' + rt::below(rt::chance(50) ? 3 : 9); return s; }
int main(int argc, char** argv) {
  rt::init(argc, argv);
  for (int n = 0; n < 13000; n++) one(std::to_string(n), "", "");
  for (int l = 0; l <= 48; l++) for (int k = 0; k < 12; k++) { std::string s(l, '0'); if (l && k < 4) s[0] = '1' + k; if (l && k >= 4 && k < 8) s[l - 1] = '0' + k; if (k >= 8) s = rnds(l, 90); one(s, "", "u"); one("00" + s, k & 1 ? "0" : "50", "斤"); }
  // every pattern of zeros over four sections
  for (int m = 0; m < 65536; m++) { std::string s; for (int i = 0; i < 16; i++) s += (m >> i) & 1 ? '1' + (i * 7 + m) % 9 : '0'; one(s, "", ""); }
  while (rt::more()) one(rnds(rt::below(rt::chance(80) ? 20 : 49), rt::pick(std::vector<int>{0, 20, 60, 85, 97})), rnds(rt::below(rt::chance(80) ? 6 : 20), rt::pick(std::vector<int>{0, 30, 80, 100})), rt::chance(50) ? "" : rt::pick(VS{"元", "單位", "x"}));
  return rt::done();
}
