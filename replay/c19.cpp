// C19: macro expansion for arbitrary years (the clock is replaced) and arbitrary text.
#include <unicode/calendar.h>
#include <unicode/gregocal.h>
#include <set>
#include "rt.h"
#include "InputMacro.h"
static UDate now_;
UDate icu::Calendar::getNow() { return now_; }
using namespace McBopomofo;
static const char* const G[] = {"甲","乙","丙","丁","戊","己","庚","辛","壬","癸"};
static const char* const Z[] = {"子","丑","寅","卯","辰","巳","午","未","申","酉","戌","亥"};
static const char* const EL[] = {"木","木","火","火","土","土","金","金","水","水"};
static const char* const A[] = {"鼠","牛","虎","兔","龍","蛇","馬","羊","猴","雞","狗","豬"};
static const std::vector<std::string> N = {"MACRO@DATE_TODAY2_WEEKDAY", "MACRO@DATE_TODAY_MEDIUM", "MACRO@DATE_TODAY_MEDIUM_CHINESE", "MACRO@DATE_TODAY_MEDIUM_JAPANESE", "MACRO@DATE_TODAY_MEDIUM_ROC", "MACRO@DATE_TODAY_SHORT", "MACRO@DATE_TODAY_WEEKDAY", "MACRO@DATE_TODAY_WEEKDAY_JAPANESE", "MACRO@DATE_TODAY_WEEKDAY_SHORT", "MACRO@DATE_TOMORROW2_WEEKDAY", "MACRO@DATE_TOMORROW_MEDIUM", "MACRO@DATE_TOMORROW_MEDIUM_CHINESE", "MACRO@DATE_TOMORROW_MEDIUM_JAPANESE", "MACRO@DATE_TOMORROW_MEDIUM_ROC", "MACRO@DATE_TOMORROW_SHORT", "MACRO@DATE_TOMORROW_WEEKDAY", "MACRO@DATE_TOMORROW_WEEKDAY_JAPANESE", "MACRO@DATE_TOMORROW_WEEKDAY_SHORT", "MACRO@DATE_YESTERDAY2_WEEKDAY", "MACRO@DATE_YESTERDAY_MEDIUM", "MACRO@DATE_YESTERDAY_MEDIUM_CHINESE", "MACRO@DATE_YESTERDAY_MEDIUM_JAPANESE", "MACRO@DATE_YESTERDAY_MEDIUM_ROC", "MACRO@DATE_YESTERDAY_SHORT", "MACRO@DATE_YESTERDAY_WEEKDAY", "MACRO@DATE_YESTERDAY_WEEKDAY_JAPANESE", "MACRO@DATE_YESTERDAY_WEEKDAY_SHORT", "MACRO@LAST_YEAR_CHINESE_ZODIAC", "MACRO@LAST_YEAR_GANZHI", "MACRO@LAST_YEAR_JAPANESE", "MACRO@LAST_YEAR_PLAIN", "MACRO@LAST_YEAR_PLAIN_WITH_ERA", "MACRO@LAST_YEAR_ROC", "MACRO@NEXT_YEAR_CHINESE_ZODIAC", "MACRO@NEXT_YEAR_GANZHI", "MACRO@NEXT_YEAR_JAPANESE", "MACRO@NEXT_YEAR_PLAIN", "MACRO@NEXT_YEAR_PLAIN_WITH_ERA", "MACRO@NEXT_YEAR_ROC", "MACRO@THIS_YEAR_CHINESE_ZODIAC", "MACRO@THIS_YEAR_GANZHI", "MACRO@THIS_YEAR_JAPANESE", "MACRO@THIS_YEAR_PLAIN", "MACRO@THIS_YEAR_PLAIN_WITH_ERA", "MACRO@THIS_YEAR_ROC", "MACRO@TIMEZONE_GENERIC_SHORT", "MACRO@TIMEZONE_STANDARD", "MACRO@TIME_NOW_MEDIUM", "MACRO@TIME_NOW_SHORT"};
int main(int argc, char** argv) {
  rt::init(argc, argv);
  icu::TimeZone::adoptDefault(icu::TimeZone::createTimeZone("Asia/Taipei"));
  InputMacroController c;
  std::set<std::string> names(N.begin(), N.end());
  int k = 0;
  while (rt::more()) {
    // a year first, then text
    int year = k < 400 ? 1800 + k : k < 600 ? k - 595 : rt::chance(80) ? 4 + rt::below(9996) : 4 + rt::below(200000);
    k++;
    if (year < 4) year = 4 + k % 130;
    UErrorCode st = U_ZERO_ERROR; icu::GregorianCalendar g(icu::TimeZone::createDefault(), st); g.clear();
    // every hour and every day counts, the first and last of the year most of all
    if (rt::chance(25)) g.set(year, 0, 1, rt::below(12), rt::below(60), 0); else if (rt::chance(30)) g.set(year, 11, 31, 12 + rt::below(12), rt::below(60), 0); else g.set(year, rt::below(12), 1 + rt::below(28), rt::below(24), 0, 0);
    now_ = g.getTime(st);
    for (int off = -1; off <= 1; off++) {
      int y = year + off; if (y < 4) continue;
      std::string p = off < 0 ? "LAST" : off ? "NEXT" : "THIS"; int i = (y - 4) % 60;
      rt::begin("year " + std::to_string(year) + " MACRO@" + p + "_YEAR_GANZHI");
      std::string r = c.handle("MACRO@" + p + "_YEAR_GANZHI"); CHECK(r == std::string(G[i % 10]) + Z[i % 12] + "年", "got " + r);
      rt::begin("year " + std::to_string(year) + " MACRO@" + p + "_YEAR_CHINESE_ZODIAC");
      r = c.handle("MACRO@" + p + "_YEAR_CHINESE_ZODIAC"); CHECK(r == std::string(EL[i % 10]) + A[i % 12] + "年", "got " + r);
    }
    for (int t = 0; t < 30; t++) {
      std::string s = rt::chance(50) ? rt::pick(N) : rt::word("MACRO@_YE\xe4\xbd\xa0 ", 8);
      if (rt::chance(90)) switch (rt::below(7)) {
        case 0: if (!s.empty()) s.pop_back(); break;
        case 1: s += rt::pick(std::vector<std::string>{" ", "S", "_", "\n", "x", std::string(1, 0)}); break;
        case 2: if (!s.empty()) s[rt::below(s.size())] ^= 0x20; break;
        case 3: s = " " + s; break;
        case 4: if (s.size() > 6) s.erase(0, 6); break;
        case 5: s += rt::pick(N); break;
        default: if (!s.empty()) s.erase(rt::below(s.size()), 1); break;
      }
      if (names.count(s)) continue;
      rt::begin("text " + rt::show(s)); std::string r = c.handle(s);
      CHECK(r == s, "text that is no macro became " + rt::show(r));
    }
  }
  for (auto& n : N) { rt::begin("macro " + n); CHECK(!c.handle(n).empty(), "a macro expands to nothing"); }
  return rt::done();
}
