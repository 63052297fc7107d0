// C01: civil date <-> Modified Julian Day
#include "../lib.hpp"
using namespace lib;
namespace {
void check_date(i64 y, int m, int d, i64 want) {
  const year Y{static_cast<int>(y)};
  const month M{m};
  const day_of_month D{d};
  EQ(u(cal2mjd(Y, M, D)), want, "day number of the date");
  EQ(u(modified_julian_day(Y, M, D)), want, "day number built from the date");
  const ymd_date b = modified_julian_day{want}.to_ymd();
  REQ(u(b.__year) == y && u(b.__month) == m && u(b.__dom) == d, "day %lld reads back as %ld-%ld-%ld, want %lld-%d-%d",
      static_cast<long long>(want), u(b.__year), u(b.__month), u(b.__dom), static_cast<long long>(y), m, d);
  REQ(b.is_valid(), "day %lld reads back as an invalid date", static_cast<long long>(want));
}
void next_day(i64& y, int& m, int& d) {
  if (++d > model::dim(y, m)) { d = 1; if (++m > 12) { m = 1; ++y; } }
}
bool edge(i64 y, int m, int d) {
  return m <= 3 || d == 1 || d == model::dim(y, m) || y < 1900 || y > 2099;
}
}
Prop pbt::make_prop() {
  Prop p{"C01", {}};
  { Sub s;
    s.name = "date"; s.rule = "date in January-March, at a month end, or outside 1900-2099";
    s.head = {P_year("y", -4800), Param{"m", 1, 12}, Param{"d", 1, 31}};
    s.weight = 40;
    s.eval = [](const Args& a, Ctx& c) {
      i64 y = a[0]; int m = static_cast<int>(a[1]);
      if (y == -4800 && m < 3) m = 3;
      int d = static_cast<int>(model::clampi(a[2], 1, model::dim(y, m)));
      const i64 n = model::ymd2mjd(y, m, d);
      check_date(y, m, d, n);
      c.nontrivial(edge(y, m, d));
      c.label_if(m == 2 && d == 29, "Feb 29");
      c.label_if(y % 100 == 0, "century year");
      c.label_if(y < 0, "negative year");
      // the next date is the next day
      if (y < 2147483647 || m < 12 || d < 31) {
        next_day(y, m, d);
        check_date(y, m, d, n + 1);
      }
    };
    p.subs.push_back(s); }
  { Sub s;
    s.name = "day"; s.rule = "day outside 1900-2099 or in the first 60 days or last day of a year";
    s.head = {Param{"mjd", model::kMinMjd, model::kMaxMjd, P_mjd().pts, 25}};
    s.weight = 40;
    s.eval = [](const Args& a, Ctx& c) {
      const model::YMD w = model::mjd2ymd(a[0]);
      check_date(w.y, w.m, w.d, a[0]);
      c.nontrivial(edge(w.y, w.m, w.d));
      c.label_if(w.y > 9999, "year > 9999");
      c.label_if(w.y < 1600, "year < 1600");
      EQ(u(datetime<seconds>(modified_julian_day{a[0]}, seconds{0}).as_ymd().__dom), w.d, "date view, day");
      const double jd = modified_julian_day{a[0]}.to_julian_day();
      REQ(jd == static_cast<double>(a[0]) + 2400000.5, "Julian Day of %lld is %.10g", static_cast<long long>(a[0]), jd);
    };
    s.enum_n = [](bool th) { return th ? model::ymd2mjd(40000, 1, 1) - model::kMinMjd : model::ymd2mjd(9999, 12, 31) - model::kMinMjd; };
    s.enum_at = [](i64 i, i64* v) { v[0] = model::kMinMjd + i; };
    p.subs.push_back(s); }
  { Sub s;
    s.name = "order"; s.rule = "the two dates differ by at most a year";
    s.head = {P_year("y", -4799, 2000000000), Param{"m", 1, 12}, Param{"d", 1, 31}, Param{"dy", -5, 5}, Param{"m2", 1, 12}, Param{"d2", 1, 31}};
    s.weight = 20;
    s.eval = [](const Args& a, Ctx& c) {
      const i64 y1 = a[0], y2 = std::max<i64>(-4799, a[0] + (a[3] % 3));
      const int m1 = static_cast<int>(a[1]), m2 = static_cast<int>(a[4]);
      const int d1 = static_cast<int>(model::clampi(a[2], 1, model::dim(y1, m1))), d2 = static_cast<int>(model::clampi(a[5], 1, model::dim(y2, m2)));
      const auto j1 = cal2mjd(year(static_cast<int>(y1)), month(m1), day_of_month(d1)), j2 = cal2mjd(year(static_cast<int>(y2)), month(m2), day_of_month(d2));
      const bool lt = std::make_tuple(y1, m1, d1) < std::make_tuple(y2, m2, d2), eq = std::make_tuple(y1, m1, d1) == std::make_tuple(y2, m2, d2);
      REQ((j1 < j2) == lt && (j1 == j2) == eq, "order of the dates and of their day numbers differ: %ld %ld", u(j1), u(j2));
      c.nontrivial(std::abs(y1 - y2) <= 1);
    };
    p.subs.push_back(s); }
  return p;
}
