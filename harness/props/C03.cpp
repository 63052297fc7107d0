// C03: calendar date <-> day-of-year within a year
#include "../lib.hpp"
using namespace lib;
namespace {
void check(i64 y, int m, int d, int doy) {
  const ymd_date a{year(static_cast<int>(y)), month(m), day_of_month(d)};
  const ydoy_date b{year(static_cast<int>(y)), day_of_year(doy)};
  const ydoy_date ab = a.to_ydoy();
  REQ(u(ab.__year) == y && u(ab.__doy) == doy, "%lld-%d-%d converts to %ld/%ld, want day %d", static_cast<long long>(y), m, d, u(ab.__year), u(ab.__doy), doy);
  const ymd_date ba = b.to_ymd();
  REQ(u(ba.__year) == y && u(ba.__month) == m && u(ba.__dom) == d, "%lld/%d converts to %ld-%ld-%ld, want %d-%d", static_cast<long long>(y), doy, u(ba.__year), u(ba.__month), u(ba.__dom), m, d);
  REQ(a.is_valid() && b.is_valid(), "valid date called invalid");
  if (y >= -4799) {
    EQ(u(cal2mjd(a.__year, a.__month, a.__dom)), u(ydoy2mjd(b.__year, b.__doy)), "day number by calendar date and by day-of-year");
    const ymd_date v = ydoy2mjd(b.__year, b.__doy).to_ymd();
    REQ(u(v.__month) == m && u(v.__dom) == d && u(v.__year) == y, "through the day number: %ld-%ld-%ld", u(v.__year), u(v.__month), u(v.__dom));
  }
}
}
Prop pbt::make_prop() {
  Prop p{"C03", {}};
  const i64 ylo = -2147483647;
  { Sub s;
    s.name = "doy"; s.rule = "leap or century year, or a day within 2 of a month end";
    s.head = {P_year("y", ylo), Param{"doy", 1, 366, {1, 31, 32, 59, 60, 61, 91, 121, 343, 344, 365, 366, 334, 335}, 30}};
    s.weight = 50;
    s.eval = [](const Args& a, Ctx& c) {
      const i64 y = a[0];
      const int doy = static_cast<int>(std::min<i64>(a[1], model::days_in_year(y)));
      const model::YMD w = model::yd2ymd(y, doy);
      check(y, w.m, w.d, doy);
      c.nontrivial(model::leap(y) || y % 100 == 0 || w.d <= 2 || w.d >= model::dim(y, w.m) - 1);
      c.label_if(model::leap(y), "leap year");
      c.label_if(y < 0, "negative year");
      c.label_if(doy == 366, "day 366");
    };
    // 3000 years on both sides of year 0, all days
    s.enum_n = [](bool th) { return static_cast<i64>(366) * (th ? 40000 : 6000); };
    s.enum_at = [](i64 i, i64* v) { v[0] = i / 366 - 2000; v[1] = i % 366 + 1; };
    p.subs.push_back(s); }
  { Sub s;
    s.name = "date"; s.rule = "leap or century year, or a day within 2 of a month end";
    s.head = {P_year("y", ylo), Param{"m", 1, 12}, Param{"d", 1, 31, {1, 28, 29, 30, 31}, 50}};
    s.weight = 50;
    s.eval = [](const Args& a, Ctx& c) {
      const i64 y = a[0];
      const int m = static_cast<int>(a[1]), d = static_cast<int>(std::min<i64>(a[2], model::dim(y, m)));
      check(y, m, d, model::days_before_month(y, m) + d);
      c.nontrivial(model::leap(y) || y % 100 == 0 || d <= 2 || d >= model::dim(y, m) - 1);
      c.label_if(m == 2 && d == 29, "Feb 29");
    };
    p.subs.push_back(s); }
  return p;
}
