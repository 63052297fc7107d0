// C02: year and day-of-year <-> Modified Julian Day
#include "../lib.hpp"
using namespace lib;
namespace {
template<class S> void view(i64 n, i64 y, int doy, i64 tod) {
  const datetime<S> t = mk<S>(n, tod);
  const ydoy_date v = t.as_ydoy();
  REQ(u(v.__year) == y && u(v.__doy) == doy, "date-time on day %lld is viewed as %ld/%ld, want %lld/%d", static_cast<long long>(n), u(v.__year), u(v.__doy), static_cast<long long>(y), doy);
  expect_dt(datetime<S>(year(static_cast<int>(y)), day_of_year(doy), S(static_cast<long>(tod))), n, tod, "date-time from year, day-of-year and amount");
}
void check(i64 y, int doy, i64 n) {
  const year Y{static_cast<int>(y)};
  const day_of_year D{doy};
  EQ(u(ydoy2mjd(Y, D)), n, "day number of year/day-of-year");
  EQ(u(modified_julian_day(Y, D)), n, "day number built from year/day-of-year");
  const ydoy_date b = modified_julian_day{n}.to_ydoy();
  REQ(u(b.__year) == y && u(b.__doy) == doy, "day %lld reads back as %ld/%ld, want %lld/%d", static_cast<long long>(n), u(b.__year), u(b.__doy), static_cast<long long>(y), doy);
  REQ(b.is_valid(), "day %lld reads back as an invalid year/day-of-year", static_cast<long long>(n));
}
const i64 kLo = model::ymd2mjd(-4799, 1, 1);
}
Prop pbt::make_prop() {
  Prop p{"C02", {}};
  { Sub s;
    s.name = "doy"; s.rule = "year outside 1901-2099, or day 1, 59-61 or 365-366";
    s.head = {P_year("y"), Param{"doy", 1, 366, {1, 31, 32, 59, 60, 61, 365, 366, 334, 335}, 40}, P_res(), P_tod()};
    s.weight = 50;
    s.eval = [](const Args& a, Ctx& c) {
      const i64 y = a[0];
      const int doy = static_cast<int>(std::min<i64>(a[1], model::days_in_year(y)));
      const i64 n = model::ymd2mjd(y, 1, 1) + doy - 1;
      check(y, doy, n);
      with_res(a[2], [&](auto t) { using S = typename decltype(t)::type; view<S>(n, y, doy, a[3] / (1000000 / FAC[t.r])); });
      c.nontrivial(y < 1901 || y > 2099 || doy == 1 || (doy >= 59 && doy <= 61) || doy >= 365);
      c.label_if(doy == 366, "day 366");
      c.label_if(y < 1901, "before 1901");
      c.label_if(y > 2099, "after 2099");
    };
    p.subs.push_back(s); }
  { Sub s;
    s.name = "day"; s.rule = "day outside 1901-2099 or at a year end";
    s.head = {Param{"mjd", kLo, model::kMaxMjd, P_mjd().pts, 25}};
    s.weight = 50;
    s.eval = [](const Args& a, Ctx& c) {
      const model::YD w = model::mjd2yd(a[0]);
      check(w.y, w.doy, a[0]);
      // consistent with January 1 of the year by calendar date
      EQ(u(cal2mjd(year(static_cast<int>(w.y)), month(1), day_of_month(1))) + w.doy - 1, a[0], "January 1 plus day-of-year less one");
      c.nontrivial(w.y < 1901 || w.y > 2099 || w.doy == 1 || w.doy >= 365);
    };
    s.enum_n = [](bool th) { return model::ymd2mjd(th ? 40000 : 10000, 1, 1) - kLo; };
    s.enum_at = [](i64 i, i64* v) { v[0] = kLo + i; };
    p.subs.push_back(s); }
  return p;
}
