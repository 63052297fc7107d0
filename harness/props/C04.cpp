// C04: validity predicates agree with the calendar and with acceptance
#include "../lib.hpp"
#include "datetime_read.hpp"
using namespace lib;
namespace {
constexpr i64 IMIN = -2147483647LL - 1, IMAX = 2147483647LL;
// Runs f; true if it returned, false if it threw an exception of the standard hierarchy.
template<class F> bool accepts(F&& f, i64& n) {
  try { n = f(); return true; }
  catch (const std::exception&) { return false; }
}
Param P_any(const char* n, std::vector<i64> pts) { return Param{n, IMIN, IMAX, std::move(pts), 75}; }
std::vector<i64> months() { return {0, 1, 2, 2, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 12, 13, 14, 24, -1, -2, -12, IMIN, IMAX}; }
std::vector<i64> doms() { return {0, 1, 2, 15, 27, 28, 28, 29, 29, 29, 30, 30, 31, 31, 32, 33, -1, -28, 366, IMIN, IMAX}; }
}
Prop pbt::make_prop() {
  Prop p{"C04", {}};
  { Sub s;
    s.name = "predicates"; s.rule = "day 28 to 31, month 0, 1, 12, 13, day-of-year 0, 1, 365 to 367, or a century year";
    s.head = {P_year("y", IMIN), P_any("m", months()), P_any("d", doms()), P_any("doy", {0, 1, 2, 59, 60, 364, 365, 365, 366, 366, 366, 367, -1, IMIN, IMAX}), Param{"week", INT64_MIN, INT64_MAX, {0, 1, -1, 1023, 1024, 2045}, 30}};
    s.weight = 40;
    s.eval = [](const Args& a, Ctx& c) {
      const i64 y = a[0], m = a[1], d = a[2], doy = a[3];
      const year Y(static_cast<int>(y)); const month M(static_cast<int>(m)); const day_of_month D(static_cast<int>(d)); const day_of_year N(static_cast<int>(doy));
      const bool leap = model::leap(y), okm = m >= 1 && m <= 12, okd = model::valid(y, m, d), okn = doy >= 1 && doy <= model::days_in_year(y);
      REQ(Y.is_leap() == leap && is_leap(static_cast<int>(y)) == leap, "leap year predicate of %lld", static_cast<long long>(y));
      REQ(M.is_valid() == okm, "month predicate of %lld", static_cast<long long>(m));
      REQ(D.is_valid(Y, M) == okd, "day-of-month predicate says %d for %lld-%lld-%lld", D.is_valid(Y, M), static_cast<long long>(y), static_cast<long long>(m), static_cast<long long>(d));
      REQ((ymd_date{Y, M, D}.is_valid()) == okd, "calendar date predicate");
      REQ(N.is_valid(Y) == okn, "day-of-year predicate of %lld in %lld", static_cast<long long>(doy), static_cast<long long>(y));
      REQ((ydoy_date{Y, N}.is_valid()) == okn, "year/day-of-year predicate");
      REQ(gps_week(a[4]).is_valid() == (a[4] >= 0), "GPS week predicate of %lld", static_cast<long long>(a[4]));
      c.nontrivial((d >= 28 && d <= 31 && okm) || m == 0 || m == 1 || m == 12 || m == 13 || doy == 0 || doy == 1 || (doy >= 365 && doy <= 367) || y % 100 == 0);
      c.label(okd ? "valid date" : "invalid date");
      c.label(okn ? "valid day-of-year" : "invalid day-of-year");
      c.label_if(m == 2 && d == 29 && !leap, "Feb 29 of a common year");
    };
    // all (year of a 400-year cycle and both signs, month -1..14, day -1..33)
    s.enum_n = [](bool) { return static_cast<i64>(1200) * 16 * 35; };
    s.enum_at = [](i64 i, i64* v) { v[2] = i % 35 - 1; v[1] = i / 35 % 16 - 1; v[0] = i / 35 / 16 + (i / 35 / 16 < 400 ? -800 : 1500); v[3] = i % 369; v[4] = i % 5 - 2; };
    p.subs.push_back(s); }
  { Sub s;
    s.name = "acceptance"; s.rule = "the date is invalid, or is the 29th to 31st";
    s.head = {P_year("y", IMIN + 1), P_any("m", months()), P_any("d", doms()), P_res(), P_tod(), Param{"how", 0, 8}};
    s.weight = 60;
    s.eval = [](const Args& a, Ctx& c) {
      const i64 y = a[0], m = a[1], d = a[2];
      const year Y(static_cast<int>(y)); const month M(static_cast<int>(m)); const day_of_month D(static_cast<int>(d));
      const bool ok = model::valid(y, m, d);
      const i64 want = ok ? model::ymd2mjd(y, m, d) : 0;
      c.nontrivial(!ok || d >= 29);
      c.label(ok ? "valid" : "invalid");
      static const char* const names[] = {"how 0", "how 1", "how 2", "how 3", "how 4", "how 5", "how 6", "how 7", "how 8"};
      if (!ok) c.label(names[a[5]]);
      with_res(a[3], [&](auto t) {
        using S = typename decltype(t)::type;
        const long tod = a[4] / (1000000 / FAC[t.r]);
        i64 n = 0;
        bool acc = false;
        switch (a[5]) {
          case 0: acc = accepts([&] { return u(cal2mjd(Y, M, D)); }, n); break;
          case 1: acc = accepts([&] { return u(modified_julian_day(Y, M, D)); }, n); break;
          case 2: acc = accepts([&] { return u(datetime<S>(Y, M, D, S(tod)).mjd()); }, n); break;
          case 3: acc = accepts([&] { return u(datetime<S>(Y, M, D, hours(1), minutes(2), S(3)).mjd()); }, n); break;
          case 4: acc = accepts([&] { return u(datetime<S>(Y, M, D, hours(1), minutes(2), 3.25).mjd()); }, n); break;
          case 5: acc = accepts([&] { return u(datetime<S>(Y, M, D).mjd()); }, n); break;
          case 6: acc = accepts([&] { return u(datetime<S>(Y, M, D, hours(23)).mjd()); }, n); break;
          case 7: // finer units than the date-time's
            acc = accepts([&] { return u(datetime<seconds>(Y, M, D, microseconds(tod)).mjd()); }, n); break;
          default: acc = accepts([&] { return u(datetime<milliseconds>(Y, M, D, hours(1), minutes(2), microseconds(3)).mjd()); }, n); break;
        }
        if (a[5] == 7 && acc) n -= tod / DAY[2];
        REQ(acc == ok, "%s date %lld-%lld-%lld was %s", ok ? "valid" : "invalid", static_cast<long long>(y), static_cast<long long>(m), static_cast<long long>(d), acc ? "accepted" : "rejected");
        if (ok && y >= -4799) EQ(n, want, "day number of the accepted date");
      });
      // the predicate and acceptance agree
      REQ(D.is_valid(Y, M) == ok, "predicate");
    };
    s.enum_n = [](bool) { return static_cast<i64>(500) * 15 * 34 * 9; };
    s.enum_at = [](i64 i, i64* v) { v[5] = i % 9; i /= 9; v[2] = i % 34 - 1; i /= 34; v[1] = i % 15 - 1; i /= 15; v[0] = i + 1750; v[3] = (v[0] + v[1] + v[2] + 2) % 3; v[4] = 0; };
    p.subs.push_back(s); }
  return p;
}
