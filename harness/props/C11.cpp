// C11: all ways of constructing the same instant agree
#include "../lib.hpp"
using namespace lib;
Prop pbt::make_prop() {
  Prop p{"C11", {}};
  Sub s;
  s.name = "spellings"; s.rule = "the parts carry into the date, or the date is in a leap year after February";
  s.head = {P_res(), P_year("y", -4799, 2000000000), Param{"doy", 1, 366, {1, 59, 60, 61, 365, 366}, 30},
    Param{"h", -2147483647, 2147483647, {0, 1, 12, 23, 23, 24, 25, 48, -1, -24, 0, 5}, 75}, Param{"mn", -2147483647, 2147483647, {0, 1, 30, 59, 59, 60, 61, 1439, 1440, -1, -60, -1440}, 75},
    Param{"sec", -2147483647, 2147483647, {0, 1, 30, 59, 59, 60, 86399, 86400, -1, -60, -86400}, 75}, Param{"us", 0, 999999, {0, 0, 0, 1, 999, 1000, 500000, 999000, 999999}, 60}};
  s.weight = 100;
  s.eval = [](const Args& a, Ctx& c) {
    with_res(a[0], [&](auto g) {
      using S = typename decltype(g)::type;
      constexpr int r = decltype(g)::r;
      const int yi = static_cast<int>(a[1]), doy = static_cast<int>(std::min<i64>(a[2], model::days_in_year(yi)));
      const model::YMD w = model::yd2ymd(yi, doy);
      const i64 mjd = model::ymd2mjd(w.y, w.m, w.d);
      const year Y(yi); const month M(w.m); const day_of_month D(w.d); const day_of_year N(doy);
      const hours h(static_cast<int>(a[3])); const minutes mn(static_cast<int>(a[4]));
      const modified_julian_day J{mjd};
      const i64 part = a[5] * FAC[r] + a[6] / (1000000 / FAC[r]);            // seconds part, in units
      const i128 total128 = part + (static_cast<i128>(a[3]) * 3600 + a[4] * 60) * FAC[r];
      const i64 tot = static_cast<i64>(total128);
      const model::Instant n = model::norm(mjd, tot, r);
      const S P{part}, T{tot};
      auto is = [&](const datetime<S>& t, const char* what) { expect_dt(t, n.mjd, n.tod, what); };
      is(datetime<S>(Y, M, D, T), "(y, m, d, amount)");
      is(datetime<S>(Y, M, D, h, mn, P), "(y, m, d, h, m, amount)");
      is(datetime<S>(Y, N, T), "(y, doy, amount)");
      is(datetime<S>(Y, N, h, mn, P), "(y, doy, h, m, amount)");
      is(datetime<S>(J, T), "(mjd, amount)");
      is(datetime<S>(J, h, mn, P), "(mjd, h, m, amount)");
      is(datetime<S>(cal2mjd(Y, M, D), T), "(cal2mjd, amount)");
      is(datetime<S>(ydoy2mjd(Y, N), T), "(ydoy2mjd, amount)");
      is(datetime<S>(modified_julian_day(Y, M, D), T), "(mjd(y, m, d), amount)");
      is(datetime<S>(modified_julian_day(Y, N), T), "(mjd(y, doy), amount)");
      is(datetime<S>(Y, M, D, S(h, mn, P)), "(y, m, d, composed amount)");
      is(datetime<S>(J, S(0)).add(modified_julian_day{0}, T), "midnight plus the amount");
      if (part == 0) {
        is(datetime<S>(Y, M, D, h, mn), "(y, m, d, h, m)");
        is(datetime<S>(Y, N, h, mn), "(y, doy, h, m)");
        is(datetime<S>(J, h, mn), "(mjd, h, m)");
        if (a[4] == 0) {
          is(datetime<S>(Y, M, D, h), "(y, m, d, h)");
          is(datetime<S>(Y, N, h), "(y, doy, h)");
          if (a[3] == 0) {
            is(datetime<S>(Y, M, D), "(y, m, d)");
            is(datetime<S>(Y, N), "(y, doy)");
          }
        }
      }
      if (part % FAC[r] == 0) { // whole seconds, as a double
        const double ds = static_cast<double>(a[5]);
        is(datetime<S>(Y, M, D, h, mn, ds), "(y, m, d, h, m, double)");
        is(datetime<S>(Y, N, h, mn, ds), "(y, doy, h, m, double)");
        is(datetime<S>(J, S(h, mn, ds)), "(mjd, amount composed with a double)");
      }
      // finer units than the date-time's
      auto finer = [&](auto q) {
        using F = typename decltype(q)::type;
        constexpr i64 k = FAC[q.r] / FAC[r];
        const F pf{part * k};
        is(datetime<S>(Y, M, D, h, mn, pf), "(y, m, d, h, m, finer amount)");
        is(datetime<S>(Y, N, h, mn, pf), "(y, doy, h, m, finer amount)");
        if (total128 <= INT64_MAX / k && total128 >= -(INT64_MAX / k)) {
          const F tf{tot * k};
          is(datetime<S>(Y, M, D, tf), "(y, m, d, finer amount)");
          is(datetime<S>(Y, N, tf), "(y, doy, finer amount)");
        }
      };
      if constexpr (r < 2) finer(Tag<microseconds>{});
      if constexpr (r < 1) finer(Tag<milliseconds>{});
      // GPS week
      if (mjd >= 44244 && tot >= 0) {
        const i64 wk = (mjd - 44244) / 7, dow = (mjd - 44244) % 7;
        is(datetime<S>(gps_week(wk), S{tot % DAY[r] + dow * DAY[r]}).add(modified_julian_day{tot / DAY[r]}, S(0)), "(week, seconds of week) plus days");
        if (total128 + dow * DAY[r] <= INT64_MAX) is(datetime<S>(gps_week(wk), S{tot + dow * DAY[r]}), "(week, seconds of week)");
        c.label("also by GPS week");
      }
      c.nontrivial(tot >= DAY[r] || tot < 0 || (model::leap(yi) && doy > 60));
      c.label_if(tot >= DAY[r], "carries into the date");
      c.label_if(tot < 0, "carries back into earlier days");
      c.label_if(tot >= 0 && tot < DAY[r] && (a[3] > 23 || a[4] > 59 || a[5] > 59), "carries within the day");
      c.label_if(part % FAC[r] != 0, "sub-second part");
    });
  };
  // every minute-of-day boundary around the turn of several years
  s.enum_n = [](bool th) { return static_cast<i64>(3) * 8 * 6 * 50 * (th ? 125 : 25); };
  s.enum_at = [](i64 i, i64* v) {
    static const i64 years[] = {1900, 1972, 1999, 2000, 2016, 2017, 2100, -4};
    static const i64 doys[] = {1, 59, 60, 61, 365, 366};
    v[0] = i % 3; i /= 3;
    v[1] = years[i % 8]; i /= 8;
    v[2] = doys[i % 6]; i /= 6;
    v[3] = i % 50; i /= 50;
    v[4] = (i * 5) % 125; v[5] = (i * 7) % 61; v[6] = i % 2 ? 999999 : 0;
  };
  p.subs.push_back(s);
  return p;
}
