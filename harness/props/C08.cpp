// C08: conversion between second types
#include "../lib.hpp"
using namespace lib;
namespace {
Param P_units(const char* n) {
  return Param{n, INT64_MIN, INT64_MAX, {0, 1, -1, 999, 1000, 1001, -999, -1000, -1001, 999999, 1000000, 1000001, -999999, -1000000, 59999999, 86399999, 86399999999, 86400000000,
    INT64_MAX, INT64_MIN, INT64_MAX / 1000, INT64_MAX / 1000000, INT64_MIN / 1000, INT64_MIN / 1000000, 9007199254740993, 2147483647, 2147483648, -2147483649LL, 4294967296}, 40};
}
template<class A, class B> constexpr bool castable = std::is_constructible<B, A>::value && !std::is_same<A, B>::value;
}
Prop pbt::make_prop() {
  Prop p{"C08", {}};
  { Sub s;
    s.name = "amounts"; s.rule = "to a coarser unit with a remainder, or to a finer unit beyond 1e9";
    s.head = {P_res("from"), P_res("to"), P_units("amount")};
    s.weight = 50;
    s.eval = [](const Args& a, Ctx& c) {
      with_res2(a[0], a[1], [&](auto g, auto h) {
        using A = typename decltype(g)::type; using B = typename decltype(h)::type;
        constexpr int ra = decltype(g)::r, rb = decltype(h)::r;
        if constexpr (rb >= ra) {
          constexpr i64 k = FAC[rb] / FAC[ra];
          const i64 n = a[2] % (INT64_MAX / k);   // the result fits
          const B b = cast_to<A, B>(A{n});
          EQ(u(b), n * k, "to a finer unit");
          EQ(u(cast_to<B, A>(b)), n, "and back");
          if constexpr (castable<B, A>) EQ(u(static_cast<A>(b)), n, "and back, explicitly");
          if constexpr (ra == 0 && rb == 2) EQ(u(cast_to<milliseconds, microseconds>(cast_to<seconds, milliseconds>(seconds{n}))), n * k, "in two steps");
          c.nontrivial(n > 1000000000 || n < -1000000000);
          c.label("to finer or same");
        } else {
          constexpr i64 k = FAC[ra] / FAC[rb];
          const i64 n = a[2];
          const i64 want = n / k;                 // C++: towards zero
          EQ(u(cast_to<A, B>(A{n})), want, "to a coarser unit");
          if constexpr (castable<A, B>) EQ(u(static_cast<B>(A{n})), want, "explicit conversion to a coarser unit");
          static_assert(castable<A, B>, "explicit conversion to a coarser unit exists");
          if constexpr (ra == 2 && rb == 0) EQ(u(cast_to<milliseconds, seconds>(cast_to<microseconds, milliseconds>(microseconds{n}))), want, "in two steps");
          c.nontrivial(n % k != 0);
          c.label_if(n < 0, "negative to coarser");
          c.label_if(n % k != 0, "remainder dropped");
          c.label_if(n > INT64_MAX / k || n < INT64_MIN / k, "beyond the range of the coarser unit scaled up");
        }
      });
    };
    p.subs.push_back(s); }
  { Sub s;
    s.name = "datetimes"; s.rule = "to another resolution";
    s.head = {P_res("from"), P_res("to"), Param{"mjd", INT64_MIN, INT64_MAX, P_mjd().pts, 30}, P_tod()};
    s.weight = 30;
    s.eval = [](const Args& a, Ctx& c) {
      with_res2(a[0], a[1], [&](auto g, auto h) {
        using A = typename decltype(g)::type; using B = typename decltype(h)::type;
        constexpr int ra = decltype(g)::r, rb = decltype(h)::r;
        const i64 ta = a[3] / (1000000 / FAC[ra]);
        const i64 tb = rb >= ra ? ta * (FAC[rb] / FAC[ra]) : ta / (FAC[ra] / FAC[rb]);
        const datetime<A> x = mk<A>(a[2], ta);
        const datetime<B> y = x.template cast_to<B>();
        expect_dt(y, a[2], tb, "converted date-time");
        expect_dt(x, a[2], ta, "original");
        EQ(u(cast_to<A, B>(x.sec())), tb, "its time of day");
        if (rb >= ra) expect_dt(y.template cast_to<A>(), a[2], ta, "and back");
        c.nontrivial(ra != rb);
        c.label_if(rb < ra && ta % (ra > rb ? FAC[ra] / FAC[rb] : 1) != 0, "remainder dropped");
      });
    };
    p.subs.push_back(s); }
  { Sub s;
    s.name = "days"; s.rule = "more than 1e4 days apart";
    s.head = {P_res(), Param{"mjd", -4000000000000000000LL, 4000000000000000000LL, {0, 51544, 44244}, 20}, Param{"ddays", INT64_MIN / 86400, INT64_MAX / 86400, {0, 1, -1, 106751991, -106751991, 106751991167, -106751991167, 106751991167300, -106751991167300}, 30}};
    s.weight = 20;
    s.eval = [](const Args& a, Ctx& c) {
      with_res(a[0], [&](auto g) {
        using S = typename decltype(g)::type;
        constexpr int r = decltype(g)::r;
        constexpr long lim = max_days_allowed<S>();
        EQ(lim, INT64_MAX / DAY[r], "stated maximum number of days");
        REQ(static_cast<i128>(lim) * DAY[r] <= INT64_MAX && (static_cast<i128>(lim) + 1) * DAY[r] > INT64_MAX, "maximum number of days");
        const i64 d = model::clampi(a[2], -lim, lim);
        const i64 m1 = a[1], m2 = m1 - d;
        EQ(u(mjd_sec_diff<S>(modified_julian_day{m1}, modified_julian_day{m2})), static_cast<i128>(d) * DAY[r], "days as seconds");
        EQ(S::max_in_day, DAY[r], "units per day");
        EQ(S::template sec_factor<long>(), FAC[r], "units per second");
        REQ(S::template sec_factor<double>() == static_cast<double>(FAC[r]), "units per second (double)");
        c.nontrivial(d > 10000 || d < -10000);
        c.label_if(d == lim || d == -lim, "at the limit");
      });
    };
    p.subs.push_back(s); }
  return p;
}
