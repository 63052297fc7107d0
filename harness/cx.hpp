// Functions that can be evaluated in constant expressions (C30): evaluated by the compiler and again at run time.
// call<K>(res, a): function K on resolution `res` and eight integers, folded into the documented ranges.
#pragma once
#include <tuple>
#include "dtfund.hpp"
#include "dtcalendar.hpp"

namespace cx {
using namespace ngpt;
using i64 = long;
using i128 = __int128;
struct Out {
  int n = 0, nd = 0;
  i64 v[24] = {};
  double d[6] = {};
  constexpr void i(i64 x) { v[n] = x; ++n; }
  constexpr void f(double x) { d[nd] = x; ++nd; }
  template<class X> constexpr void u(X x) { i(static_cast<i64>(x.as_underlying_type())); }
};
constexpr i64 fold(i64 x, i64 lo, i64 hi) {
  if (x >= lo && x <= hi) return x;
  const i128 n = static_cast<i128>(hi) - lo + 1, r = static_cast<i128>(x) % n;
  return static_cast<i64>(lo + (r < 0 ? r + n : r));
}
constexpr i64 BIG = 9000000000000000000L;
template<class S> constexpr i64 FAC = S::template sec_factor<i64>();
template<class S> constexpr i64 DAY = 86400L * FAC<S>;
#ifdef USE_DATETIME_CHECKS
constexpr bool NN = true;
#else
constexpr bool NN = false;
#endif

template<class A> constexpr void six(Out& o, A x, A y) { o.i((x < y) | (x <= y) << 1 | (x > y) << 2 | (x >= y) << 3 | (x == y) << 4 | (x != y) << 5); }
// the operations every fundamental type has
template<class A, bool SUM> constexpr void fund(Out& o, i64 p, i64 q, i64 lim) {
  using U = typename A::underlying_type;
  const U x = static_cast<U>(fold(p, NN ? 0 : -lim, lim)), y = static_cast<U>(fold(q, NN ? 0 : -lim, lim)), z = x > y ? x : y, w = x > y ? y : x;
  A a(x), b(y);
  six(o, a, b);
  A c(z); c -= A(w); o.u(c);
  c = A(x); c += b; o.u(c);
  c = A(z); c -= w; o.u(c); c += w; o.u(c);
  c = A(z); o.u(++c); o.u(c++); o.u(c); o.u(c--); o.u(--c); o.u(c);
  if constexpr (!std::is_same<A, month>::value) { c = y; o.u(c); }
  if constexpr (SUM) { o.u(a + b); o.u(A(z) - A(w)); }
}
template<class S> constexpr datetime<S> at(i64 amount) { datetime<S> t{}; t.add_seconds(S{amount}); return t; }
template<class S> constexpr void put(Out& o, const datetime<S>& t) { o.u(t.mjd()); o.i(t.sec_as_i()); }
template<class T> constexpr void put_hmsf(Out& o, const T& t) { o.u(std::get<0>(t)); o.u(std::get<1>(t)); o.u(std::get<2>(t)); o.i(std::get<3>(t)); }

constexpr int NF = 23;
template<int K, class S> constexpr Out body(const i64* a) {
  Out o{};
  const int h = static_cast<int>(fold(a[5], 0, a[7] & 1 ? 2000000000 : 100)), m = static_cast<int>(fold(a[6], 0, a[7] & 1 ? 2000000000 : 1000));
  const i64 amount = fold(a[0], NN ? 0 : -BIG / 2, BIG / 4), more = fold(a[1], 0, BIG / 2);   // from J2000
  const i64 dlim = 4000000000000000000L / DAY<S>;
  if constexpr (K == 0) fund<year, false>(o, a[0], a[1], 1000000000);
  else if constexpr (K == 1) fund<month, false>(o, a[0], a[1], 1000000000);
  else if constexpr (K == 2) fund<gps_week, false>(o, a[0], a[1], BIG / 2);
  else if constexpr (K == 3) fund<day_of_month, false>(o, a[0], a[1], 1000000000);
  else if constexpr (K == 4) fund<day_of_year, false>(o, a[0], a[1], 1000000000);
  else if constexpr (K == 5) fund<modified_julian_day, true>(o, a[0], a[1], BIG / 2);
  else if constexpr (K == 6) fund<hours, false>(o, a[0], a[1], 1000000000);
  else if constexpr (K == 7) fund<minutes, false>(o, a[0], a[1], 1000000000);
  else if constexpr (K == 8) fund<S, true>(o, a[0], a[1], BIG / 2);
  else if constexpr (K == 9) {
    const int y = static_cast<int>(fold(a[0], -2147483648L, 2147483647L)), d = static_cast<int>(fold(a[4], -2147483648L, 2147483647L));
    o.i(is_leap(y)); o.i(year(y).is_leap()); o.i(day_of_year(d).is_valid(year(y)));
  } else if constexpr (K == 10) { hours x(h); o.i(x.remove_days()); o.u(x); }
  else if constexpr (K == 11) o.u(S(hours(h), minutes(m), S{fold(a[2], 0, BIG / 5)}));
  else if constexpr (K == 12) {     // double seconds
    const i64 us = fold(a[2], 0, a[7] & 2 ? 1000000000000L : 59999999L);
    o.u(S(hours(h), minutes(m), static_cast<double>(us) / 1e6));
    o.u(S(hours(h), minutes(m), static_cast<double>(us) / 1e3));
    o.u(S(hours(h), minutes(m), static_cast<double>(us)));
  } else if constexpr (K == 13) {   // splitting; day numbers and hours fit an int
    const i64 p = fold(a[2], 0, FAC<S> == 1000000 ? 7700000000000000000L : 7700000000000L * FAC<S>);
    S x{p};
    put_hmsf(o, x.to_hmsf()); o.i(x.to_days()); o.i(x.more_than_day()); o.i(x.remove_days()); o.u(x);
  } else if constexpr (K == 14) { const S x{fold(a[2], NN ? 0 : -BIG, BIG)}; o.f(x.fractional_days()); o.f(x.to_fractional_seconds()); }
  else if constexpr (K == 15) {
    if constexpr (FAC<S> == 1000) { double f = 0; o.u(S{fold(a[2], NN ? 0 : -BIG, BIG)}.resolve_sec(f)); o.f(f); }
    const i64 p = fold(a[2], NN ? 0 : -BIG, BIG);
    if constexpr (FAC<S> >= 1000) o.u(static_cast<seconds>(S{p}));
    if constexpr (FAC<S> >= 1000000) o.u(static_cast<milliseconds>(S{p}));
    o.i(max_days_allowed<S>()); o.i(S::max_in_day); o.i(S::template sec_factor<long>()); o.f(S::template sec_factor<double>()); o.u(modified_julian_day::max()); o.u(modified_julian_day::min());
  } else if constexpr (K == 16) {   // intervals
    const i64 d1 = fold(a[0], NN ? 0 : -BIG / 4, BIG / 4), s1 = fold(a[2], NN ? 0 : -BIG, BIG), d2 = a[4] % 2 ? d1 : fold(a[1], NN ? 0 : -BIG / 4, BIG / 4), s2 = a[4] % 3 ? fold(a[3], NN ? 0 : -BIG, BIG) : s1;
    datetime_interval<S> x{modified_julian_day{d1}, S{s1}};
    const datetime_interval<S> y{modified_julian_day{d2}, S{s2}}, z{};
    six(o, x, y); six(o, x, z); o.f(x.as_mjd()); o.f(z.as_mjd());
    const datetime_interval<S> w(x);
    x.normalize(); six(o, x, w); six(o, x, datetime_interval<S>{modified_julian_day{d1}, S{s1}});
  } else if constexpr (K == 17) {   // a history of moves
    datetime<S> t = at<S>(amount); put(o, t);
    t.add_seconds(S{more}); put(o, t);
    t.remove_seconds(S{NN ? more : fold(a[2], -BIG, BIG)}); put(o, t);
    const i64 far = a[4] % 3 ? 0 : fold(a[3], 0, 100);
    for (i64 k = 0; k < far; ++k) { if (a[4] % 2) t.add_seconds(S{more}); else if (!NN) t.remove_seconds(S{more}); }
    t.normalize(); put(o, t); put_hmsf(o, t.as_hmsf()); o.f(t.as_mjd());
    const datetime<S> c(t); datetime<S> e{}; e = c; put(o, e); o.i(e == t);
  } else if constexpr (K == 18) {   // comparison
    const i64 lim = a[4] % 3 == 0 ? 5 : a[4] % 3 == 1 ? DAY<S> * 3 : BIG / 4;
    const datetime<S> x = at<S>(amount), y = at<S>(fold(amount + fold(a[1], -lim, lim), NN ? 0 : -BIG, BIG / 2));
    six(o, x, y); six(o, x, x); six(o, x, datetime<S>{});
  } else if constexpr (K == 19) {   // difference as an interval
    const i64 k = fold(a[0], NN ? 0 : -4000000000000000000L, 4000000000000000000L), j = fold(a[1], 0, 4000000000000000000L);
    datetime<S> x = at<S>(k);
    const datetime<S> y(x);
    x.add_seconds(S{j});
    const datetime_interval<S> v = x.delta_date(y);
    six(o, v, datetime_interval<S>{modified_julian_day{j / DAY<S>}, S{j % DAY<S>}});
    six(o, v, datetime_interval<S>{modified_julian_day{j / DAY<S>}, S{(j + 1) % DAY<S>}});
    if (!NN) six(o, y.delta_date(x), v);
    o.f(v.as_mjd());
  } else if constexpr (K == 20) {   // GPS week; at or after 1980-01-06
    const i64 after = fold(a[0], FAC<S> * -630700000L, BIG / 2);
    datetime<S> t{};
    if (after < 0) t.remove_seconds(S{-after}); else t.add_seconds(S{after});
    const i64 far = a[4] % 3 ? 0 : fold(a[3], 0, 100);
    for (i64 k = 0; k < far; ++k) t.add_seconds(S{more});
    put(o, t);
    long s = 0; S w{0};
    o.u(t.as_gps_wsow(s)); o.i(s); o.u(t.as_gps_wsow(w)); o.u(w); o.i(day_of_week(w)); o.i(day_of_week(seconds{s}));
  } else if constexpr (K == 21) { const datetime<S> t = at<S>(amount); put(o, t); put_hmsf(o, t.as_hmsf()); o.f(t.as_mjd()); }
  else {   // literals, plain structures
    o.u(12_Y); o.u(7_M); o.u(31_D); o.u(99_h); o.u(61_m); o.u(86401_sec); o.u(12345678901_millisec); o.u(12345678901234_microsec);
    const ymd_date d{year{static_cast<int>(fold(a[0], -2147483648L, 2147483647L))}, month{static_cast<int>(fold(a[1], -2147483648L, 2147483647L))}, day_of_month{static_cast<int>(fold(a[2], -2147483648L, 2147483647L))}};
    o.u(d.__year); o.u(d.__month); o.u(d.__dom);
    const ydoy_date e{d.__year, day_of_year{static_cast<int>(fold(a[3], -2147483648L, 2147483647L))}};
    o.u(e.__year); o.u(e.__doy);
    o.u(ymd_date{}.__year); o.u(ymd_date{}.__month); o.u(ymd_date{}.__dom); o.u(ydoy_date{}.__year); o.u(ydoy_date{}.__doy);
    o.i(jan61980); o.i(jan11901); o.f(sec_per_day); o.f(days_in_julian_year); o.f(days_in_julian_cent); o.f(j2000_jd); o.f(j2000_mjd);
  }
  (void)h; (void)m; (void)amount; (void)more; (void)dlim;
  return o;
}
struct In { int res; i64 a[8]; };
template<int K> constexpr Out call(const In& x) {
  return x.res == 0 ? body<K, seconds>(x.a) : x.res == 1 ? body<K, milliseconds>(x.a) : body<K, microseconds>(x.a);
}
template<int N> struct Table { Out r[N]; };
template<int K, int N> constexpr Table<N> table(const In (&in)[N]) {
  Table<N> t{};
  for (int k = 0; k < N; ++k) t.r[k] = call<K>(in[k]);
  return t;
}
} // namespace cx
