// Table of library calls, for the properties that compare a call with itself (C23: history, threads; C24: builds).
// A call is a function number and eight integers (the last one chooses between ordinary and extreme ranges); every integer is folded into the documented argument range.
// `nonneg` restricts to what a build with argument checks accepts (no negative hours, minutes, seconds, intervals).
#pragma once
#include <cstring>
#include <exception>
#include <string>
#include <typeinfo>
#include "lib.hpp"
#include "datetime_read.hpp"
#include "datetime_write.hpp"

namespace calls {
using namespace lib;
struct Out {
  int nv, nd, nq, changed, threw;
  i64 v[48];
  i64 q[4];      // quotients: days and units, and the units of a day
  double d[16], scale[16];   // of a sum, the size of its parts
  char s[256];
  void i(i64 x) { if (nv < 48) v[nv++] = x; }
  void f(double x, i64 part = 0) { if (nd < 16) { scale[nd] = std::abs(static_cast<double>(part)); d[nd++] = x; } }
  void t(const std::string& x) { const std::size_t n = std::strlen(s); if (n + x.size() + 2 < sizeof s) { std::memcpy(s + n, x.c_str(), x.size() + 1); std::strcat(s, "|"); } }
  void keep(bool same) { if (!same) changed = 1; }   // an argument or const object was modified
};
constexpr int NF = 20, NA = 8;
inline i64 fold(i64 x, i64 lo, i64 hi) {
  if (x >= lo && x <= hi) return x;
  const i128 n = static_cast<i128>(hi) - lo + 1, r = static_cast<i128>(x) % n;
  return static_cast<i64>(lo + (r < 0 ? r + n : r));
}

template<class S> void put(Out& o, const datetime<S>& t) { o.i(u(t.mjd())); o.i(u(t.sec())); }
template<class S> void put(Out& o, const datetime_interval<S>& t) { o.i(u(t.days())); o.i(u(t.sec())); }
inline void put(Out& o, const ymd_date& d) { o.i(u(d.__year)); o.i(u(d.__month)); o.i(u(d.__dom)); }
inline void put(Out& o, const ydoy_date& d) { o.i(u(d.__year)); o.i(u(d.__doy)); }
template<class T> void put_hmsf(Out& o, const T& t) { o.i(u(std::get<0>(t))); o.i(u(std::get<1>(t))); o.i(u(std::get<2>(t))); o.i(std::get<3>(t)); }

inline const char* const* texts(int& n) {
  static const char* const t[] = {"2015-03-05", "2015-075", "2015-03-05 01:02:03.456789", "2015-Mar-05 01:02:03.456789", "2016-366 23:59:59.999999", "1999/12/31 23:59:60", "2015-02-30",
    "2015-13-01 00:00:00", "abc", "", "2015", "2015-1-1 1:1:1", "2000 feb 29T12:00:00.000001", "4294969311-01-01", "1980-01-06 00:00:00", "2012-06-30 23:59:59.5xyz", "2015-Xyz-01 00:00:00", "0999-9-9 09:09:09.9"};
  n = sizeof t / sizeof t[0];
  return t;
}

template<class S, class T> void body(int fn, const i64* a, bool nonneg, Out& o) {
  constexpr int r = Res<S>::r, q = Res<T>::r;
  constexpr int fin = r > q ? r : q;
  const bool wide = a[7] % 4 == 2 || a[7] % 4 == 3, far = a[7] % 4 == 3;
  // whole range in which differences in the finer resolution are representable
  const i64 dlim = 4000000000000000000LL / DAY[fin];
  const i64 mlo = nonneg ? 0 : far ? -dlim : -2000000, mhi = far ? dlim : 40000000;
  const i64 mjd = fold(a[0], mlo, mhi), mjd2 = fold(a[1], mlo, mhi);
  const i64 cmjd = fold(a[0], nonneg ? 0 : -2000000, wide ? 780000000000LL : 40000000);   // has a calendar date
  const i64 vast = fold(a[0], nonneg ? 0 : -4000000000000000000LL, 4000000000000000000LL);
  const i64 tod = fold(a[2], 0, DAY[r] - 1), tod2 = fold(a[3], 0, DAY[q] - 1);
  const i64 lim = far ? INT64_MAX - DAY[r] : 300000000000000000LL;
  const int hmax = far ? 2000000000 : wide ? 1000000 : 100, minmax = far ? 2000000000 : wide ? 10000000 : 1000;
  const i64 n = fold(a[2], nonneg ? 0 : -lim, lim);
  const int yi = static_cast<int>(fold(a[0], nonneg ? 1 : -4799, wide ? 2146000000 : 99999)), mi = static_cast<int>(fold(a[1], 1, 12)), di = static_cast<int>(fold(a[4], 1, 31));
  const int doy = static_cast<int>(fold(a[4], 1, model::days_in_year(yi))), h = static_cast<int>(fold(a[5], 0, hmax)), m = static_cast<int>(fold(a[6], 0, minmax));
  const year Y(yi); const month M(mi); const day_of_month D(di); const day_of_year N(doy);
  switch (fn) {
    case 0: o.i(ymd_date{Y, M, D}.is_valid()); o.i(u(cal2mjd(Y, M, D))); o.i(u(modified_julian_day(Y, M, D))); break;
    case 1: { const modified_julian_day j{cmjd}; put(o, j.to_ymd()); put(o, j.to_ydoy()); o.f(j.to_julian_day(), cmjd); o.keep(u(j) == cmjd); break; }
    case 2: o.i(u(ydoy2mjd(Y, N))); o.i(u(modified_julian_day(Y, N))); put(o, datetime<S>(Y, N)); break;
    case 3: { const ydoy_date e{Y, N}; put(o, e.to_ymd()); const int d28 = di > 28 ? 28 : di; const ymd_date w{Y, M, day_of_month(d28)}; put(o, w.to_ydoy());
      o.keep(u(w.__year) == yi && u(w.__month) == mi && u(w.__dom) == d28 && u(e.__year) == yi && u(e.__doy) == doy); break; }
    case 4: { const i64 j = fold(a[0], 41317, far ? 4000000000000000000LL : wide ? 58000 : 100000); const datetime<S> t = mk<S>(j, tod); o.i(dat(modified_julian_day{j})); o.i(dat(t)); o.i(dat(year(static_cast<int>(fold(a[3], 1972, wide ? 100000000 : 2100))), M)); o.keep(u(t.mjd()) == j && u(t.sec()) == tod); break; }
    case 5: o.i(Y.is_leap()); o.i(month(static_cast<int>(far ? a[1] : fold(a[1], -100, 100))).is_valid()); o.i(day_of_month(static_cast<int>(far ? a[4] : fold(a[4], -5, 40))).is_valid(Y, M));
      o.i(N.is_valid(Y)); o.i(day_of_year(static_cast<int>(far ? a[4] : fold(a[4], -3, 370))).is_valid(Y)); o.i(ydoy_date(Y, N).is_valid()); o.i(gps_week(a[2]).is_valid()); break;
    case 6: { // construction with carry, and all views
      const i64 part = fold(a[2], 0, far ? (r == 0 ? 10000000000000LL : 300000000000000000LL) : 100000000000LL);
      const datetime<S> t(Y, M, D, hours(h), minutes(m), S(part));
      put(o, t); put(o, t.as_ymd()); put(o, t.as_ydoy()); put_hmsf(o, t.as_hmsf()); o.f(t.as_mjd(), u(t.mjd()));
      const datetime<S> v(t);
      o.i(t == v); o.i(t.sec_as_i());
      put(o, datetime<S>(Y, N, hours(h), minutes(m), S(part)));
      put(o, datetime<S>(t.mjd(), hours(h), minutes(m)));
      put(o, datetime<S>(t.mjd(), S(part)));
      put(o, datetime<S>(Y, M, D, S(part))); put(o, datetime<S>(Y, M, D)); put(o, datetime<S>(Y, M, D, hours(h)));
      if constexpr (q >= r) { put(o, datetime<S>(Y, M, D, T(part))); put(o, datetime<S>(Y, N, T(part))); put(o, datetime<S>(Y, N, hours(h), minutes(m), T(part))); }
      break; }
    case 7: { // arithmetic
      const i64 m0 = far ? vast : mjd;
      const datetime<S> t0 = mk<S>(m0, tod);
      const i64 most = far ? (q < r ? 9000000000000000000LL / (FAC[r] / FAC[q]) : 9000000000000000000LL) : DAY[q] * 5000;
      const i64 big = fold(a[3], nonneg ? 0 : -most, most);
      const i64 own = far ? 9000000000000000000LL : DAY[r] * 5000, days = far ? 1000000000000000000LL : 99999;
      datetime<S> t(t0);
      t.add_seconds(S(fold(a[4], nonneg ? 0 : -own, own))); put(o, t);
      t.add_seconds(T(big)); put(o, t);
      // with argument checks the result must not lie before day 0
      t.remove_seconds(T(nonneg ? fold(a[5], 0, big) : big)); put(o, t);
      t.remove_seconds(S(fold(a[5], nonneg ? 0 : -own, nonneg ? fold(a[4], 0, own) : own))); put(o, t);
      const datetime_interval<S> iv{modified_julian_day{fold(a[5], nonneg ? 0 : -days, days)}, S{fold(a[6], 0, DAY[r] - 1)}};
      const i64 id = u(iv.days()), is = u(iv.sec());
      t += iv; put(o, t);
      put(o, t0.template add<S>(modified_julian_day{fold(a[5], 0, days)}, S{fold(a[6], 0, far ? own : DAY[r] * 3)}));
      if constexpr (q >= r) put(o, t0.template add<T>(modified_julian_day{fold(a[5], 0, days)}, T{fold(a[6], 0, far ? 9000000000000000000LL : DAY[q] * 3)}));
      t.normalize(); put(o, t);
      o.keep(u(t0.mjd()) == m0 && u(t0.sec()) == tod && u(iv.days()) == id && u(iv.sec()) == is);
      break; }
    case 8: { // differences
      const i64 m2 = nonneg ? (mjd2 > mjd ? 0 : mjd2) : mjd2;
      const bool same = m2 == mjd;
      // with argument checks the first must not be the earlier one
      const bool late = static_cast<i128>(tod2) * (FAC[fin] / FAC[q]) > static_cast<i128>(tod) * (FAC[fin] / FAC[r]);
      const datetime<S> x = mk<S>(mjd, tod), z = mk<S>(m2, nonneg && same ? tod / 2 : fold(a[4], 0, DAY[r] - 1));
      const datetime<T> y = mk<T>(m2, nonneg && same && late ? 0 : tod2);
      o.i(u(delta_sec(x, y)));
      o.i(u(delta_sec(x, z))); o.i(u(x.delta_sec(z)));
      put(o, delta_date(x, z)); put(o, x.delta_date(z));
      o.keep(u(x.mjd()) == mjd && u(z.mjd()) == m2 && u(y.mjd()) == m2);
      break; }
    case 9: { // comparison
      const i64 m0 = far ? fold(a[0], nonneg ? 0 : INT64_MIN, INT64_MAX - 1) : mjd;
      const datetime<S> x = mk<S>(m0, tod), y = mk<S>(a[1] % 3 ? m0 : far ? fold(a[1], nonneg ? 0 : INT64_MIN, INT64_MAX - 1) : mjd2, fold(a[3], 0, DAY[r] - 1));
      const datetime_interval<S> p{x.mjd(), x.sec()}, w{y.mjd(), y.sec()};
      o.i((x < y) | (x <= y) << 1 | (x > y) << 2 | (x >= y) << 3 | (x == y) << 4 | (x != y) << 5);
      o.i((p < w) | (p <= w) << 1 | (p > w) << 2 | (p >= w) << 3 | (p == w) << 4 | (p != w) << 5);
      o.i((Y < year(2000)) | (M == month(2)) << 1 | (D >= day_of_month(29)) << 2 | (x.mjd() != y.mjd()) << 3);
      o.keep(u(x.mjd()) == m0 && u(x.sec()) == tod);
      break; }
    case 10: { // conversion of units
      const S x{n};
      if (q <= r || (n < INT64_MAX / (FAC[q] / FAC[r] ? FAC[q] / FAC[r] : 1) && n > -(INT64_MAX / (FAC[q] / FAC[r] ? FAC[q] / FAC[r] : 1)))) o.i(u(ngpt::cast_to<S, T>(x)));
      if constexpr (q <= r) o.i(u(static_cast<T>(x)));
      put(o, mk<S>(mjd, tod).template cast_to<T>());
      o.i(u(mjd_sec_diff<S>(modified_julian_day{mjd}, modified_julian_day{nonneg ? 0 : mjd2 / 2})));
      o.i(max_days_allowed<S>());
      o.keep(u(x) == n);
      break; }
    case 11: { // splitting and composing
      const i64 p = fold(a[2], 0, far ? (r == 2 ? 7700000000000000000LL : 7700000000000LL * FAC[r]) : DAY[r] * 20000);
      S x{p};
      put_hmsf(o, static_cast<const S&>(x).to_hmsf()); o.f(x.fractional_days()); o.f(x.to_fractional_seconds()); o.i(x.to_days()); o.i(x.more_than_day());
      o.keep(u(x) == p);
      o.i(x.remove_days()); o.i(u(x));
      if constexpr (r == 1) { double fr = 0; const S y{p}; o.i(u(y.resolve_sec(fr))); o.f(fr); o.keep(u(y) == p); }
      o.i(u(S(hours(h), minutes(m), S{far ? p / 8 : p})));
      o.i(u(S(hours(h), minutes(m), static_cast<double>(fold(a[3], 0, 999999999)) / 1000000)));
      hours hh(h); o.i(hh.remove_days()); o.i(u(hh)); minutes mm(m); o.i(u(mm.remove_hours())); o.i(u(mm));
      break; }
    case 12: case 13: { // readers
      int nt;
      const char* const* ts = texts(nt);
      std::string z;
      if (fn == 12) {
        z = ts[fold(a[1], 0, nt - 1)];
        if (wide && !z.empty()) {   // one character replaced
          static const char alt[] = "0123456789 :x.e/T_-+";
          z[static_cast<std::size_t>(fold(a[5], 0, static_cast<i64>(z.size()) - 1))] = alt[fold(a[6], 0, nonneg ? 17 : 19)];
        }
      }
      else {
        static const char* const mon[] = {"Jan", "feb", "MAR", "Apr", "may", "JUN", "Jul", "aug", "SEP", "Oct", "nov", "DEC"};
        const int form = static_cast<int>(fold(a[3], 0, 4));
        char b[128];
        const int hh = h % 24, mm = m % 60, us = static_cast<int>(fold(a[2], 0, 59999999)), yy = static_cast<int>(fold(a[0], 1, wide ? 2147483000 : 9999));
        if (form == 0) snprintf(b, sizeof b, "%04d-%02d-%02d", yy, mi, di);
        else if (form == 1) snprintf(b, sizeof b, "%d/%d", yy, doy);
        else if (form == 2) snprintf(b, sizeof b, "%04d-%02d-%02d %02d:%02d:%d.%06d", yy, mi, di, hh, mm, us / 1000000, us % 1000000);
        else if (form == 3) snprintf(b, sizeof b, "%04d %s %02d %02d:%02d:%02d", yy, mon[mi - 1], di, hh, mm, us / 1000000);
        else snprintf(b, sizeof b, "%04d-%03d %02d:%02d:%d.%03d", yy, doy, hh, mm, us / 1000000, us % 1000);
        z = b;
      }
      const std::string copy(z.c_str());
      char* stop = nullptr;
      const char* c = z.c_str();
      char** sp = a[4] % 2 ? &stop : nullptr;
      datetime<S> t;
      try {
        switch (fold(a[3], 0, 4)) {
          case 0: t = strptime_ymd<S>(c, sp); break;
          case 1: t = strptime_ydoy<S>(c, sp); break;
          case 2: t = strptime_ymd_hms<S>(c, sp); break;
          case 3: t = strptime_yod_hms<S>(c, sp); break;
          default: t = strptime_ydoy_hms<S>(c, sp); break;
        }
      } catch (...) { o.keep(copy == z); throw; }
      put(o, t);
      if (sp) o.i(stop - c);
      o.keep(copy == z);
      break; }
    case 14: { // writers
      const datetime<S> t = mk<S>(wide ? cmjd : fold(a[0], nonneg ? 0 : -678575, 2973483), tod);
      o.t(strftime_ymd_hms(t, a[4] % 2 ? '-' : '/')); o.t(strftime_ymd_hmfs(t)); o.t(t.stringify());
      o.keep(u(t.sec()) == tod);
      break; }
    case 15: { // month names
      static const char* const nm[] = {"jan", "FEB", "March", "aPRIL", "may", "Ju", "July", "august", "Sep", "octobe", "nov", "december", "", "xyz", "marchx", "JUN"};
      o.t(M.short_name()); o.t(M.long_name());
      std::string z = nm[fold(a[4], 0, 15)];
      if (wide && !z.empty()) z[static_cast<std::size_t>(fold(a[5], 0, static_cast<i64>(z.size()) - 1))] = static_cast<char>(fold(a[6], 1, 255));
      o.i(u(month(z.c_str())));
      break; }
    case 16: { // intervals
      const datetime_interval<S> v{modified_julian_day{far ? vast : fold(a[0], nonneg ? 0 : -9999999, 9999999)}, S{n}};
      put(o, v); o.f(v.as_mjd(), u(v.days()));
      const datetime_interval<S> w{modified_julian_day{fold(a[1], 0, far ? 4000000000000000000LL : 365249)}, S{tod}};
      const datetime_interval<S> dv = w / static_cast<int>(fold(a[3], 1, wide ? 2147483647 : 100000));
      o.q[0] = u(dv.days()); o.q[1] = u(dv.sec()); o.q[2] = DAY[r]; o.nq = 3;
      datetime_interval<S> z(w); z.normalize(); put(o, z); o.i(z == w);
      o.keep(u(w.sec()) == tod);
      break; }
    case 17: { // GPS week
      const datetime<S> t(gps_week(fold(a[0], 0, far ? 500000000000000000LL : 1000000)), S{fold(a[2], 0, far ? 9000000000000000000LL : DAY[r] * 7 * 20)});
      put(o, t);
      S s1{0}; long s2 = 0;
      o.i(u(t.as_gps_wsow(s1))); o.i(u(s1)); o.i(u(t.as_gps_wsow(s2))); o.i(s2); o.i(day_of_week(s1)); o.i(day_of_week(seconds{s2}));
      break; }
    case 18: { // fundamental types
      year y(yi); ++y; y += 3; y -= year(1); o.i(u(y--)); o.i(u(y));
      S s{fold(a[2], 0, lim - 100)}; s += S{5}; s += 7; o.i(u(s++)); o.i(u(s + S{1})); o.i(u(s - S{2}));
      modified_julian_day j{far ? vast : mjd}; j += 1; o.i(u(j + modified_julian_day{2})); o.i(u(--j - modified_julian_day{1}));
      hours hh(h); ++hh; o.i(u(hh)); day_of_year n2(doy); n2 = 7; o.i(u(n2)); gps_week g(far ? fold(a[4], -4000000000000000000LL, 4000000000000000000LL) : a[4] % 1000); g += 2L; o.i(u(g));
      break; }
    default: { // several spellings of an instant
      const datetime<S> t(Y, N, hours(h), minutes(m), static_cast<double>(fold(a[2], 0, 59999999)) / 1000000);
      put(o, t);
      if (D.is_valid(Y, M)) put(o, datetime<S>(Y, M, D, hours(h), minutes(m), static_cast<double>(fold(a[2], 0, 59999999)) / 1000000));
      const datetime<S> w(t.mjd(), t.sec());
      o.i(w == t); put(o, w.as_ymd());
      put(o, datetime<S>{}); put(o, datetime<S>::max()); if (!nonneg) put(o, datetime<S>::min());
      break; }
  }
}

// a[0..NA-1]: arguments; res/other: resolutions 0..2
inline void call(int fn, int res, int other, const i64* a, bool nonneg, Out& o) {
  std::memset(&o, 0, sizeof o);
  try {
    with_res2(res, other, [&](auto g, auto h) { body<typename decltype(g)::type, typename decltype(h)::type>(fn, a, nonneg, o); });
  } catch (const std::exception& e) {
    o.threw = 1;
    o.t(typeid(e).name());
  }
}
inline std::vector<Param> P_args() {
  const std::vector<i64> big = {0, 1, 999, 1000, 59999999, 86399, 86400, 86399999, 86400000, 43200000000, 86399999999, 86400000000, 604800, 604800000000};
  return {Param{"a0", INT64_MIN, INT64_MAX, {0, 1, 4, 100, 400, 1582, 1700, 1858, 1899, 1900, 1901, 1970, 1972, 1980, 1999, 2000, 2004, 2012, 2015, 2016, 2017, 2019, 2100, 9999, 10000, 41317, 41498, 41499, 44244, 51543, 51544, 51603, 51604, 57753, 57754, 88068, 88069}, 50},
    Param{"a1", INT64_MIN, INT64_MAX, {1, 2, 2, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 12, 13, 0, 51544, 57754}, 70},
    Param{"a2", INT64_MIN, INT64_MAX, big, 40}, Param{"a3", INT64_MIN, INT64_MAX, big, 40},
    Param{"a4", INT64_MIN, INT64_MAX, {1, 2, 10, 28, 29, 30, 31, 32, 59, 60, 61, 334, 335, 364, 365, 366}, 60},
    Param{"a5", INT64_MIN, INT64_MAX, {0, 1, 12, 23, 24, 25, 48, 100}, 60}, Param{"a6", INT64_MIN, INT64_MAX, {0, 1, 30, 59, 60, 61, 1000}, 60}, Param{"scale", 0, 3}};
}
// Text of the first difference, or empty. Doubles may differ by `ulps` units in the last place (also of the larger part of a sum: a negative day number and its fraction cancel).
// Quotients of intervals, which are computed in double arithmetic, may differ by a unit (and as much as doubles do) if `contract`.
inline std::string differ(const Out& a, const Out& b, int ulps, bool contract = false) {
  char t[700];
  if (a.changed || b.changed) return "an argument or a const object was modified";
  if (a.threw != b.threw) { snprintf(t, sizeof t, "one call throws, the other does not (%s, %s)", a.s, b.s); return t; }
  if (std::strcmp(a.s, b.s)) { snprintf(t, sizeof t, "text \"%s\" and \"%s\"", a.s, b.s); return t; }
  if (a.threw) return "";
  if (a.nv != b.nv || a.nd != b.nd) return "a different number of results";
  for (int i = 0; i < a.nv; ++i) if (a.v[i] != b.v[i]) { snprintf(t, sizeof t, "result %d is %lld and %lld", i, static_cast<long long>(a.v[i]), static_cast<long long>(b.v[i])); return t; }
  if (a.nq != b.nq) return "a different number of results";
  if (a.nq) {
    const i128 x = static_cast<i128>(a.q[0]) * a.q[2] + a.q[1], y = static_cast<i128>(b.q[0]) * b.q[2] + b.q[1], d = x > y ? x - y : y - x;
    if (d > (contract ? 1 + (x >> 50) : 0)) { snprintf(t, sizeof t, "quotient is (%lld, %lld) and (%lld, %lld)", static_cast<long long>(a.q[0]), static_cast<long long>(a.q[1]), static_cast<long long>(b.q[0]), static_cast<long long>(b.q[1])); return t; }
  }
  for (int i = 0; i < a.nd; ++i) {
    double x = a.d[i];
    for (int k = 0; k < ulps && x != b.d[i]; ++k) x = std::nextafter(x, b.d[i]);
    if (x != b.d[i] && !(ulps > 0 && std::abs(a.d[i] - b.d[i]) <= ulps * 2.3e-16 * a.scale[i])) { snprintf(t, sizeof t, "number %d is %.17g and %.17g", i, a.d[i], b.d[i]); return t; }
  }
  return "";
}
} // namespace calls
