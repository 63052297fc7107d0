// Glue between property files and the library under test (public API only).
#pragma once
#include <stdexcept>
#include <string>
#include <utility>
#include "dtfund.hpp"
#include "dtcalendar.hpp"
#include "model.hpp"

using namespace pbt;
using model::FAC;
using model::DAY;
namespace lib {
using namespace ngpt;

template<class S> struct Res;
template<> struct Res<seconds> { static constexpr int r = 0; };
template<> struct Res<milliseconds> { static constexpr int r = 1; };
template<> struct Res<microseconds> { static constexpr int r = 2; };
template<class S> struct Tag { using type = S; static constexpr int r = Res<S>::r; };

// call f(Tag<S>) with the resolution numbered r
template<class F> auto with_res(i64 r, F&& f) {
  switch (r) {
    case 0: return f(Tag<seconds>{});
    case 1: return f(Tag<milliseconds>{});
    default: return f(Tag<microseconds>{});
  }
}
template<class F> auto with_res2(i64 r, i64 q, F&& f) {
  return with_res(r, [&](auto a) { return with_res(q, [&](auto b) { return f(a, b); }); });
}

template<class X> long u(X x) { return static_cast<long>(x.as_underlying_type()); }

template<class S> datetime<S> mk(i64 mjd, i64 sec) {
  return datetime<S>{modified_julian_day{static_cast<long>(mjd)}, S{static_cast<long>(sec)}};
}
template<class S> void expect_dt(const datetime<S>& t, i64 mjd, i64 sec, const char* what) {
  const long gm = u(t.mjd()), gs = u(t.sec());
  if (gm != mjd || gs != sec)
    failf("%s: got (mjd %ld, %ld units of day), want (mjd %lld, %lld)", what, gm, gs,
          static_cast<long long>(mjd), static_cast<long long>(sec));
}
template<class S> void expect_iv(const datetime_interval<S>& t, i64 days, i64 sec, const char* what) {
  const long gm = u(t.days()), gs = u(t.sec());
  if (gm != days || gs != sec)
    failf("%s: got (%ld days, %ld units), want (%lld, %lld)", what, gm, gs,
          static_cast<long long>(days), static_cast<long long>(sec));
}
} // namespace lib

// Common parameter domains
inline Param P_res(const char* n = "res") { return Param{n, 0, 2}; }
// Modified Julian Days whose whole range of microseconds (and differences of two) fits 64 bits
inline Param P_mjd(const char* n = "mjd", i64 lo = -50000000 / 21, i64 hi = 50000000) {
  return Param{n, lo, hi,
    {0, 15385, 15020, 40587, 41317, 41499, 44239, 44243, 44244, 44250, 44251, 51543, 51544, 51603, 51604, 51605, 57753, 57754,
     59214, 59215, 73048, 73049, 88068, 88069, -678941, -678576, -2399963, 2973483}, 25};
}
// time of day, in microseconds
inline Param P_tod(const char* n = "tod") {
  return Param{n, 0, model::DAYUS - 1,
    {0, 1, 999, 1000, 999999, 1000000, 59000000, 59999999, 60000000, 3599999999, 3600000000, 43200000000,
     86399000000, 86399999000, 86399999999, 86340000000}, 25};
}
// a calendar year
inline Param P_year(const char* n = "y", i64 lo = -4799, i64 hi = 2147483647) {
  return Param{n, lo, hi, {0, 4, 100, 400, 1582, 1600, 1700, 1800, 1858, 1899, 1900, 1901, 1904, 1970, 1972, 1980, 1999, 2000, 2001, 2004,
    2015, 2016, 2017, 2019, 2020, 2024, 2096, 2099, 2100, 2101, 2400, 9999, 10000, -1, -4, -100, -400, -4713, -4712}, 40};
}
// lengths are folded where a case is evaluated under the sanitizers, which are slow
#if defined(__has_feature)
# if __has_feature(address_sanitizer)
#  define PBT_LEN_CAP 1100
# endif
#endif
#ifndef PBT_LEN_CAP
# define PBT_LEN_CAP 1000000
#endif
inline std::size_t run_length(i64 n) { return static_cast<std::size_t>(n % PBT_LEN_CAP); }
// a length of text; sizes at which fixed buffers end are more frequent
inline Param P_len(const char* n, i64 hi = 200000) {
  return Param{n, 0, hi, {0, 0, 0, 1, 7, 15, 16, 23, 31, 32, 63, 64, 79, 80, 99, 100, 127, 128, 199, 200, 255, 256, 257, 511, 512, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 8191, 8192, 16384, 32767, 32768, 65535, 65536, 100000, 131072}, 50};
}
