// Independent reference model: plain integer arithmetic, no code of the library.
#pragma once
#include "core.hpp"

namespace model {
using pbt::i64;
using pbt::i128;

constexpr i64 floor_div(i64 a, i64 b) { i64 q = a / b; return (a % b != 0 && ((a < 0) != (b < 0))) ? q - 1 : q; }
constexpr i64 floor_mod(i64 a, i64 b) { const i64 r = a % b; return r != 0 && ((r < 0) != (b < 0)) ? r + b : r; }
constexpr i128 floor_div128(i128 a, i128 b) { i128 q = a / b; return (a % b != 0 && ((a < 0) != (b < 0))) ? q - 1 : q; }

constexpr bool leap(i64 y) { return floor_mod(y, 4) == 0 && (floor_mod(y, 100) != 0 || floor_mod(y, 400) == 0); }
constexpr int dim(i64 y, i64 m) {
  return m == 2 ? (leap(y) ? 29 : 28) : (m == 4 || m == 6 || m == 9 || m == 11) ? 30 : 31;
}
constexpr int days_in_year(i64 y) { return leap(y) ? 366 : 365; }
constexpr bool valid(i64 y, i64 m, i64 d) { return m >= 1 && m <= 12 && d >= 1 && d <= dim(y, m); }

// days before January 1 of year y, counted from January 1 of year 1 (proleptic Gregorian)
constexpr i64 days_before_year(i64 y) {
  const i64 p = y - 1;
  return 365 * p + floor_div(p, 4) - floor_div(p, 100) + floor_div(p, 400);
}
constexpr int days_before_month(i64 y, i64 m) {
  int n = 0;
  for (int k = 1; k < m; ++k) n += dim(y, k);
  return n;
}
// 1858-11-17 is day 0
constexpr i64 ymd2mjd(i64 y, i64 m, i64 d) {
  return days_before_year(y) + days_before_month(y, m) + d - (days_before_year(1858) + days_before_month(1858, 11) + 17);
}
static_assert(ymd2mjd(1858, 11, 17) == 0, "");
static_assert(ymd2mjd(2000, 1, 1) == 51544, "");
static_assert(ymd2mjd(1980, 1, 6) == 44244, "");

struct YD { i64 y; int doy; };
struct YMD { i64 y; int m, d; };
constexpr YD mjd2yd(i64 mjd) {
  // day number with 1 = January 1 of year 1
  const i64 n = mjd + days_before_year(1858) + days_before_month(1858, 11) + 17;
  i64 y = floor_div(n, 146097) * 400 + floor_div(floor_mod(n, 146097) * 400, 146097) + 1; // estimate
  while (days_before_year(y) >= n) --y;
  while (days_before_year(y + 1) < n) ++y;
  return YD{y, static_cast<int>(n - days_before_year(y))};
}
constexpr YMD yd2ymd(i64 y, int doy) {
  int m = 1;
  while (doy > dim(y, m)) { doy -= dim(y, m); ++m; }
  return YMD{y, m, doy};
}
constexpr YMD mjd2ymd(i64 mjd) { YD yd = mjd2yd(mjd); return yd2ymd(yd.y, yd.doy); }

constexpr i64 kMinMjd = ymd2mjd(-4800, 3, 1);              // start of the documented range
constexpr i64 kMaxMjd = ymd2mjd(2147483647LL, 12, 31);     // end of the int year range
constexpr i64 FAC[3] = {1, 1000, 1000000};                 // units per second
constexpr i64 DAY[3] = {86400, 86400000, 86400000000LL};   // units per day
constexpr i64 DAYUS = DAY[2];

struct Instant { i64 mjd, tod; };                          // normalised
constexpr Instant norm(i64 mjd, i64 sec, int res) {
  return Instant{mjd + floor_div(sec, DAY[res]), floor_mod(sec, DAY[res])};
}
constexpr Instant from_total(i128 t, int res) {
  const i128 q = floor_div128(t, DAY[res]);
  return Instant{static_cast<i64>(q), static_cast<i64>(t - q * DAY[res])};
}
constexpr i128 total(i64 mjd, i64 sec, int res) { return static_cast<i128>(mjd) * DAY[res] + sec; }

constexpr i64 clampi(i64 v, i64 lo, i64 hi) { return v < lo ? lo : v > hi ? hi : v; }
} // namespace model
