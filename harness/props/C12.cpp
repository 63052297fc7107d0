// C12: fractional seconds keep every digit of the resolution
#include <memory>
#include "../lib.hpp"
#include "datetime_read.hpp"
using namespace lib;
namespace {
const i64 P10[] = {1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000, 10000000000, 100000000000, 1000000000000};
const int NDIG[3] = {0, 3, 6};
std::string pad(i64 v, int w) { std::string s = std::to_string(v); while (static_cast<int>(s.size()) < w) s = "0" + s; return s; }
// units of resolution r that "whole.digits" (e digits) spells, further digits cut off
i64 cut(i64 whole, i64 digits, int e, int r) {
  const int n = NDIG[r];
  return whole * FAC[r] + (e >= n ? digits / P10[e - n] : digits * P10[n - e]);
}
// Is the decimal further from the next unit than a double can tell (4 ulp)?
bool distinct_from_next(i64 whole, i64 digits, int e, int r) {
  if (e <= NDIG[r]) return true;
  const i64 rest = P10[e - NDIG[r]] - digits % P10[e - NDIG[r]];          // to the next unit, in 10^-(e-n) units
  const double gap = static_cast<double>(rest) / static_cast<double>(P10[e - NDIG[r]]);
  return gap > static_cast<double>(whole * FAC[r] + FAC[r]) * 8.9e-16;
}
template<class S> void check(i64 h, i64 mn, double v, i64 want, int r, bool full, const char* text) {
  const hours H(static_cast<int>(h)); const minutes MN(static_cast<int>(mn));
  const i64 base = (h * 3600 + mn * 60) * FAC[r];
  const S x(H, MN, v);
  if (u(x) != base + want) failf("%lld:%lld:%s s gives %ld units, want %lld", static_cast<long long>(h), static_cast<long long>(mn), text, u(x), static_cast<long long>(base + want));
  if (!full) return;
  const model::Instant n = model::norm(57023, base + want, r);
  expect_dt(datetime<S>(year(2015), month(1), day_of_month(1), H, MN, v), n.mjd, n.tod, "date-time from calendar date and fractional seconds");
  expect_dt(datetime<S>(year(2015), day_of_year(1), H, MN, v), n.mjd, n.tod, "date-time from day-of-year and fractional seconds");
}
template<class S> void check_text(i64 h, i64 mn, const std::string& sec, i64 want, int r) {
  const model::Instant n = model::norm(57023, (h * 3600 + mn * 60) * FAC[r] + want, r);
  const std::string hm = pad(h, 2) + ":" + pad(mn, 2) + ":" + sec;
  expect_dt(strptime_ymd_hms<S>(("2015-01-01 " + hm).c_str()), n.mjd, n.tod, "read year-month-day text");
  expect_dt(strptime_yod_hms<S>(("2015-Jan-01 " + hm).c_str()), n.mjd, n.tod, "read year-month name-day text");
  expect_dt(strptime_ydoy_hms<S>(("2015-001 " + hm).c_str()), n.mjd, n.tod, "read year-day-of-year text");
}
}
Prop pbt::make_prop() {
  Prop p{"C12", {}};
  { Sub s;
    s.name = "resolution"; s.rule = "a fraction that is no multiple of 1/8 second";
    s.head = {P_res(), Param{"units", 0, 60000000 - 1, {0, 1, 2, 1001, 59999999, 59999, 1000000, 999999}, 10}, Param{"h", 0, 23}, Param{"mn", 0, 59}};
    s.weight = 40;
    s.eval = [](const Args& a, Ctx& c) {
      with_res(a[0], [&](auto g) {
        using S = typename decltype(g)::type;
        constexpr int r = decltype(g)::r;
        const i64 k = a[1] % (60 * FAC[r]);
        // correctly rounded, so this is the double nearest to the decimal
        const double v = static_cast<double>(k) / static_cast<double>(FAC[r]);
        check<S>(a[2], a[3], v, k, r, true, "(resolution digits)");
        check<S>(a[2], a[3], -v, -k, r, k % 5 == 0, "(resolution digits, negative)");
        c.nontrivial((k * 8) % FAC[r] != 0);
        if (k % 16 == 0) {
          const std::string t = pad(k / FAC[r], 2) + (r ? "." + pad(k % FAC[r], NDIG[r]) : "");
          check_text<S>(a[2], a[3], t, k, r);
          c.label("also as text");
        }
      });
    };
    // all 60000 millisecond values and a stride (all, in the thorough tier) of the 60 million microsecond values
    s.enum_n = [](bool th) { return static_cast<i64>(60) + 60000 + (th ? 60000000 : 60000000 / 7); };
    s.enum_at = [](i64 i, i64* v) {
      static const bool th = getenv("PBT_TIER") && std::string(getenv("PBT_TIER")) == "thorough";
      v[2] = i % 24; v[3] = (i * 7) % 60;
      if (i < 60) { v[0] = 0; v[1] = i; }
      else if (i < 60060) { v[0] = 1; v[1] = i - 60; }
      else { v[0] = 2; v[1] = (i - 60060) * (th ? 1 : 7); }
    };
    p.subs.push_back(s); }
  { Sub s;
    s.name = "digits"; s.rule = "non-zero digits beyond the resolution";
    s.head = {P_res(), Param{"whole", 0, 2000000000, {0, 1, 9, 30, 58, 59, 59, 60, 86399, 86400}, 70}, Param{"ndigits", 0, 12}, Param{"digits", 0, 999999999999, {0, 1, 9, 999999999999, 999999, 999}, 30},
      Param{"h", 0, 30}, Param{"mn", 0, 99}};
    s.weight = 40;
    s.eval = [](const Args& a, Ctx& c) {
      with_res(a[0], [&](auto g) {
        using S = typename decltype(g)::type;
        constexpr int r = decltype(g)::r;
        const int e = static_cast<int>(a[2]);
        const i64 dig = a[3] % P10[e];
        if (!distinct_from_next(a[1], dig, e, r)) { c.label("not distinguishable as a double: skipped"); return; }
        const std::string t = std::to_string(a[1]) + (e ? "." + pad(dig, e) : "");
        const double v = strtod(t.c_str(), nullptr);
        const i64 want = cut(a[1], dig, e, r);
        check<S>(a[4], a[5], v, want, r, true, t.c_str());
        check_text<S>(a[4], a[5], t, want, r);
        c.nontrivial(e > NDIG[r] && dig % P10[e - NDIG[r]] != 0);
        c.label_if(e > NDIG[r] && dig % P10[e - NDIG[r]] > P10[e - NDIG[r]] / 2, "further digits above one half");
        c.label_if(a[1] >= 60, "60 seconds or more");
      });
    };
    p.subs.push_back(s); }
  { Sub s;
    s.name = "nines"; s.rule = "the digits beyond the resolution are all nines";
    s.head = {P_res(), Param{"whole", 0, 59}, Param{"unit", 0, 999999, {0, 999999, 999, 0, 1}, 20}, Param{"extra", 1, 6}};
    s.weight = 20;
    s.eval = [](const Args& a, Ctx& c) {
      with_res(a[0], [&](auto g) {
        using S = typename decltype(g)::type;
        constexpr int r = decltype(g)::r;
        const i64 k = a[2] % FAC[r];
        const int e = NDIG[r] + static_cast<int>(a[3]);
        const i64 dig = k * P10[a[3]] + P10[a[3]] - 1;
        if (!distinct_from_next(a[1], dig, e, r)) { c.label("not distinguishable as a double: skipped"); return; }
        const std::string t = pad(a[1], 2) + "." + pad(dig, e);
        check<S>(7, 11, strtod(t.c_str(), nullptr), a[1] * FAC[r] + k, r, true, t.c_str());
        check_text<S>(7, 11, t, a[1] * FAC[r] + k, r);
        c.nontrivial();
      });
    };
    p.subs.push_back(s); }
  return p;
}
