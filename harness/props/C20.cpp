// C20: floating-point views
#include "../lib.hpp"
using namespace lib;
namespace {
using ld = long double;   // 64-bit mantissa: the reference
Param P_amt(const char* n) {
  return Param{n, INT64_MIN, INT64_MAX, {0, 1, -1, 999, 1000, 86399, 86400, 43200, 86399999, 86400000, 86399999999, 86400000000, 9007199254740992, 9007199254740993, -9007199254740993, INT64_MAX, INT64_MIN}, 30};
}
double ulp(double x) { x = std::abs(x); return std::nextafter(x, HUGE_VAL) - x; }
void close(double got, ld want, double scale, double n, const char* what) {
  const double tol = n * ulp(scale > std::abs(static_cast<double>(want)) ? scale : static_cast<double>(want));
  const ld diff = static_cast<ld>(got) - want;
  if (!(diff <= static_cast<ld>(tol) && -diff <= static_cast<ld>(tol))) failf("%s: got %.20g, want %.22Lg", what, got, want);
}
}
Prop pbt::make_prop() {
  Prop p{"C20", {}};
  { Sub s;
    s.name = "amounts"; s.rule = "not a whole number of days";
    s.head = {P_res(), P_amt("amount"), Param{"mag", 0, 2}, Param{"more", 0, INT64_MAX, {0, 1, 1, 1000, 86400}, 60}};
    s.weight = 40;
    s.eval = [](const Args& a, Ctx& c) {
      with_res(a[0], [&](auto g) {
        using S = typename decltype(g)::type;
        constexpr int r = decltype(g)::r;
        i64 n = a[1];
        if (a[2] == 0) n = model::floor_mod(n, DAY[r]);
        const S x{n};
        close(x.fractional_days(), static_cast<ld>(n) / static_cast<ld>(DAY[r]), 0, 3, "fractional days");
        close(x.to_fractional_seconds(), static_cast<ld>(n) / static_cast<ld>(FAC[r]), 0, 3, "fractional seconds");
        if constexpr (r == 1) if (n >= 0) {
          double f;
          const seconds w = x.resolve_sec(f);
          EQ(u(w), n / 1000, "whole seconds");
          close(f, static_cast<ld>(n % 1000) / 1000, 0, 3, "sub-second fraction");
          REQ(f >= 0 && f < 1, "sub-second fraction %.17g", f);
        }
        // never decreasing
        const i128 m = static_cast<i128>(n) + (a[2] == 0 ? a[3] % DAY[r] : a[3]);
        if (m <= INT64_MAX) {
          const S y{static_cast<i64>(m)};
          REQ(x.fractional_days() <= y.fractional_days(), "fractional days decrease");
          REQ(x.to_fractional_seconds() <= y.to_fractional_seconds(), "fractional seconds decrease");
        }
        c.nontrivial(n % DAY[r] != 0);
        c.label_if(a[2] == 0, "a time of day");
        c.label_if(n < 0, "negative");
        c.label_if(n > (1LL << 53) || n < -(1LL << 53), "beyond 2^53");
      });
    };
    p.subs.push_back(s); }
  { Sub s;
    s.name = "datetimes"; s.rule = "not midnight";
    s.head = {P_res(), Param{"mjd", -4000000000000000LL, 4000000000000000LL, P_mjd().pts, 30}, P_tod(), Param{"ddays", 0, 1000000, {0, 0, 1}, 60}, Param{"dtod", -model::DAYUS, model::DAYUS, {0, 1, 1000, 1000000}, 30}, Param{"mag", 0, 2}};
    s.weight = 60;
    s.eval = [](const Args& a, Ctx& c) {
      with_res(a[0], [&](auto g) {
        using S = typename decltype(g)::type;
        constexpr int r = decltype(g)::r;
        const i64 f = 1000000 / FAC[r];
        const i64 m0 = a[5] == 2 ? a[1] : a[1] % 3000000, t0 = a[2] / f;
        const i64 m1 = m0 + a[3], t1 = model::clampi(a[2] + a[4], 0, model::DAYUS - 1) / f;
        const datetime<S> x = mk<S>(m0, t0), y = mk<S>(m1, t1);
        const datetime_interval<S> ix{modified_julian_day{m0}, S{t0}}, iy{modified_julian_day{m1}, S{t1}};
        const ld want = static_cast<ld>(m0) + static_cast<ld>(t0) / static_cast<ld>(DAY[r]);
        const double scale = std::max(1.0, std::abs(static_cast<double>(m0)));   // a negative day number and its fraction may cancel
        close(x.as_mjd(), want, t0 && m0 < 0 ? scale : 0, 3, "fractional Modified Julian Date");
        close(ix.as_mjd(), want, t0 && m0 < 0 ? scale : 0, 3, "fractional days of an interval");
        close(modified_julian_day{m0}.to_julian_day(), static_cast<ld>(m0) + 2400000.5L, m0 < 0 ? scale : 0, 3, "Julian Day");
        const bool le = m0 < m1 || (m0 == m1 && t0 <= t1);
        if (le) {
          REQ(x.as_mjd() <= y.as_mjd(), "fractional Modified Julian Date decreases");
          REQ(ix.as_mjd() <= iy.as_mjd(), "fractional days of an interval decrease");
        } else {
          REQ(x.as_mjd() >= y.as_mjd(), "fractional Modified Julian Date decreases");
          REQ(ix.as_mjd() >= iy.as_mjd(), "fractional days of an interval decrease");
        }
        REQ(modified_julian_day{m0}.to_julian_day() <= modified_julian_day{m1}.to_julian_day(), "Julian Day decreases");
        c.nontrivial(t0 != 0);
        c.label_if(m0 == m1, "same day");
        c.label_if(m1 == m0 + 1, "next day");
        c.label_if(m0 < 0, "negative day number");
      });
    };
    s.enum_n = [](bool th) { return static_cast<i64>(86400) * (th ? 200 : 10) * 3; };
    s.enum_at = [](i64 i, i64* v) {
      v[0] = i % 3; i /= 3;
      v[1] = 57000 + i / 86400 * 37; v[2] = i % 86400 * 1000000 + (i * 7919) % 1000000; v[3] = 0; v[4] = i % 2 ? 1 : 1000; v[5] = 0;
    };
    p.subs.push_back(s); }
  return p;
}
