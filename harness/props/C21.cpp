// C21: intervals
#include "../lib.hpp"
using namespace lib;
namespace {
constexpr i64 AMAX = 4000000000000000000LL;
}
Prop pbt::make_prop() {
  Prop p{"C21", {}};
  { Sub s;
    s.name = "normalised"; s.rule = "the seconds are negative or reach a day";
    s.head = {P_res(), Param{"days", -4000000000000000000LL, 4000000000000000000LL, {0, 1, 2, -1, 7, 365, 36525}, 30},
      Param{"sec", -AMAX, AMAX, {0, 1, -1, 86399, 86400, 86401, -86399, -86400, -86401, 86400000, -86400000, 86400000000, -86400000000, 86399999999, -86400000001, 172800000000, -172800000000, -123}, 40}};
    s.weight = 40;
    s.eval = [](const Args& a, Ctx& c) {
      with_res(a[0], [&](auto g) {
        using S = typename decltype(g)::type;
        constexpr int r = decltype(g)::r;
        const model::Instant w = model::norm(a[1], a[2], r);
        datetime_interval<S> d{modified_julian_day{a[1]}, S{a[2]}};
        expect_iv(d, w.mjd, w.tod, "interval");
        REQ(u(d.sec()) >= 0 && u(d.sec()) < DAY[r], "seconds part out of range");
        d.normalize();
        expect_iv(d, w.mjd, w.tod, "re-normalised interval");
        const datetime_interval<S> e{d.days(), d.sec()};
        REQ(e == d && !(e != d), "interval rebuilt from its parts");
        datetime_interval<S> z;
        expect_iv(z, 0, 0, "default interval");
        z = d;
        expect_iv(z, w.mjd, w.tod, "assigned interval");
        c.nontrivial(a[2] < 0 || a[2] >= DAY[r]);
        c.label_if(a[2] < 0, "negative seconds");
        c.label_if(a[2] < 0 && a[2] % DAY[r] == 0, "negative whole days");
        c.label_if(w.mjd < 0, "negative length");
      });
    };
    p.subs.push_back(s); }
  { Sub s;
    s.name = "divide"; s.rule = "a divisor above 1 and days that leave a remainder";
    s.head = {P_res(), Param{"days", 0, 4000000000000000000LL, {0, 1, 2, 6, 7, 10, 365, 366, 36525, 365250, 53375995, 106751990, 106751991, 106751992, 106751991167LL, 106751991167300LL, 53375995583650LL, 4503599627370496LL, 9007199254740992LL, 9007199254740993LL}, 40}, P_tod("sec"), Param{"div", 1, 2147483647, {1, 2, 3, 4, 5, 7, 10, 24, 60, 100, 1000, 86400, 2147483647}, 60}, Param{"mag", 0, 2}};
    s.weight = 60;
    s.eval = [](const Args& a, Ctx& c) {
      with_res(a[0], [&](auto g) {
        using S = typename decltype(g)::type;
        constexpr int r = decltype(g)::r;
        const i64 days = a[4] == 2 ? a[1] : a[4] ? a[1] % 50000000 : a[1] % 365250;
        const i64 sec = a[2] / (1000000 / FAC[r]);
        const int div = static_cast<int>(a[3]);
        const datetime_interval<S> d{modified_julian_day{days}, S{sec}};
        const datetime_interval<S> q = d / div;
        const i128 tot = model::total(days, sec, r), got = model::total(u(q.days()), u(q.sec()), r);
        REQ(u(q.sec()) >= 0 && u(q.sec()) < DAY[r], "quotient is not normalised");
        // |got - tot/div| < tol, in exact arithmetic scaled by div
        const i128 err = got * div - tot;
        const long double e = static_cast<long double>(err < 0 ? -err : err) / div;
        const long double tol = 2.0L + static_cast<long double>(tot) / div * 0x1p-50L;
        REQ(e < tol, "(%lld days, %lld) / %d is (%ld, %ld): off by %.3Lf units", static_cast<long long>(days), static_cast<long long>(sec), div, u(q.days()), u(q.sec()), e);
        if (r == 0 && days < 365250) REQ(e < 2, "off by two units or more");
        if (div == 1 && days <= 9007199254740992LL) REQ(err == 0, "division by one");
        expect_iv(d, days, sec, "dividend");
        c.nontrivial(div > 1 && days % div != 0);
        c.label_if(days >= 50000000, "far longer than a hundred thousand years");
        c.label_if(days < 365250, "below a thousand years");
        c.label_if(days % div == 0 && sec % div == 0, "divides exactly");
      });
    };
    s.enum_n = [](bool th) { return static_cast<i64>(3) * 400 * (th ? 400 : 40) * 4; };
    s.enum_at = [](i64 i, i64* v) {
      v[0] = i % 3; i /= 3;
      const i64 k = i % 4; i /= 4;
      v[2] = k == 0 ? 0 : k == 1 ? 1000000 : k == 2 ? 43200000000 : model::DAYUS - 1;
      v[1] = i % 400; i /= 400;
      v[3] = i + 1; v[4] = 2;
    };
    p.subs.push_back(s); }
  return p;
}
