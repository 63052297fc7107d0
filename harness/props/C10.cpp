// C10: splitting and composing the time of day
#include "../lib.hpp"
using namespace lib;
namespace {
constexpr i64 IMAX = 2147483647;
Param P_amt(const char* n) {
  return Param{n, 0, INT64_MAX, {0, 1, 59, 60, 61, 3599, 3600, 3601, 86399, 86400, 86401, 999, 1000, 59999, 60000, 3599999, 3600000, 86399999, 86400000, 86400001, 999999, 1000000,
    59999999, 60000000, 3599999999, 3600000000, 86399999999, 86400000000, 86400000001, 172800000000, INT64_MAX}, 40};
}
Param P_int(const char* n) { return Param{n, 0, IMAX, {0, 1, 23, 24, 25, 59, 60, 61, 119, 120, 1439, 1440, IMAX}, 40}; }
}
Prop pbt::make_prop() {
  Prop p{"C10", {}};
  { Sub s;
    s.name = "split"; s.rule = "at least one hour with a non-zero rest";
    s.head = {P_res(), P_amt("amount"), Param{"mag", 0, 2}};
    s.weight = 50;
    s.eval = [](const Args& a, Ctx& c) {
      with_res(a[0], [&](auto g) {
        using S = typename decltype(g)::type;
        constexpr int r = decltype(g)::r;
        const i64 lim = r == 2 ? INT64_MAX : (IMAX + 1) * 3600 * FAC[r];   // the hours fit an int
        i64 n = a[1] % lim;
        if (a[2] == 0) n %= 3 * DAY[r];
        if (n / FAC[r] / 3600 > IMAX) n %= DAY[r];
        const S x{n};
        const auto t = x.to_hmsf();
        const i64 h = u(std::get<0>(t)), m = u(std::get<1>(t)), sc = u(std::get<2>(t)), f = std::get<3>(t);
        REQ(m >= 0 && m < 60 && sc >= 0 && sc < 60 && f >= 0 && f < FAC[r] && h >= 0, "split %lld into %lld:%lld:%lld+%lld", static_cast<long long>(n), static_cast<long long>(h), static_cast<long long>(m), static_cast<long long>(sc), static_cast<long long>(f));
        REQ((static_cast<i128>(h) * 3600 + m * 60 + sc) * FAC[r] + f == n, "%lld splits into %lld:%lld:%lld+%lld", static_cast<long long>(n), static_cast<long long>(h), static_cast<long long>(m), static_cast<long long>(sc), static_cast<long long>(f));
        // and recomposes
        EQ(u(S(std::get<0>(t), std::get<1>(t), S{sc * FAC[r] + f})), n, "recomposed");
        const double fs = static_cast<double>(sc * FAC[r] + f) / static_cast<double>(FAC[r]);
        EQ(u(S(std::get<0>(t), std::get<1>(t), fs)), n, "recomposed with fractional seconds");
        // days
        if (n / DAY[r] <= IMAX) {
          S d{n};
          EQ(d.to_days(), n / DAY[r], "number of days");
          EQ(d.remove_days(), n / DAY[r], "days removed");
          EQ(u(d), n % DAY[r], "remainder");
          EQ(d.to_days(), 0, "days left");
          EQ(d.remove_days(), 0, "days removed again");
          REQ(!d.more_than_day(), "more than a day left");
        }
        REQ(x.more_than_day() == (n > DAY[r]), "more-than-a-day query of %lld", static_cast<long long>(n));
        EQ(u(x), n, "queries leave the amount alone");
        if constexpr (r == 1) {
          double fr = -1;
          const seconds w = x.resolve_sec(fr);
          EQ(u(w), n / 1000, "whole seconds");
          const double want = static_cast<double>(n % 1000) / 1000;
          REQ(std::abs(fr - want) <= 2.3e-16, "sub-second part of %lld: %.17g", static_cast<long long>(n), fr);
        }
        if (n < DAY[r]) {
          const auto v = mk<S>(51544, n).as_hmsf();
          REQ(u(std::get<0>(v)) == h && u(std::get<1>(v)) == m && u(std::get<2>(v)) == sc && std::get<3>(v) == f, "view of the date-time");
        }
        c.nontrivial(n >= 3600 * FAC[r] && n % (3600 * FAC[r]) != 0);
        c.label_if(n >= DAY[r], "a day or more");
        c.label_if(n > DAY[r] * 10000, "more than 10000 days");
        c.label_if(n == DAY[r], "exactly a day");
      });
    };
    // every second of two days, at three sub-second offsets; every resolution
    s.enum_n = [](bool th) { return static_cast<i64>(th ? 86400 * 40 : 172802) * 9; };
    s.enum_at = [](i64 i, i64* v) {
      const i64 r = i % 3, k = i / 3 % 3, sec = i / 9;
      v[0] = r; v[1] = sec * FAC[r] + (k == 0 ? 0 : k == 1 ? FAC[r] - 1 : FAC[r] / 2); v[2] = 2;
    };
    p.subs.push_back(s); }
  { Sub s;
    s.name = "compose"; s.rule = "60 minutes or more, 24 hours or more, or an amount of a minute or more";
    s.head = {P_res(), P_int("h"), P_int("m"), Param{"amount", 0, 1000000000000000000LL, {0, 1, 59999999, 60000000, 86400000000}, 30}, Param{"mag", 0, 3}};
    s.weight = 30;
    s.eval = [](const Args& a, Ctx& c) {
      with_res(a[0], [&](auto g) {
        using S = typename decltype(g)::type;
        constexpr int r = decltype(g)::r;
        const bool tod = a[4] == 0;   // a quarter of the cases are times of day
        const i64 ih = tod ? a[1] % 24 : a[1], im = tod ? a[2] % 60 : a[2], n = tod ? a[3] % (60 * FAC[r]) : a[3];
        const hours h(static_cast<int>(ih)); const minutes m(static_cast<int>(im)); const S x{n};
        EQ(u(S(h, m, x)), static_cast<i128>(n) + (static_cast<i128>(ih) * 3600 + im * 60) * FAC[r], "total");
        c.nontrivial(im >= 60 || ih >= 24 || n >= 60 * FAC[r]);
        c.label_if(tod, "a time of day");
      });
    };
    p.subs.push_back(s); }
  { Sub s;
    s.name = "hours"; s.rule = "24 hours or 60 minutes or more";
    s.head = {P_int("h"), P_int("m")};
    s.weight = 20;
    s.eval = [](const Args& a, Ctx& c) {
      hours h(static_cast<int>(a[0]));
      EQ(h.remove_days(), a[0] / 24, "days removed from hours");
      EQ(u(h), a[0] % 24, "hours left");
      EQ(h.remove_days(), 0, "days removed again");
      minutes m(static_cast<int>(a[1]));
      EQ(u(m.remove_hours()), a[1] / 60, "hours removed from minutes");
      EQ(u(m), a[1] % 60, "minutes left");
      EQ(u(m.remove_hours()), 0, "hours removed again");
      c.nontrivial(a[0] >= 24 || a[1] >= 60);
    };
    s.enum_n = [](bool) { return static_cast<i64>(5000); };
    s.enum_at = [](i64 i, i64* v) { v[0] = i; v[1] = i; };
    p.subs.push_back(s); }
  return p;
}
