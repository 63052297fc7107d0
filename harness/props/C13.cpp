// C13: GPS week and seconds of week
#include "../lib.hpp"
using namespace lib;
namespace {
constexpr i64 MHI = 4000000000000000000LL;
Param P_gmjd() { return Param{"mjd", 44244, MHI, {44244, 44245, 44250, 44251, 44252, 51409, 51410, 51412, 57753, 57754, 58574, 58579, 58580, 59215, 1000000, MHI}, 25}; }
}
Prop pbt::make_prop() {
  Prop p{"C13", {}};
  { Sub s;
    s.name = "split"; s.rule = "not the first day of a week, or within a second of midnight";
    s.head = {P_res(), P_gmjd(), P_tod()};
    s.weight = 60;
    s.eval = [](const Args& a, Ctx& c) {
      with_res(a[0], [&](auto g) {
        using S = typename decltype(g)::type;
        constexpr int r = decltype(g)::r;
        const i64 tod = a[2] / (1000000 / FAC[r]);
        const i64 week = (a[1] - 44244) / 7, dow = (a[1] - 44244) % 7;
        const datetime<S> t = mk<S>(a[1], tod);
        long ls = -1;
        const gps_week w1 = t.as_gps_wsow(ls);
        EQ(u(w1), week, "week (with whole seconds)");
        EQ(ls, dow * 86400 + tod / FAC[r], "seconds of week");
        REQ(ls >= 0 && ls < 604800, "seconds of week out of range");
        S sow{-1};
        const gps_week w2 = t.as_gps_wsow(sow);
        EQ(u(w2), week, "week");
        EQ(u(sow), dow * DAY[r] + tod, "units of week");
        REQ(u(sow) >= 0 && u(sow) < 7 * DAY[r], "units of week out of range");
        REQ(w2.is_valid(), "valid week");
        expect_dt(t, a[1], tod, "the date-time itself");
        // back
        expect_dt(datetime<S>(w2, sow), a[1], tod, "rebuilt");
        expect_dt(datetime<seconds>(w1, seconds{ls}), a[1], tod / FAC[r], "rebuilt from whole seconds");
        // Sunday is 0: 1858-11-17 was a Wednesday
        const int wd = static_cast<int>(model::floor_mod(a[1] + 3, 7));
        EQ(day_of_week(sow), wd, "day of week");
        EQ(day_of_week(seconds{ls}), wd, "day of week from whole seconds");
        EQ(day_of_week(milliseconds{dow * DAY[1] + DAY[1] - 1}), wd, "day of week from milliseconds");
        EQ(day_of_week(microseconds{dow * DAY[2]}), wd, "day of week from microseconds");
        c.nontrivial(dow != 0 || tod < FAC[r] || tod >= DAY[r] - FAC[r]);
        c.label_if(dow == 6 && tod >= DAY[r] - FAC[r], "last second of a week");
        c.label_if(dow == 0 && tod == 0, "start of a week");
      });
    };
    // every day of the first 100 years (1000 in the thorough tier), first, middle and last instant of the day, every resolution
    s.enum_n = [](bool th) { return static_cast<i64>(th ? 365250 : 110000) * 9; };
    s.enum_at = [](i64 i, i64* v) { v[0] = i % 3; const i64 k = i / 3 % 3; v[1] = 44244 + i / 9; v[2] = k == 0 ? 0 : k == 1 ? 43200500000 : model::DAYUS - 1; };
    p.subs.push_back(s); }
  { Sub s;
    s.name = "build"; s.rule = "the seconds reach beyond the first day of the week";
    s.head = {P_res(), Param{"week", 0, 500000000000000000LL, {0, 1, 1023, 1024, 1025, 2047, 2048, 2045}, 30},
      Param{"sow", 0, 4000000000000000000LL, {0, 1, 86399, 86400, 604799, 604800, 604801, 604799999, 604800000, 604799999999, 604800000000, 604800000001, 1209600000000}, 30}, Param{"mag", 0, 2}};
    s.weight = 40;
    s.eval = [](const Args& a, Ctx& c) {
      with_res(a[0], [&](auto g) {
        using S = typename decltype(g)::type;
        constexpr int r = decltype(g)::r;
        i64 n = a[2];
        if (a[3] == 0) n %= 7 * DAY[r]; else if (a[3] == 1) n %= 21 * DAY[r]; 
        const datetime<S> t(gps_week(a[1]), S{n});
        const i64 mjd = 44244 + a[1] * 7 + n / DAY[r];
        expect_dt(t, mjd, n % DAY[r], "built from week and seconds");
        S sow;
        const gps_week w = t.as_gps_wsow(sow);
        EQ(u(w), a[1] + n / (7 * DAY[r]), "its week");
        EQ(u(sow), n % (7 * DAY[r]), "its seconds of week");
        c.nontrivial(n >= DAY[r]);
        c.label_if(n >= 7 * DAY[r], "more than a week");
        c.label_if(n < 7 * DAY[r], "within the week");
      });
    };
    p.subs.push_back(s); }
  return p;
}
