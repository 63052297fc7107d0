// C09: adding or removing time of another resolution
#include "../lib.hpp"
using namespace lib;
namespace {
constexpr i64 MLO = -4000000000000000000LL, MHI = 4000000000000000000LL;
constexpr i64 AMAX = INT64_MAX - 2 * model::DAYUS;
}
Prop pbt::make_prop() {
  Prop p{"C09", {}};
  for (int which = 0; which < 2; ++which) {
    Sub s;
    s.name = which ? "add_days" : "add_remove"; s.rule = "the resolutions differ and the amount has a part below the coarser unit or crosses midnight";
    s.head = {P_res("res"), P_res("other"), P_mjd("mjd", MLO, MHI), P_tod(),
      Param{"amount", -AMAX, AMAX, {0, 1, -1, 999, -999, 1000, -1000, 1001, 1999, 999999, -999999, 1000000, 1000001, 1999999, -1000001, 86399999999, -86399999999, 86400000000, 86400000001, -86400000000}, 35},
      Param{"mag", 0, 3}, Param{"days", MLO, MHI, {0, 1, -1, 7, 365}, 50}};
    s.weight = which ? 40 : 60;
    s.eval = [which](const Args& a, Ctx& c) {
      with_res2(a[0], a[1], [&](auto g, auto h) {
        using S = typename decltype(g)::type; using T = typename decltype(h)::type;
        constexpr int rs = decltype(g)::r, rt = decltype(h)::r;
        const i64 tod = a[3] / (1000000 / FAC[rs]);
        // an amount of T whose value fits both resolutions
        i64 n = a[4];
        if (a[5] == 0) n %= 2 * DAY[rt] + 2; else if (a[5] == 1) n %= DAY[rt] * 40000; else if (a[5] == 2) n %= 5000;
        if (rs > rt) n /= FAC[rs] / FAC[rt];
        constexpr i64 up = rs > rt ? FAC[rs] / FAC[rt] : 1;      // coarser T: exact
        constexpr i64 down = rt > rs ? FAC[rt] / FAC[rs] : 1;    // finer T: maybe a remainder
        const i128 base = model::total(a[2], tod, rs) * down;    // in the finer unit
        const i128 amt = static_cast<i128>(n) * up;
        const bool whole = amt % down == 0;
        auto inside = [&](i128 tot) { const i128 q = model::floor_div128(tot, DAY[rs] * down); return q > MLO && q < MHI; };
        auto check = [&](const datetime<S>& t, i128 exact, const char* what) {
          const i128 got = model::total(u(t.mjd()), u(t.sec()), rs) * down;
          REQ(u(t.sec()) >= 0 && u(t.sec()) < DAY[rs], "%s: not normalised: %ld", what, u(t.sec()));
          const i128 diff = got - exact;
          if (whole) REQ(diff == 0, "%s: off by %lld of the finer unit", what, static_cast<long long>(diff));
          else REQ(diff < down && diff > -down, "%s: off by %lld of the finer unit, a unit is %lld", what, static_cast<long long>(diff), static_cast<long long>(down));
        };
        const datetime<S> t0 = mk<S>(a[2], tod);
        if (which == 0) {
          if (inside(base + amt)) { datetime<S> t{t0}; t.add_seconds(T(n)); check(t, base + amt, "add_seconds"); c.label("added"); }
          if (inside(base - amt)) { datetime<S> t{t0}; t.remove_seconds(T(n)); check(t, base - amt, "remove_seconds"); }
          if (inside(base + amt) && whole) {
            datetime<S> t{t0};
            t.add_seconds(T(n)); t.remove_seconds(T(n));
            REQ(t == t0, "adding and removing the same amount does not give the original");
          }
        } else if constexpr (rt >= rs) {
          const i128 exact = base + amt + static_cast<i128>(a[6]) * DAY[rs] * down;
          if (inside(exact)) {
            const datetime<S> t = t0.add(modified_julian_day{a[6]}, T(n));
            check(t, exact, "add");
            const datetime<S> d = t0.template add<T>(modified_julian_day{a[6]});
            if (inside(base + static_cast<i128>(a[6]) * DAY[rs] * down)) expect_dt(d, a[2] + a[6], tod, "adding days only");
            c.label("added");
          }
        } else c.label("not provided");
        expect_dt(t0, a[2], tod, "original");
        const i128 q0 = model::floor_div128(base, DAY[rs] * down), q1 = model::floor_div128(base + amt, DAY[rs] * down);
        c.nontrivial(rs != rt && (!whole || q0 != q1));
        c.label_if(!whole, "part of a unit");
        c.label_if(n < 0, "negative amount");
        c.label_if(rt > rs, "finer than the date-time");
        c.label_if(rt < rs, "coarser than the date-time");
      });
    };
    p.subs.push_back(s);
  }
  return p;
}
