// C07: comparison is the order of instants
#include "../lib.hpp"
using namespace lib;
namespace {
template<class D> void six(const D& x, const D& y, int want, const char* what) {
  REQ((x < y) == (want < 0), "%s: < is wrong", what);
  REQ((x > y) == (want > 0), "%s: > is wrong", what);
  REQ((x == y) == (want == 0), "%s: == is wrong", what);
  REQ((x <= y) == (want <= 0), "%s: <= is wrong", what);
  REQ((x >= y) == (want >= 0), "%s: >= is wrong", what);
  REQ((x != y) == (want != 0), "%s: != is wrong", what);
}
int cmp(i128 a, i128 b) { return a < b ? -1 : a > b ? 1 : 0; }
Param P_any_mjd(const char* n) { return Param{n, INT64_MIN, INT64_MAX, {0, 1, -1, 51544, 57754, INT64_MIN, INT64_MAX, INT64_MIN + 1, INT64_MAX - 1, 2147483647, 2147483648, -2147483648LL, 4294967296}, 40}; }
Param P_dm(const char* n) { return Param{n, INT64_MIN, INT64_MAX, {0, 0, 1, -1}, 50}; }
Param P_dt(const char* n) { return Param{n, -model::DAYUS + 1, model::DAYUS - 1, {0, 0, 1, -1, 1000, -1000, 1000000, -1000000}, 50}; }
}
Prop pbt::make_prop() {
  Prop p{"C07", {}};
  { Sub s;
    s.name = "order"; s.rule = "same day, or the later day has the earlier time of day";
    s.head = {P_res(), P_any_mjd("mjd"), P_tod(), P_dm("ddays"), P_dt("dtod"), P_dm("ddays2"), P_dt("dtod2")};
    s.weight = 60;
    s.eval = [](const Args& a, Ctx& c) {
      with_res(a[0], [&](auto g) {
        using S = typename decltype(g)::type;
        constexpr int r = decltype(g)::r;
        const i64 f = 1000000 / FAC[r];
        i64 m[3], t[3];
        m[0] = a[1]; t[0] = a[2];
        for (int k = 1; k < 3; ++k) {
          const i128 n = static_cast<i128>(m[k - 1]) + a[1 + 2 * k];
          m[k] = n > INT64_MAX ? INT64_MAX : n < INT64_MIN ? INT64_MIN : static_cast<i64>(n);
          t[k] = model::floor_mod(t[k - 1] + a[2 + 2 * k], model::DAYUS);
        }
        for (int k = 0; k < 3; ++k) t[k] /= f;
        const datetime<S> x[3] = {mk<S>(m[0], t[0]), mk<S>(m[1], t[1]), mk<S>(m[2], t[2])};
        for (int i = 0; i < 3; ++i)
          for (int j = 0; j < 3; ++j) {
            const int w = cmp(model::total(m[i], t[i], r), model::total(m[j], t[j], r));
            six(x[i], x[j], w, "date-times");
            REQ((x[i] < x[j]) + (x[i] == x[j]) + (x[i] > x[j]) == 1, "not exactly one of <, ==, > holds");
          }
        for (int i = 0; i < 3; ++i)
          for (int j = 0; j < 3; ++j)
            for (int k = 0; k < 3; ++k)
              REQ(!(x[i] <= x[j] && x[j] <= x[k]) || x[i] <= x[k], "order is not transitive");
        for (int i = 0; i < 3; ++i) {
          REQ(datetime<S>::min() <= x[i], "the minimum is not a lower bound");
          six(datetime<S>::min(), x[i], cmp(model::total(INT64_MIN, 0, r), model::total(m[i], t[i], r)), "minimum");
          if (m[i] < INT64_MAX) REQ(x[i] <= datetime<S>::max() && x[i] < datetime<S>::max(), "the maximum is not an upper bound");
          six(x[i], datetime<S>::max(), cmp(model::total(m[i], t[i], r), model::total(INT64_MAX, 0, r)), "maximum");
        }
        expect_dt(datetime<S>::max(), INT64_MAX, 0, "maximum");
        expect_dt(datetime<S>::min(), INT64_MIN, 0, "minimum");
        REQ(modified_julian_day::min() <= x[0].mjd() && x[0].mjd() <= modified_julian_day::max(), "day number bounds");
        c.nontrivial(m[0] == m[1] || (m[0] < m[1] && t[0] > t[1]) || (m[0] > m[1] && t[0] < t[1]));
        c.label_if(m[0] == m[1] && t[0] == t[1], "equal");
        c.label_if(m[0] == m[1] && t[0] != t[1], "same day");
        c.label_if((m[0] < m[1] && t[0] > t[1]) || (m[0] > m[1] && t[0] < t[1]), "days and times of day in opposite order");
      });
    };
    p.subs.push_back(s); }
  { Sub s;
    s.name = "intervals"; s.rule = "same number of days, or the longer in days has fewer seconds";
    s.head = {P_res(), P_any_mjd("days"), P_tod(), P_dm("ddays"), P_dt("dtod")};
    s.weight = 30;
    s.eval = [](const Args& a, Ctx& c) {
      with_res(a[0], [&](auto g) {
        using S = typename decltype(g)::type;
        constexpr int r = decltype(g)::r;
        const i64 f = 1000000 / FAC[r];
        const i128 n = static_cast<i128>(a[1]) + a[3];
        const i64 m0 = a[1], m1 = n > INT64_MAX ? INT64_MAX : n < INT64_MIN ? INT64_MIN : static_cast<i64>(n);
        const i64 t0 = a[2] / f, t1 = model::floor_mod(a[2] + a[4], model::DAYUS) / f;
        const datetime_interval<S> x{modified_julian_day{m0}, S{t0}}, y{modified_julian_day{m1}, S{t1}};
        const int w = cmp(model::total(m0, t0, r), model::total(m1, t1, r));
        six(x, y, w, "intervals");
        six(y, x, -w, "intervals, swapped");
        six(x, datetime_interval<S>{x}, 0, "interval and its copy");
        six(x, datetime_interval<S>{}, cmp(model::total(m0, t0, r), 0), "interval and zero");
        c.nontrivial(m0 == m1 || (m0 < m1 && t0 > t1) || (m0 > m1 && t0 < t1));
        c.label_if(m0 == m1 && t0 == t1, "equal");
        c.label_if((m0 < m1 && t0 > t1) || (m0 > m1 && t0 < t1), "days and seconds in opposite order");
      });
    };
    p.subs.push_back(s); }
  { Sub s;
    s.name = "arithmetic"; s.rule = "the added amount crosses midnight";
    s.head = {P_res(), P_mjd("mjd", -2000000, 49000000), P_tod(), Param{"amount", 0, model::DAYUS * 400, {0, 1, 1000, 1000000, 86400000000}, 20}};
    s.weight = 10;
    s.eval = [](const Args& a, Ctx& c) {
      with_res(a[0], [&](auto g) {
        using S = typename decltype(g)::type;
        constexpr int r = decltype(g)::r;
        const i64 f = 1000000 / FAC[r];
        const i64 t0 = a[2] / f, amt = a[3] / f;
        const datetime<S> x = mk<S>(a[1], t0);
        datetime<S> y{x};
        y.add_seconds(S(amt));
        six(x, y, amt ? -1 : 0, "before and after adding");
        datetime<S> z{y};
        z.remove_seconds(S(amt));
        six(x, z, 0, "added and removed");
        c.nontrivial(t0 + amt >= DAY[r]);
      });
    };
    p.subs.push_back(s); }
  return p;
}
