// C06: differences
#include <algorithm>
#include "../lib.hpp"
using namespace lib;
namespace {
constexpr i64 MLO = -4000000000000000000LL, MHI = 4000000000000000000LL;
Param P_dm(const char* n) { return Param{n, MLO, MHI, {0, 1, -1, 2, 7, -7, 365, -365}, 50}; }
Param P_dt(const char* n) { return Param{n, -model::DAYUS + 1, model::DAYUS - 1, {0, 1, -1, 1000, -1000, 1000000, -1000000, 999999, 86399000000}, 40}; }
struct P2 { i64 m, t; };   // day and microsecond of day
// the shift in days is reduced so that differences in seconds of resolution r stay representable
P2 shifted(P2 a, i64 dm, i64 dt, int r) {
  const i64 lim = INT64_MAX / DAY[r] / 2 - 2;
  i64 m = a.m + dm % lim;
  if (m > MHI || m < MLO) m = a.m - dm % lim;
  return P2{m, model::floor_mod(a.t + dt, model::DAYUS)};
}
Param P_anymjd() { Param p = P_mjd("mjd", MLO, MHI); return p; }
}
Prop pbt::make_prop() {
  Prop p{"C06", {}};
  { Sub s;
    s.name = "mixed"; s.rule = "the time of day of the first is before that of the second, or the resolutions differ";
    s.head = {P_res("res1"), P_res("res2"), P_anymjd(), P_tod(), P_dm("ddays"), P_dt("dtod")};
    s.weight = 50;
    s.eval = [](const Args& a, Ctx& c) {
      const P2 pa{a[2], a[3]}, pb = shifted(pa, a[4], a[5], static_cast<int>(std::max(a[0], a[1])));
      with_res2(a[0], a[1], [&](auto g, auto h) {
        using A = typename decltype(g)::type; using B = typename decltype(h)::type;
        constexpr int ra = decltype(g)::r, rb = decltype(h)::r, rf = ra > rb ? ra : rb;
        using F = std::conditional_t<(ra >= rb), A, B>;
        const i64 ta = pa.t / (1000000 / FAC[ra]), tb = pb.t / (1000000 / FAC[rb]);
        const datetime<A> x = mk<A>(pa.m, ta);
        const datetime<B> y = mk<B>(pb.m, tb);
        const i128 fx = model::total(pa.m, ta, ra) * (FAC[rf] / FAC[ra]), fy = model::total(pb.m, tb, rb) * (FAC[rf] / FAC[rb]);
        const i64 want = static_cast<i64>(fx - fy);
        const auto d = delta_sec(x, y);
        static_assert(std::is_same<std::decay_t<decltype(d)>, F>::value, "the difference is of the finer type");
        EQ(u(d), want, "difference");
        EQ(u(delta_sec(y, x)), -want, "difference, reversed");
        // adding it to the second gives the first
        datetime<F> back = y.template cast_to<F>();
        back.add_seconds(d);
        const model::Instant w = model::from_total(fx, rf);
        expect_dt(back, w.mjd, w.tod, "second plus difference");
        datetime<F> fwd = x.template cast_to<F>();
        fwd.remove_seconds(d);
        const model::Instant wy = model::from_total(fy, rf);
        expect_dt(fwd, wy.mjd, wy.tod, "first minus difference");
        // arguments are what they were
        expect_dt(x, pa.m, ta, "first argument");
        expect_dt(y, pb.m, tb, "second argument");
        c.nontrivial(ra != rb || ta < tb);
        c.label_if(want == 0, "equal instants");
        c.label_if(want / 86400 / FAC[rf] > 1000000 || want / 86400 / FAC[rf] < -1000000, "over 1,000,000 days apart");
        c.label_if(want < 0, "negative difference");
        c.label_if(want != 0 && (want > 0 ? want : -want) < DAY[rf], "less than a day apart");
      });
    };
    p.subs.push_back(s); }
  { Sub s;
    s.name = "intervals"; s.rule = "the time of day of the first is before that of the second";
    s.head = {P_res(), P_anymjd(), P_tod(), P_dm("ddays"), P_dt("dtod"), P_dm("ddays2"), P_dt("dtod2")};
    s.weight = 50;
    s.eval = [](const Args& a, Ctx& c) {
      with_res(a[0], [&](auto g) {
        using S = typename decltype(g)::type;
        constexpr int r = decltype(g)::r;
        const P2 p1{a[1], a[2]}, p2 = shifted(p1, a[3], a[4], r), p3 = shifted(p2, a[5], a[6], r);
        const i64 f = 1000000 / FAC[r];
        const i64 t1 = p1.t / f, t2 = p2.t / f, t3 = p3.t / f;
        const datetime<S> x = mk<S>(p1.m, t1), y = mk<S>(p2.m, t2), z = mk<S>(p3.m, t3);
        const i128 X = model::total(p1.m, t1, r), Y = model::total(p2.m, t2, r), Z = model::total(p3.m, t3, r);
        EQ(u(x.delta_sec(y)), X - Y, "difference in seconds");
        const auto iv = [&](const datetime<S>& q, const datetime<S>& w, i128 want, const char* what) {
          const model::Instant n = model::from_total(want, r);
          const datetime_interval<S> d = q.delta_date(w);
          expect_iv(d, n.mjd, n.tod, what);
          expect_iv(delta_date(q, w), n.mjd, n.tod, what);
          datetime<S> back{w};
          back += d;
          REQ(back == q, "%s: adding the interval back gives (%ld, %ld)", what, u(back.mjd()), u(back.sec()));
          return model::total(u(d.days()), u(d.sec()), r);
        };
        const i128 xy = iv(x, y, X - Y, "x-y"), yx = iv(y, x, Y - X, "y-x"), yz = iv(y, z, Y - Z, "y-z"), xz = iv(x, z, X - Z, "x-z");
        // a date-time and itself
        REQ(iv(x, x, 0, "x-x") == 0 && u(x.delta_sec(x)) == 0 && u(delta_sec(x, x)) == 0, "difference of a date-time and itself");
        REQ(xy == -yx, "antisymmetry of interval differences");
        REQ(xy + yz == xz, "additivity of interval differences");
        EQ(static_cast<i128>(u(x.delta_sec(y))) + u(y.delta_sec(z)), u(x.delta_sec(z)), "additivity of differences in seconds");
        // differences of days
        EQ(u(mjd_sec_diff<S>(x.mjd(), y.mjd())), static_cast<i128>(p1.m - p2.m) * DAY[r], "days as seconds");
        c.nontrivial(t1 < t2);
        c.label_if(t1 < t2 && p1.m > p2.m, "borrow of a day");
        c.label_if(X < Y, "negative difference");
      });
    };
    p.subs.push_back(s); }
  { Sub s;
    s.name = "far"; s.rule = "more days apart than the difference in units can hold";
    s.head = {P_res(), P_mjd("mjd1", MLO, MHI), P_tod("tod1"), P_mjd("mjd2", MLO, MHI), P_tod("tod2")};
    s.weight = 15;
    s.eval = [](const Args& a, Ctx& c) {
      with_res(a[0], [&](auto g) {
        using S = typename decltype(g)::type;
        constexpr int r = decltype(g)::r;
        const i64 f = 1000000 / FAC[r], t1 = a[2] / f, t2 = a[4] / f;
        const datetime<S> x = mk<S>(a[1], t1), y = mk<S>(a[3], t2);
        const i128 D = model::total(a[1], t1, r) - model::total(a[3], t2, r);
        const model::Instant n = model::from_total(D, r), nr = model::from_total(-D, r);
        const datetime_interval<S> d = delta_date(x, y);
        expect_iv(d, n.mjd, n.tod, "interval between far dates");
        expect_iv(y.delta_date(x), nr.mjd, nr.tod, "interval between far dates, reversed");
        datetime<S> back{y};
        back += d;
        REQ(back == x, "adding the interval back gives (%ld, %ld)", u(back.mjd()), u(back.sec()));
        c.nontrivial(D > INT64_MAX || D < INT64_MIN);
        c.label_if(a[1] < a[3], "negative difference");
      });
    };
    p.subs.push_back(s); }
  return p;
}
