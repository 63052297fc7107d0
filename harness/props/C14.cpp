// C14: leap seconds
#include "../lib.hpp"
using namespace lib;
namespace {
// IERS Bulletin C: UTC date from whose 0h the new TAI-UTC applies. Leap seconds were inserted at the end of the day before.
struct L { int y, half; };   // half 0: 1 January, 1: 1 July
const L kLeap[] = {{1972, 1}, {1973, 0}, {1974, 0}, {1975, 0}, {1976, 0}, {1977, 0}, {1978, 0}, {1979, 0}, {1980, 0}, {1981, 1}, {1982, 1}, {1983, 1}, {1985, 1}, {1988, 0},
  {1990, 0}, {1991, 0}, {1992, 1}, {1993, 1}, {1994, 1}, {1996, 0}, {1997, 1}, {1999, 0}, {2006, 0}, {2009, 0}, {2012, 1}, {2015, 1}, {2017, 0}};
static_assert(sizeof kLeap / sizeof kLeap[0] == 27, "27 leap seconds so far");
int want(i64 mjd) {
  int n = 10;
  for (const L& l : kLeap) if (mjd >= model::ymd2mjd(l.y, l.half ? 7 : 1, 1)) ++n;
  return n;
}
bool near_change(i64 mjd) {
  for (const L& l : kLeap) { const i64 d = mjd - model::ymd2mjd(l.y, l.half ? 7 : 1, 1); if (d >= -31 && d <= 31) return true; }
  return false;
}
const i64 kFirst = 41317, kLast = 50000000;
void check(i64 mjd, i64 tod_us, int r) {
  const int w = want(mjd);
  const model::YMD d = model::mjd2ymd(mjd);
  EQ(dat(modified_julian_day{mjd}), w, "TAI-UTC by day number");
  EQ(dat(year(static_cast<int>(d.y)), month(d.m)), w, "TAI-UTC by year and month");
  with_res(r, [&](auto g) {
    using S = typename decltype(g)::type;
    const datetime<S> t = mk<S>(mjd, tod_us / (1000000 / FAC[g.r]));
    EQ(dat(t), w, "TAI-UTC by date-time");
    const ymd_date v = t.as_ymd();
    EQ(dat(v.__year, v.__month), w, "TAI-UTC by the date view");
  });
}
}
Prop pbt::make_prop() {
  Prop p{"C14", {}};
  std::vector<i64> pts;
  for (const L& l : kLeap) { const i64 m = model::ymd2mjd(l.y, l.half ? 7 : 1, 1); pts.push_back(m); pts.push_back(m - 1); }
  { Sub s;
    s.name = "day"; s.rule = "within a month of a change, or after the last change";
    s.head = {P_res(), Param{"mjd", kFirst, kLast, pts, 45}, P_tod()};
    s.weight = 60;
    s.eval = [](const Args& a, Ctx& c) {
      check(a[1], a[2], static_cast<int>(a[0]));
      if (a[1] > kFirst) REQ(dat(modified_julian_day{a[1]}) >= dat(modified_julian_day{a[1] - 1}), "TAI-UTC decreases");
      c.nontrivial(near_change(a[1]) || a[1] >= 57754);
      c.label_if(near_change(a[1]), "near a change");
    };
    s.enum_n = [](bool th) { return static_cast<i64>(th ? 3000000 : 365250) * 6; };
    s.enum_at = [](i64 i, i64* v) { v[0] = i % 3; v[2] = i / 3 % 2 ? model::DAYUS - 1 : 0; v[1] = kFirst + i / 6; };
    p.subs.push_back(s); }
  { Sub s;
    s.name = "month"; s.rule = "1972 to 2018, or a later year";
    s.head = {Param{"y", 1972, 2147483647, {1972, 1973, 1980, 1981, 1999, 2006, 2012, 2015, 2016, 2017, 2018, 9999, 10000, 178956969, 178956970, 178956971, 357913941, 2147483646, 2147483647}, 50}, Param{"m", 1, 12}};
    s.weight = 40;
    s.eval = [](const Args& a, Ctx& c) {
      const int w = want(model::ymd2mjd(a[0], a[1], 1));
      EQ(dat(year(static_cast<int>(a[0])), month(static_cast<int>(a[1]))), w, "TAI-UTC by year and month");
      EQ(w, want(model::ymd2mjd(a[0], a[1], model::dim(a[0], a[1]))), "constant within the month");
      c.nontrivial();
    };
    s.enum_n = [](bool th) { return static_cast<i64>(th ? 1000000 : 100000) * 12; };
    s.enum_at = [](i64 i, i64* v) { v[0] = 1972 + i / 12; v[1] = i % 12 + 1; };
    p.subs.push_back(s); }
  { Sub s;   // every day number there is
    s.name = "far"; s.rule = "after the table of calendar dates of int years, or in it after the last change";
    s.head = {P_res(), Param{"mjd", kFirst, INT64_MAX, {kLast, model::kMaxMjd, model::kMaxMjd + 1, 2147483647, 2147483648LL, 4294967296LL, INT64_MAX}, 25}, P_tod()};
    s.weight = 15;
    s.eval = [](const Args& a, Ctx& c) {
      const int w = want(a[1]);
      EQ(dat(modified_julian_day{a[1]}), w, "TAI-UTC by day number");
      with_res(a[0], [&](auto g) {
        using S = typename decltype(g)::type;
        const datetime<S> t = mk<S>(a[1], a[2] / (1000000 / FAC[g.r]));
        EQ(dat(t), w, "TAI-UTC by date-time");
        if (a[1] <= model::kMaxMjd) { const ymd_date v = t.as_ymd(); EQ(dat(v.__year, v.__month), w, "TAI-UTC by the date view"); }
      });
      c.nontrivial(a[1] > kLast);
      c.label_if(a[1] > model::kMaxMjd, "no calendar date");
    };
    p.subs.push_back(s); }
  return p;
}
