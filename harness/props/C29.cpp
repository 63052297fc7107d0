// C29: second types defined by the program
#include "../lib.hpp"
#include "datetime_read.hpp"
#include "datetime_write.hpp"
using namespace pbt;
// a program's own second types, after the model of the library's: F units per second; K makes types of equal F distinct
namespace mine {
template<long F, int K = 0> class units {
  long v;
public:
  typedef long underlying_type;
  static constexpr bool is_dt_fundamental_type{true};
  inline constexpr underlying_type __member_const_ref__() const noexcept { return v; }
  inline constexpr underlying_type& __member_ref__() noexcept { return v; }
  static constexpr bool is_of_sec_type{true};
  static constexpr long max_in_day{86400L * F};
  template<typename T> static constexpr T sec_factor() noexcept { return static_cast<T>(F); }
  explicit constexpr units(underlying_type i = 0L) noexcept : v(i) {}
  explicit constexpr units(ngpt::hours h, ngpt::minutes m, units c) noexcept : v{c.v + (m.as_underlying_type() * 60L + h.as_underlying_type() * 3600L) * F} {}
  explicit constexpr units(ngpt::hours h, ngpt::minutes m, double s) noexcept : v{static_cast<long>(s * static_cast<double>(F) + 0.25) + (m.as_underlying_type() * 60L + h.as_underlying_type() * 3600L) * F} {}
  template<typename I, typename = std::enable_if_t<std::is_integral_v<I>>> constexpr units& operator=(I i) noexcept { v = i; return *this; }
  // to every coarser second type (and a count of seconds to the library's seconds)
  template<typename T, typename = std::enable_if_t<T::is_of_sec_type>, typename = std::enable_if_t<(T::max_in_day < max_in_day || (F == 1 && std::is_same_v<T, ngpt::seconds>))>>
  explicit constexpr operator T() const noexcept { return T{v / (max_in_day / T::max_in_day)}; }
  constexpr units operator+(const units& o) const noexcept { return units{v + o.v}; }
  constexpr units operator-(const units& o) const noexcept { return units{v - o.v}; }
  constexpr bool more_than_day() const noexcept { return v > max_in_day; }
  constexpr underlying_type as_underlying_type() const noexcept { return v; }
  constexpr int remove_days() noexcept { const int d = static_cast<int>(v / max_in_day); v %= max_in_day; return d; }
  constexpr int to_days() const noexcept { return static_cast<int>(v / max_in_day); }
  constexpr double fractional_days() const noexcept { return static_cast<double>(v) / static_cast<double>(max_in_day); }
  constexpr double to_fractional_seconds() const noexcept { return static_cast<double>(v) / static_cast<double>(F); }
  constexpr ngpt::seconds resolve_sec(double& f) const noexcept { f = static_cast<double>(v % F) / static_cast<double>(F); return ngpt::seconds{v / F}; }
  constexpr std::tuple<ngpt::hours, ngpt::minutes, ngpt::seconds, long> to_hmsf() const noexcept {
    const long s = v / F;
    return std::make_tuple(ngpt::hours{static_cast<int>(s / 3600)}, ngpt::minutes{static_cast<int>(s / 60 % 60)}, ngpt::seconds{s % 60}, v % F);
  }
};
}
using namespace lib;
namespace {
template<class S> struct Id { using type = S; };
// calls f(Id<S>) with type number n
constexpr int NOWN = 8, NALL = 11;
template<class F> void with_own(i64 n, F&& f) {
  switch (n) {
    case 0: return f(Id<mine::units<10>>{});
    case 1: return f(Id<mine::units<10000000>>{});
    case 2: return f(Id<mine::units<1000000000>>{});
    case 3: return f(Id<mine::units<1000, 1>>{});
    case 4: return f(Id<mine::units<100000>>{});
    case 5: return f(Id<mine::units<1, 1>>{});
    case 6: return f(Id<mine::units<64>>{});         // no decimal fraction
    default: return f(Id<mine::units<1000000, 1>>{});
  }
}
template<class F> void with_any(i64 n, F&& f) {
  switch (n) {
    case 8: return f(Id<seconds>{});
    case 9: return f(Id<milliseconds>{});
    case 10: return f(Id<microseconds>{});
    default: return with_own(n, f);
  }
}
template<class S> constexpr i64 fac() { return S::template sec_factor<long>(); }
template<class S> constexpr i64 day() { return 86400 * fac<S>(); }
// of two types, one has to count a multiple of the other's units
template<class S, class T> constexpr bool multiple() { return fac<S>() % fac<T>() == 0 || fac<T>() % fac<S>() == 0; }
struct In { i64 d, t; };
In at(i128 total, i64 perday) { const i128 q = model::floor_div128(total, perday); return In{static_cast<i64>(q), static_cast<i64>(total - q * perday)}; }
i128 num(i64 d, i64 t, i64 perday) { return static_cast<i128>(d) * perday + t; }
template<class S> datetime<S> build(In i) { return datetime<S>{modified_julian_day{i.d}, S{i.t}}; }
// scaled to the type's unit: a time of day given in nanoseconds
template<class S> i64 tod(i64 ns) { return ns / (1000000000 / fac<S>()); }
Param P_ns(const char* n) {
  return Param{n, 0, 86399999999999LL, {0, 1, 99, 100, 999999, 1000000, 99999999, 100000000, 999999999, 1000000000, 59999999999LL, 60000000000LL, 43200000000000LL, 86399000000000LL, 86399999999999LL}, 25};
}
}
Prop pbt::make_prop() {
  Prop p{"C29", {}};
  // 45000 days of nanoseconds, and differences of two, fit
  const Param day1 = P_mjd("mjd", -45000, 45000), day2 = Param{"mjd2", -45000, 45000};
  { Sub s;
    s.name = "moves"; s.rule = "the two types differ, or midnight is crossed";
    s.head = {Param{"type", 0, NOWN - 1}, Param{"other", 0, NALL - 1}, day1, P_ns("tod"), Param{"amount", -86400000000000LL * 40000, 86400000000000LL * 40000, {0, 1, -1, 999, 1000, -1000, 86400000000000LL, -86400000000000LL, 86399999999999LL}, 25}, Param{"mag", 0, 3}, Param{"days", -40000, 40000}, Param{"swap", 0, 1}};
    s.weight = 50;
    s.eval = [](const Args& a, Ctx& c) {
      auto body = [&](auto g, auto h) {
        using S = typename decltype(g)::type; using T = typename decltype(h)::type;
        if constexpr (!multiple<S, T>()) { c.label("no multiple: skipped"); return; } else {
        const i64 DS = day<S>(), DT = day<T>(), DF = std::max(DS, DT);
        const i128 ks = DF / DS, kt = DF / DT;
        i64 ns = a[4];
        if (a[5] == 0) ns %= 86400000000000LL * 2 + 2; else if (a[5] == 1) ns %= 5000000000LL; else if (a[5] == 2) ns %= 3600000000000LL;
        const i64 n = tod<T>(ns);
        const In x{a[2], tod<S>(a[3])};
        const datetime<S> t0 = build<S>(x);
        auto same = [](const auto& t, i64 d, i64 s, const char* w) { EQ(u(t.mjd()), d, w); EQ(u(t.sec()), s, w); };
        same(t0, x.d, x.t, "constructed");
        const i128 base = num(x.d, x.t, DS) * ks, amt = static_cast<i128>(n) * kt;
        auto check = [&](const datetime<S>& t, i128 exact, const char* w) {
          REQ(u(t.sec()) >= 0 && u(t.sec()) < DS, "%s: not normalised: %ld", w, u(t.sec()));
          const i128 diff = num(u(t.mjd()), u(t.sec()), DS) * ks - exact;
          if (exact % ks == 0) REQ(diff == 0, "%s: off by %lld of the finer unit", w, static_cast<long long>(diff));
          else REQ(diff < ks && diff > -ks, "%s: off by %lld of the finer unit, a unit is %lld", w, static_cast<long long>(diff), static_cast<long long>(ks));
        };
        { datetime<S> t{t0}; t.add_seconds(T{n}); check(t, base + amt, "add_seconds"); }
        { datetime<S> t{t0}; t.remove_seconds(T{n}); check(t, base - amt, "remove_seconds"); }
        if constexpr (std::is_convertible_v<T, S> || std::is_constructible_v<S, T>) {
          if constexpr (T::max_in_day >= S::max_in_day) check(t0.add(modified_julian_day{a[6]}, T{n}), base + amt + static_cast<i128>(a[6]) * DF, "add");
        }
        same(t0, x.d, x.t, "original");
        // conversions
        const i64 want = static_cast<i64>(static_cast<i128>(n) * DS / DT);
        EQ(u(cast_to<T, S>(T{n})), want, "converted amount");
        const datetime<T> y = t0.template cast_to<T>();
        same(y, x.d, static_cast<i64>(static_cast<i128>(x.t) * DT / DS), "converted date-time");
        c.nontrivial(!std::is_same_v<S, T> || model::floor_div128(base, DF) != model::floor_div128(base + amt, DF));
        c.label_if(DT > DS, "finer"); c.label_if(DT < DS, "coarser"); c.label_if(DT == DS && !std::is_same_v<S, T>, "another type of the same unit");
        c.label_if(fac<S>() == 1 || fac<T>() == 1, "with seconds");
        }
      };
      with_own(a[0], [&](auto g) { with_any(a[1], [&](auto h) { if (a[7]) body(h, g); else body(g, h); }); });
    };
    p.subs.push_back(s); }
  { Sub s;
    s.name = "differences"; s.rule = "the days differ";
    s.head = {Param{"type", 0, NOWN - 1}, Param{"other", 0, NALL - 1}, day1, P_ns("tod"), day2, P_ns("tod2"), Param{"near", 0, 3}, Param{"div", 1, 1000, {1, 2, 3, 7, 86400}, 50}};
    s.weight = 30;
    s.eval = [](const Args& a, Ctx& c) {
      with_own(a[0], [&](auto g) { with_any(a[1], [&](auto h) {
        using S = typename decltype(g)::type; using T = typename decltype(h)::type;
        if constexpr (!multiple<S, T>()) { c.label("no multiple: skipped"); return; } else {
        const i64 DS = day<S>(), DT = day<T>();
        const i64 d2 = a[6] == 0 ? a[2] : a[6] == 1 ? a[2] + 1 : a[4];
        const In x{a[2], tod<S>(a[3])}, y{d2, tod<S>(a[6] == 2 ? a[3] : a[5])}, z{d2, tod<T>(a[5])};
        const datetime<S> t = build<S>(x), v = build<S>(y);
        const datetime<T> w = build<T>(z);
        const i128 nx = num(x.d, x.t, DS), ny = num(y.d, y.t, DS), nz = num(z.d, z.t, DT);
        EQ(u(t.delta_sec(v)), nx - ny, "difference");
        EQ(u(delta_sec(t, v)), nx - ny, "difference (function)");
        if constexpr (S::max_in_day > T::max_in_day || T::max_in_day > S::max_in_day) {
          const i128 f = DS > DT ? nx - nz * (DS / DT) : nx * (DT / DS) - nz;
          EQ(u(delta_sec(t, w)), f, "difference of two types");
          EQ(u(delta_sec(w, t)), -f, "difference of two types, the other way");
        }
        REQ((t < v) == (nx < ny) && (t <= v) == (nx <= ny) && (t > v) == (nx > ny) && (t >= v) == (nx >= ny) && (t == v) == (nx == ny) && (t != v) == (nx != ny), "comparison");
        const datetime_interval<S> i = t.delta_date(v), j = delta_date(t, v);
        const In e = at(nx - ny, DS);
        EQ(u(i.days()), e.d, "interval: days"); EQ(u(i.sec()), e.t, "interval: seconds");
        REQ(i == j && !(i < j) && i >= j, "the function gives another interval");
        datetime<S> b{v};
        b += i;
        REQ(b == t, "adding the interval does not give the first date-time");
        if (nx >= ny) {
          const datetime_interval<S> q = i / static_cast<int>(a[7]);
          const double got = static_cast<double>(u(q.days())) * static_cast<double>(DS) + static_cast<double>(u(q.sec())), want = static_cast<double>(nx - ny) / static_cast<double>(a[7]);
          REQ(std::abs(got - want) <= 2 + 1e-12 * std::abs(want), "divided by %lld: got %.17g units, want %.17g", static_cast<long long>(a[7]), got, want);
        }
        c.nontrivial(x.d != y.d);
        c.label_if(nx < ny, "negative"); c.label_if(nx == ny, "equal");
        }
      }); });
    };
    p.subs.push_back(s); }
  { Sub s;
    s.name = "views"; s.rule = "a time of day that is not a whole second";
    s.head = {Param{"type", 0, NOWN - 1}, Param{"mjd", -45000, 99000, P_mjd().pts, 25}, P_ns("tod"), Param{"h", 0, 60, {0, 23, 24}, 40}, Param{"m", 0, 120, {0, 59, 60}, 40}};
    s.weight = 20;
    s.eval = [](const Args& a, Ctx& c) {
      with_own(a[0], [&](auto g) {
        using S = typename decltype(g)::type;
        const i64 F = fac<S>(), D = day<S>();
        const In x{a[1], tod<S>(a[2])};
        const datetime<S> t = build<S>(x);
        const model::YMD d = model::mjd2ymd(x.d);
        const model::YD yd = model::mjd2yd(x.d);
        EQ(max_days_allowed<S>(), INT64_MAX / D, "stated maximum number of days");
        // constructors
        const In e = at(num(x.d, x.t + (a[3] * 3600 + a[4] * 60) * F, D), D);
        auto same = [](const datetime<S>& q, In i, const char* w) { EQ(u(q.mjd()), i.d, w); EQ(u(q.sec()), i.t, w); };
        const year Y{static_cast<int>(d.y)}; const month M{d.m}; const day_of_month O{d.d}; const day_of_year N{yd.doy};
        const hours H{static_cast<int>(a[3])}; const minutes I{static_cast<int>(a[4])};
        same(datetime<S>{Y, M, O, H, I, S{x.t}}, e, "from the calendar date"); same(datetime<S>{Y, N, H, I, S{x.t}}, e, "from the day of year");
        same(datetime<S>{modified_julian_day{x.d}, H, I, S{x.t}}, e, "from the day number"); same(datetime<S>{Y, M, O, S{x.t}}, x, "from the date and the time of day");
        same(datetime<S>{Y, M, O, H, I, static_cast<double>(x.t / F % 60)}, at(num(x.d, (a[3] * 3600 + a[4] * 60 + x.t / F % 60) * F, D), D), "from seconds as a double");
        REQ(t.as_ymd().__year == Y && t.as_ymd().__month == M && t.as_ymd().__dom == O && t.as_ydoy().__doy == N, "calendar views");
        REQ(t.as_hmsf() == S{x.t}.to_hmsf(), "time of day");
        const double m = t.as_mjd();
        REQ(std::abs(m - (static_cast<double>(x.d) + static_cast<double>(x.t) / static_cast<double>(D))) < 1e-10, "fractional day number");
        if (x.d >= 44244) {
          S w; long l;
          EQ(u(t.as_gps_wsow(w)), (x.d - 44244) / 7, "GPS week");
          EQ(u(t.as_gps_wsow(l)), (x.d - 44244) / 7, "GPS week");
          EQ(u(w), (x.d - 44244) % 7 * D + x.t, "seconds of week");
          EQ(l, (x.d - 44244) % 7 * 86400 + x.t / F, "whole seconds of week");
          EQ(day_of_week(w), (x.d - 44244) % 7, "day of week");
          same(datetime<S>{t.as_gps_wsow(w), w}, x, "from the GPS week");
          EQ(dat(t), dat(t.mjd()), "leap seconds");
        }
        // text
        char b[80];
        const long s = x.t / F;
        snprintf(b, sizeof b, "%04lld-%02d-%02d %02ld:%02ld:%02ld", static_cast<long long>(d.y), d.m, d.d, s / 3600, s / 60 % 60, s % 60);
        REQ(strftime_ymd_hms(t) == b, "wrote \"%s\", want \"%s\"", strftime_ymd_hms(t).c_str(), b);
        same(strptime_ymd_hms<S>(b), In{x.d, s * F}, "read back");
        same(strptime_ymd<S>(b), In{x.d, 0}, "read back as a date");
        if (x.t % (F * 60) * 10 / F != 599) {
          snprintf(b, sizeof b, "%04lld-%02d-%02d %02ld:%02ld:", static_cast<long long>(d.y), d.m, d.d, s / 3600, s / 60 % 60);
          const std::string f = strftime_ymd_hmfs(t);
          REQ(f.compare(0, std::strlen(b), b) == 0 && std::abs(std::atof(f.c_str() + std::strlen(b)) - static_cast<double>(x.t % (F * 60)) / static_cast<double>(F)) < 5.1e-6, "wrote \"%s\" for \"%s\" and %lld units", f.c_str(), b, static_cast<long long>(x.t % (F * 60)));
        }
        snprintf(b, sizeof b, "%lld/%d/%d %ld:%ld:%ld.%09lld", static_cast<long long>(d.y), d.m, d.d, s / 3600, s / 60 % 60, s % 60, static_cast<long long>(x.t % F * (1000000000 / F)));
        // any number of further zeros
        std::string e9 = b;
        for (i64 f = F; F != 64 && f < 1000000000; f *= 10) e9.pop_back();
        const std::string z = t.stringify();
        REQ(z.compare(0, e9.size(), e9) == 0 && z.find_first_not_of('0', e9.size()) == std::string::npos, "free form \"%s\", want \"%s\"", z.c_str(), b);
        c.nontrivial(x.t % F != 0);
      });
    };
    p.subs.push_back(s); }
  return p;
}
