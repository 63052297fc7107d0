// C19: fundamental types compute like the integers they wrap
#include "../lib.hpp"
using namespace lib;
namespace {
template<class X> struct ThatType { using type = X; };
template<class F> void with_type(i64 k, F&& f) {
  switch (k) {
    case 0: f(ThatType<year>{}); break;
    case 1: f(ThatType<month>{}); break;
    case 2: f(ThatType<gps_week>{}); break;
    case 3: f(ThatType<day_of_month>{}); break;
    case 4: f(ThatType<day_of_year>{}); break;
    case 5: f(ThatType<modified_julian_day>{}); break;
    case 6: f(ThatType<hours>{}); break;
    case 7: f(ThatType<minutes>{}); break;
    case 8: f(ThatType<seconds>{}); break;
    case 9: f(ThatType<milliseconds>{}); break;
    default: f(ThatType<microseconds>{}); break;
  }
}
const char* const kNames[] = {"year", "month", "gps_week", "day_of_month", "day_of_year", "modified_julian_day", "hours", "minutes", "seconds", "milliseconds", "microseconds"};
template<class X> using U = typename X::underlying_type;
template<class X, class I, class = void> struct can_assign : std::false_type {};
template<class X, class I> struct can_assign<X, I, std::void_t<decltype(std::declval<X&>() = std::declval<I>())>> : std::true_type {};
template<class X> struct summable : std::bool_constant<std::is_same<X, modified_julian_day>::value || std::is_same<X, seconds>::value || std::is_same<X, milliseconds>::value || std::is_same<X, microseconds>::value> {};

template<class X> void eq(const X& got, i128 want, const char* what, const char* type) {
  if (static_cast<i128>(got.as_underlying_type()) != want) failf("%s: %s gives %lld, want %lld", type, what, static_cast<long long>(got.as_underlying_type()), static_cast<long long>(want));
}
template<class X> bool fits(i128 v) { return v >= std::numeric_limits<U<X>>::min() && v <= std::numeric_limits<U<X>>::max(); }

template<class X, class I> void with_integer(U<X> a, I i, const char* n, Ctx& c) {
  { X x{a}; if (fits<X>(static_cast<i128>(a) + i)) { X& ref = (x += i); eq(x, static_cast<i128>(a) + i, "+= integer", n); REQ(&ref == &x, "%s: += does not return its left side", n); } else c.label("integer addition out of range"); }
  { X x{a}; if (fits<X>(static_cast<i128>(a) - i)) { X& ref = (x -= i); eq(x, static_cast<i128>(a) - i, "-= integer", n); REQ(&ref == &x, "%s: -= does not return its left side", n); } }
  if constexpr (!std::is_same<X, month>::value) { X x{a}; if (fits<X>(i)) { x = i; eq(x, i, "= integer", n); } }
}
}
Prop pbt::make_prop() {
  Prop p{"C19", {}};
  Sub s;
  s.name = "operators"; s.rule = "both values non-zero";
  const std::vector<i64> pts{0, 1, -1, 2, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2147483646, 2147483647, 2147483648, -2147483647, -2147483648LL, -2147483649LL, 4294967295, 4294967296, INT64_MAX, INT64_MAX - 1, INT64_MIN, INT64_MIN + 1};
  s.head = {Param{"type", 0, 10}, Param{"a", INT64_MIN, INT64_MAX, pts, 40}, Param{"b", INT64_MIN, INT64_MAX, pts, 40}, Param{"same", 0, 7}};
  s.weight = 100;
  s.eval = [](const Args& v, Ctx& c) {
    with_type(v[0], [&](auto w) {
      using X = typename decltype(w)::type;
      const char* n = kNames[v[0]];
      const U<X> a = static_cast<U<X>>(v[1]), b = v[3] == 0 ? a : v[3] == 1 && a < std::numeric_limits<U<X>>::max() ? static_cast<U<X>>(a + 1) : static_cast<U<X>>(v[2]);
      const X x{a}, y{b};
      eq(x, a, "construction", n);
      { X z{x}; eq(z, a, "copy", n); z = y; eq(z, b, "assignment", n); eq(y, b, "right side of an assignment", n); }
      REQ((x == y) == (a == b) && (x != y) == (a != b) && (x < y) == (a < b) && (x <= y) == (a <= b) && (x > y) == (a > b) && (x >= y) == (a >= b), "%s: comparison of %lld and %lld", n, static_cast<long long>(a), static_cast<long long>(b));
      const i128 sum = static_cast<i128>(a) + b, dif = static_cast<i128>(a) - b;
      if (fits<X>(sum)) { X z{a}; X& ref = (z += y); eq(z, sum, "+=", n); REQ(&ref == &z, "%s: += does not return its left side", n); c.label("sum in range"); }
      if (fits<X>(dif)) { X z{a}; X& ref = (z -= y); eq(z, dif, "-=", n); REQ(&ref == &z, "%s: -= does not return its left side", n); }
      if constexpr (summable<X>::value) {
        if (fits<X>(sum)) { const X z = x + y; eq(z, sum, "sum", n); }
        if (fits<X>(dif)) { const X z = x - y; eq(z, dif, "difference", n); }
      }
      { // both sides the same object
        X z{a}; const X& self = z;
        z = self; eq(z, a, "assignment to itself", n);
        z = std::move(z); eq(z, a, "move to itself", n);
        REQ(z == self && !(z != self) && !(z < self) && z <= self && !(z > self) && z >= self, "%s: comparison of %lld with itself", n, static_cast<long long>(a));
        if (fits<X>(static_cast<i128>(a) * 2)) { X& ref = (z += self); eq(z, static_cast<i128>(a) * 2, "z += z", n); REQ(&ref == &z, "%s: z += z does not return z", n); }
        z = X{a}; z -= self; eq(z, 0, "z -= z", n);
        if (fits<X>(static_cast<i128>(a) * 2)) { z = X{a}; z += self.as_underlying_type(); eq(z, static_cast<i128>(a) * 2, "z += the value of z", n); }
        if constexpr (summable<X>::value) { z = X{a}; if (fits<X>(static_cast<i128>(a) * 2)) eq(z + z, static_cast<i128>(a) * 2, "z + z", n); eq(z - z, 0, "z - z", n); eq(z, a, "z after z - z", n); }
      }
      eq(x, a, "left operand after the operations", n); eq(y, b, "right operand after the operations", n);
      if (a < std::numeric_limits<U<X>>::max()) {
        { X z{a}; const X old = z++; eq(old, a, "value of z++", n); eq(z, static_cast<i128>(a) + 1, "z++", n); }
        { X z{a}; X& ref = ++z; REQ(&ref == &z, "%s: ++z does not return z", n); eq(z, static_cast<i128>(a) + 1, "++z", n); }
      }
      if (a > std::numeric_limits<U<X>>::min()) {
        { X z{a}; const X old = z--; eq(old, a, "value of z--", n); eq(z, static_cast<i128>(a) - 1, "z--", n); }
        { X z{a}; X& ref = --z; REQ(&ref == &z, "%s: --z does not return z", n); eq(z, static_cast<i128>(a) - 1, "--z", n); }
      }
      with_integer<X>(a, static_cast<int>(v[2]), n, c);
      with_integer<X>(a, static_cast<long>(v[2]), n, c);
      with_integer<X>(a, static_cast<short>(v[2]), n, c);
      with_integer<X>(a, static_cast<signed char>(v[2]), n, c);
      with_integer<X>(a, static_cast<unsigned char>(v[2]), n, c);
      with_integer<X>(a, static_cast<bool>(v[2]), n, c);
      with_integer<X>(a, static_cast<long long>(v[2]), n, c);
      with_integer<X>(a, static_cast<unsigned>(v[2]), n, c);
      with_integer<X>(a, static_cast<unsigned long>(v[2]), n, c);
      with_integer<X>(a, static_cast<unsigned long long>(v[2]), n, c);
      with_integer<X>(a, static_cast<unsigned short>(v[2]), n, c);
      with_integer<X>(a, static_cast<char>(v[2]), n, c);
      with_integer<X>(a, static_cast<char16_t>(v[2]), n, c);
      with_integer<X>(a, static_cast<char32_t>(v[2]), n, c);
      with_integer<X>(a, static_cast<wchar_t>(v[2]), n, c);
      c.nontrivial(a != 0 && b != 0);
      c.label(n);
    });
  };
  p.subs.push_back(s);
  { Sub q;
    q.name = "literals"; q.rule = "a value above 1";
    q.head = {Param{"type", 0, 7}, Param{"v", 0, INT64_MAX, {0, 1, 2, 12, 31, 366, 2019, 86400, 2147483647, 2147483648, 4294967296, INT64_MAX}, 40}};
    q.weight = 20;
    q.eval = [](const Args& a, Ctx& c) {
      using ull = unsigned long long;
      const ull i = static_cast<ull>(a[1] % 2147483648LL), l = static_cast<ull>(a[1]);
      switch (a[0]) {
        case 0: EQ(u(ngpt::operator""_Y(i)), i, "_Y"); break;
        case 1: EQ(u(ngpt::operator""_M(i)), i, "_M"); break;
        case 2: EQ(u(ngpt::operator""_D(i)), i, "_D"); break;
        case 3: EQ(u(ngpt::operator""_h(i)), i, "_h"); break;
        case 4: EQ(u(ngpt::operator""_m(i)), i, "_m"); break;
        case 5: EQ(u(ngpt::operator""_sec(l)), l, "_sec"); break;
        case 6: EQ(u(ngpt::operator""_millisec(l)), l, "_millisec"); break;
        default: EQ(u(ngpt::operator""_microsec(l)), l, "_microsec"); break;
      }
      // the suffixes build the types they name
      REQ(2019_Y == year(2019) && 12_M == month(12) && 31_D == day_of_month(31) && 23_h == hours(23) && 59_m == minutes(59) && 86399_sec == seconds(86399) && 1001_millisec == milliseconds(1001) && 1000001_microsec == microseconds(1000001), "a suffix literal");
      REQ(u(year()) == 1900 && u(month()) == 1 && u(gps_week()) == 1 && u(day_of_month()) == 1 && u(day_of_year()) == 0 && u(modified_julian_day()) == 1 && u(hours()) == 0 && u(minutes()) == 0 && u(seconds()) == 0 && u(milliseconds()) == 0 && u(microseconds()) == 0, "documented default values");
      c.nontrivial(a[1] > 1);
    };
    p.subs.push_back(q); }
  { Sub q;
    q.name = "history"; q.rule = "at least four operations";
    q.head = {Param{"type", 0, 10}, Param{"a", -1000000000, 1000000000}};
    q.step = {Param{"op", 0, 8}, Param{"b", -1000000, 1000000}};
    q.max_steps = 40;
    q.weight = 30;
    q.eval = [](const Args& v, Ctx& c) {
      with_type(v[0], [&](auto w) {
        using X = typename decltype(w)::type;
        const char* n = kNames[v[0]];
        i64 m = v[1];
        X x{static_cast<U<X>>(m)};
        for (int k = 0; k < v.nsteps; ++k) {
          const i64 b = v.step(k, 1);
          const i64 before = m;
          switch (v.step(k, 0)) {
            case 0: x += static_cast<int>(b); m += b; break;
            case 1: x -= static_cast<long>(b); m -= b; break;
            case 2: x += X{static_cast<U<X>>(b)}; m += b; break;
            case 3: x -= X{static_cast<U<X>>(b)}; m -= b; break;
            case 4: eq(x++, before, "value of x++", n); ++m; break;
            case 5: eq(x--, before, "value of x--", n); --m; break;
            case 6: eq(++x, ++m, "++x", n); break;
            case 7: eq(--x, --m, "--x", n); break;
            default: x = X{x}; break;
          }
          eq(x, m, "history", n);
          REQ((x < X{static_cast<U<X>>(v[1])}) == (m < v[1]), "%s: order against the start", n);
        }
        c.nontrivial(v.nsteps >= 4);
      });
    };
    p.subs.push_back(q); }
  return p;
}
