// C26: the locale of the program changes nothing
#include <locale.h>
#include <cerrno>
#include <clocale>
#include <locale>
#include <memory>
#include "../calls.hpp"
using namespace lib;
using calls::Out;
namespace {
// compiled by the runner into a directory of its own (LOCPATH); see special.py
const char* const kNames[] = {"de_DE.UTF-8", "fr_FR.UTF-8", "tr_TR.UTF-8", "tr_TR.ISO-8859-9", "en_US.UTF-8", "hi_IN.UTF-8", "de_DE.ISO-8859-1", "ps_AF.UTF-8", "lt_LT.ISO-8859-13", "C.UTF-8", "ru_RU.KOI8-R", "ja_JP.EUC-JP"};
constexpr int NN = sizeof kNames / sizeof kNames[0];

struct Punct : std::numpunct<char> {
  char p, s; std::string g;
  Punct(char point, char sep, const char* group) : p(point), s(sep), g(group) {}
  char do_decimal_point() const override { return p; }
  char do_thousands_sep() const override { return s; }
  std::string do_grouping() const override { return g; }
};
struct Num : std::num_put<char> {
  using It = std::num_put<char>::iter_type;
  It do_put(It o, std::ios_base& b, char f, long v) const override { *o++ = '<'; o = std::num_put<char>::do_put(o, b, f, v); *o++ = '>'; return o; }
  It do_put(It o, std::ios_base& b, char f, double v) const override { *o++ = '<'; o = std::num_put<char>::do_put(o, b, f, v); *o++ = '>'; return o; }
};
struct Type : std::ctype<char> {
  char do_toupper(char) const override { return '?'; }
  char do_tolower(char) const override { return '?'; }
  char do_widen(char c) const override { return c >= '0' && c <= '9' ? static_cast<char>('a' + (c - '0')) : c; }
  const char* do_widen(const char* b, const char* e, char* to) const override { for (; b != e; ++b, ++to) *to = do_widen(*b); return e; }
};
const std::vector<std::locale>& facets() {
  static const std::locale& c = std::locale::classic();
  static const std::vector<std::locale> v = {std::locale(c, new Punct(',', '.', "\3")), std::locale(c, new Punct('.', ',', "\3")), std::locale(c, new Punct('.', ' ', "\1")),
    std::locale(c, new Punct('\'', '_', "\3\2")), std::locale(c, new Num), std::locale(c, new Type), std::locale(std::locale(c, new Num), new Punct(',', '.', "\2"))};
  return v;
}
constexpr int NFAC = 7;
struct Named { locale_t c; std::unique_ptr<std::locale> cxx; };
const Named& named(int i) {
  static std::vector<Named> v;
  if (v.empty()) {
    for (const char* n : kNames) {
      Named x{newlocale(LC_ALL_MASK, n, static_cast<locale_t>(0)), nullptr};
      if (x.c) try { x.cxx.reset(new std::locale(n)); } catch (const std::exception&) {}
      v.push_back(std::move(x));
    }
  }
  return v[static_cast<std::size_t>(i)];
}
constexpr int NLOC = NN * 3 + NFAC;

// A locale in force, for the lifetime of the object
struct Scope {
  int mode = 3;
  const char* name = nullptr;
  bool on = false;
  std::string saved; locale_t user = nullptr; std::locale cxx;
  explicit Scope(int k) {
    if (k >= NN * 3) { std::locale::global(facets()[static_cast<std::size_t>(k - NN * 3)]); on = true; mode = 2; name = "C++ facets"; }
    else {
      mode = k % 3; name = kNames[k / 3];
      const Named& n = named(k / 3);
      if (mode == 0 && n.c) on = setlocale(LC_ALL, name) != nullptr;                       // setlocale
      if (mode == 1 && n.c) { uselocale(n.c); on = true; }                                 // of the thread
      if (mode == 2 && n.cxx) { std::locale::global(*n.cxx); on = true; }                  // std::locale::global
    }
    remember();
  }
  void remember() { const char* s = setlocale(LC_ALL, nullptr); saved = s ? s : ""; user = uselocale(static_cast<locale_t>(0)); cxx = std::locale(); }
  // nullptr if the locale in force is still the one that was set
  const char* changed() {
    const char* s = setlocale(LC_ALL, nullptr);
    if (saved != (s ? s : "")) return "the C locale";
    if (uselocale(static_cast<locale_t>(0)) != user) return "the locale of the thread";
    if (!(std::locale() == cxx)) return "the global C++ locale";
    return nullptr;
  }
  ~Scope() {
    uselocale(LC_GLOBAL_LOCALE);
    std::locale::global(std::locale::classic());
    setlocale(LC_ALL, "C");
  }
};
const char* how(int mode) { return mode == 0 ? "setlocale" : mode == 1 ? "uselocale" : "std::locale::global"; }

template<class F> void both(i64 loc, Ctx& c, F f) {
  Out ref, o;
  f(ref);
  std::string which, moved;
  {
    Scope s(static_cast<int>(loc));
    if (!s.on) { c.label("locale not available"); return; }
    which = std::string(s.name) + " (" + how(s.mode) + ")";
    f(o);
    if (const char* m = s.changed()) moved = m;
  }
  REQ(moved.empty(), "%s is another one after the call, with %s in force", moved.c_str(), which.c_str());
  const std::string d = calls::differ(ref, o, 0);
  REQ(d.empty(), "with the locale C and with %s in force: %s", which.c_str(), d.c_str());
  c.nontrivial();
  c.label(loc >= NN * 3 ? "C++ facets" : loc % 3 == 0 ? "setlocale" : loc % 3 == 1 ? "uselocale" : "std::locale::global");
  c.label(ref.threw ? "throws" : "returns");
}
}
Prop pbt::make_prop() {
  Prop p{"C26", {}};
  // what the program starts with, the library linked in: nothing but the locale C. The environment names another one (LC_ALL, see
  // special.py), so that a library that adopts it while it is loaded is seen
  const char* const c0 = setlocale(LC_ALL, nullptr);
  const std::string start_c = c0 ? c0 : "";
  const bool start_thread = uselocale(static_cast<locale_t>(0)) == LC_GLOBAL_LOCALE, start_cxx = std::locale() == std::locale::classic();
  { Sub s;
    s.name = "start"; s.rule = "always";
    s.head = {Param{"category", 0, 6}};
    s.weight = 1;
    s.eval = [=](const Args& a, Ctx& c) {
      c.nontrivial();
      c.label("at the start of the program");
      REQ(start_c == "C", "a program that has set no locale starts with the C locale \"%s\"", start_c.c_str());
      REQ(start_thread, "a program that has set no locale starts with a locale of the thread");
      REQ(start_cxx, "a program that has set no locale starts with the global C++ locale \"%s\"", std::locale().name().c_str());
      // and it still is the one of every single category, now
      static const int cats[] = {LC_CTYPE, LC_NUMERIC, LC_TIME, LC_COLLATE, LC_MONETARY, LC_MESSAGES, LC_ALL};
      const char* const s = setlocale(cats[a[0]], nullptr);
      REQ(s && !std::strcmp(s, "C"), "category %d of the C locale is \"%s\" in a program that has set none", static_cast<int>(a[0]), s ? s : "");
    };
    s.enum_n = [](bool) { return static_cast<i64>(7); };
    s.enum_at = [](i64 i, i64* v) { v[0] = i; };
    p.subs.push_back(s); }
  { Sub s;
    s.name = "calls"; s.rule = "a locale that is available";
    s.head = {Param{"loc", 0, NLOC - 1}, Param{"fn", 0, calls::NF - 1, {12, 13, 13, 14, 14, 15}, 75}, P_res("res"), P_res("other")};
    for (auto& q : calls::P_args()) s.head.push_back(q);
    s.weight = 50;
    s.eval = [](const Args& a, Ctx& c) {
      both(a[0], c, [&](Out& o) { calls::call(static_cast<int>(a[1]), static_cast<int>(a[2]), static_cast<int>(a[3]), a.h + 4, false, o); });
      static const char* const names[calls::NF] = {"cal2mjd", "to_ymd/ydoy", "ydoy2mjd", "ymd<->ydoy", "dat", "predicates", "construct", "arithmetic", "differences", "comparison", "unit conversion", "split/compose",
        "read a fixed text", "read a well-formed text", "write", "month names", "intervals", "GPS week", "fundamental types", "spellings"};
      c.label(names[a[1]]);
    };
    p.subs.push_back(s); }
  { Sub s;   // arbitrary bytes: what a letter, a space or a digit is must not depend on the locale either
    s.name = "bytes"; s.rule = "a locale that is available";
    s.head = {Param{"loc", 0, NLOC - 1}, Param{"form", 0, 5}, P_res(), Param{"base", 0, 7}};
    s.step = {Param{"at", 0, 40}, Param{"ch", 1, 255, {' ', ',', '.', 'i', 'I', 0xa0, 0x85, 0xdd, 0xfd, 0xb7, 0xe9, 0xc0, '_', '\'', 0xac, 0x9b}, 50}, Param{"op", 0, 2}};
    s.max_steps = 4;
    s.weight = 40;
    s.eval = [](const Args& a, Ctx& c) {
      static const char* const base[] = {"2015-03-05", "2015-075", "2015-03-05 01:02:03.456789", "2015-Apr-05 01:02:03.456789", "2016-366 23:59:59.999999", "1980 APRIL 06T00:00:00.5", "2,015-Jul-05 01:02:03,456", "12345-01-01 00:00:01234.5"};
      static const char* const names[] = {"APRIL", "april", "apr", "JUNI", "Dec", "JULI", "FEB", "maY"};
      std::string t = a[1] == 5 ? names[a[3]] : base[a[3]];
      for (int i = 0; i < a.nsteps; ++i) {
        const std::size_t at = static_cast<std::size_t>(a.step(i, 0)) % (t.size() + 1);
        const char ch = static_cast<char>(a.step(i, 1));
        if (a.step(i, 2) == 0 || at == t.size()) t.insert(at, 1, ch);
        else if (a.step(i, 2) == 1) t[at] = ch;
        else if (t.size() > 1) t.erase(at, 1);
      }
      both(a[0], c, [&](Out& o) {
        std::memset(&o, 0, sizeof o);
        const std::unique_ptr<char[]> buf(new char[t.size() + 1]);
        std::memcpy(buf.get(), t.c_str(), t.size() + 1);
        char* stop = nullptr;
        try {
          if (a[1] == 5) { o.i(u(month(buf.get()))); return; }
          with_res(a[2], [&](auto g) {
            using S = typename decltype(g)::type;
            const char* z = buf.get();
            switch (a[1]) {
              case 0: calls::put(o, strptime_ymd<S>(z, &stop)); break;
              case 1: calls::put(o, strptime_ydoy<S>(z, &stop)); break;
              case 2: calls::put(o, strptime_ymd_hms<S>(z, &stop)); break;
              case 3: calls::put(o, strptime_yod_hms<S>(z, &stop)); break;
              default: calls::put(o, strptime_ydoy_hms<S>(z, &stop)); break;
            }
          });
          o.i(stop - buf.get());
        } catch (const std::exception& e) { o.threw = 1; o.nv = 0; o.t(typeid(e).name()); }
      });
    };
    p.subs.push_back(s); }
  { Sub s;   // every month name, every single byte in front of the month, every locale
    s.name = "names"; s.rule = "a locale that is available";
    s.head = {Param{"loc", 0, NLOC - 1}, Param{"m", 0, 11}, Param{"style", 0, 5}, Param{"byte", 1, 255}};
    s.weight = 10;
    s.eval = [](const Args& a, Ctx& c) {
      static const char* const longs[] = {"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"};
      std::string n = longs[a[1]];
      if (a[2] % 3 == 1) for (char& ch : n) ch = static_cast<char>(ch >= 'a' ? ch - 32 : ch);
      if (a[2] % 3 == 2) for (char& ch : n) ch = static_cast<char>(ch < 'a' ? ch + 32 : ch);
      if (a[2] >= 3) n.resize(3);
      const std::string t = std::string("2015") + static_cast<char>(a[3] >= '0' && a[3] <= '9' ? '-' : a[3]) + n.substr(0, 3) + "-05 01:02:03.25";
      both(a[0], c, [&](Out& o) {
        std::memset(&o, 0, sizeof o);
        try { o.i(u(month(n.c_str()))); o.t(month(static_cast<int>(a[1] + 1)).short_name()); o.t(month(static_cast<int>(a[1] + 1)).long_name()); } catch (const std::exception&) { o.i(-1); }
        try { calls::put(o, strptime_yod_hms<microseconds>(t.c_str())); } catch (const std::exception&) { o.i(-2); }
      });
    };
    s.enum_n = [](bool) { return static_cast<i64>(NLOC) * 12 * 6; };
    s.enum_at = [](i64 i, i64* v) { v[0] = i % NLOC; i /= NLOC; v[1] = i % 12; i /= 12; v[2] = i; v[3] = '-'; };
    p.subs.push_back(s); }
  return p;
}
