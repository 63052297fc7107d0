// C15: well-formed text is read as the instant it spells
#include <memory>
#include "../lib.hpp"
#include "datetime_read.hpp"
using namespace lib;
namespace {
const char* const kMon[] = {"jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec"};
const i64 P10[] = {1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000};
std::string pad(i64 v, int w) { std::string s = std::to_string(v); while (static_cast<int>(s.size()) < w) s = "0" + s; return s; }
// any character but a digit and the terminator; common ones more often
char sepch(i64 x) {
  static const char common[] = "-/: .,;_T\t";
  unsigned v = static_cast<unsigned>(x) & 255;
  if (x >= 256) return common[(x - 256) % 10];
  if (v == 0 || (v >= '0' && v <= '9')) return '-';
  return static_cast<char>(v);
}
std::vector<i64> upto(i64 n) { std::vector<i64> v; for (i64 i = 0; i <= n; ++i) v.push_back(i); return v; }
Param P_sep(const char* n) { return Param{n, 1, 511}; }
}
Prop pbt::make_prop() {
  Prop p{"C15", {}};
  Sub s;
  s.name = "read"; s.rule = "unpadded fields, unusual separators, sub-second digits or trailing text";
  s.head = {P_res(), Param{"form", 0, 4}, Param{"y", 0, 2147483647, {0, 1, 99, 1582, 1858, 1900, 1972, 1999, 2000, 2004, 2015, 2016, 2019, 2100, 9999, 10000}, 60}, Param{"doy", 1, 366, {1, 31, 59, 60, 61, 244, 365, 366}, 20},
    Param{"h", 0, 2147483647, upto(25), 90}, Param{"mn", 0, 2147483647, upto(61), 90}, Param{"sec", 0, 2147483646, upto(61), 90}, Param{"ndig", 0, 9}, Param{"dig", 0, 999999999, {0, 1, 999999999, 999999, 999}, 20},
    Param{"pad", 0, 127}, P_sep("s1"), P_sep("s2"), P_sep("s3"), P_sep("s4"), P_sep("s5"), Param{"case", 0, 7}, Param{"stopmode", 0, 1}};
  s.step = {Param{"trail", 1, 255}};
  s.max_steps = 40;
  s.weight = 100;
  s.eval = [](const Args& a, Ctx& c) {
    const i64 y = a[2];
    const int doy = static_cast<int>(std::min<i64>(a[3], model::days_in_year(y))), form = static_cast<int>(a[1]);
    const model::YMD w = model::yd2ymd(y, doy);
    const char s1 = sepch(a[10]), s2 = sepch(a[11]), s3 = sepch(a[12]), s4 = sepch(a[13]), s5 = sepch(a[14]);
    const i64 pm = a[9];
    auto num = [&](i64 v, int width, int bit) { return pad(v, (pm >> bit) & 1 ? width : 1); };
    // forms: 0 y-m-d, 1 y-doy, 2 y-m-d h:m:s, 3 y-mon-d h:m:s, 4 y-doy h:m:s
    std::string t = num(y, 4, 0) + s1;
    if (form == 0 || form == 2) t += num(w.m, 2, 1) + s2 + num(w.d, 2, 2);
    else if (form == 3) {
      std::string m = kMon[w.m - 1];
      for (int i = 0; i < 3; ++i) if ((a[15] >> i) & 1) m[static_cast<std::size_t>(i)] = static_cast<char>(m[static_cast<std::size_t>(i)] - 32);
      t += m + s2 + num(w.d, 2, 2);
    } else t += num(doy, 3, 1);
    const int r = static_cast<int>(a[0]);
    static const int ndr[3] = {0, 3, 6};
    // a double has no more digits for many seconds
    const int e = a[6] > 1000000 ? std::min<int>(static_cast<int>(a[7]), ndr[r]) : static_cast<int>(a[7]);
    const i64 dig = a[8] % P10[e];
    i64 units = 0, days = 0;
    const bool hms = form >= 2;
    if (hms) {
      t += s3 + num(a[4], 2, 3) + s4 + num(a[5], 2, 4) + s5 + num(a[6], 2, 5);
      if (e) t += "." + pad(dig, e);
      const i64 frac = e >= ndr[r] ? dig / P10[e - ndr[r]] : dig * P10[ndr[r] - e];
      const i64 secs = a[4] * 3600 + a[5] * 60 + a[6];
      days = secs / 86400;
      units = secs % 86400 * FAC[r] + frac;
    }
    const std::size_t last = t.size() - 1;
    // trailing text that does not continue the last number
    std::string trail;
    for (int i = 0; i < a.nsteps; ++i) trail += static_cast<char>(a.step(i, 0));
    if (!trail.empty()) {
      const char f = trail[0];
      if ((f >= '0' && f <= '9') || (hms && (f == '.' || f == 'e' || f == 'E' || f == 'x' || f == 'X'))) trail = " " + trail;
    }
    const std::string full = t + trail;
    const std::unique_ptr<char[]> buf(new char[full.size() + 1]);
    memcpy(buf.get(), full.c_str(), full.size() + 1);
    char* stop = nullptr;
    char** sp = a[16] ? &stop : nullptr;
    const i64 mjd = model::ymd2mjd(w.y, w.m, w.d) + days;
    if (c.verbose) printf("text: \"%s\"\n", buf.get());
    with_res(r, [&](auto g) {
      using S = typename decltype(g)::type;
      const char* z = buf.get();
      datetime<S> d;
      switch (form) {
        case 0: d = sp ? strptime_ymd<S>(z, sp) : strptime_ymd<S>(z); break;
        case 1: d = sp ? strptime_ydoy<S>(z, sp) : strptime_ydoy<S>(z); break;
        case 2: d = sp ? strptime_ymd_hms<S>(z, sp) : strptime_ymd_hms<S>(z); break;
        case 3: d = sp ? strptime_yod_hms<S>(z, sp) : strptime_yod_hms<S>(z); break;
        default: d = sp ? strptime_ydoy_hms<S>(z, sp) : strptime_ydoy_hms<S>(z); break;
      }
      expect_dt(d, mjd, units, full.c_str());
    });
    if (sp) EQ(stop - buf.get(), last, "position of the last interpreted character");
    REQ(full == buf.get(), "the text was changed");
    c.nontrivial((pm & 63) != 63 || a[10] < 256 || (hms && e > 0) || !trail.empty());
    static const char* const forms[] = {"y-m-d", "y-doy", "y-m-d h:m:s", "y-mon-d h:m:s", "y-doy h:m:s"};
    c.label(forms[form]);
    c.label_if(!trail.empty(), "trailing text");
    c.label_if(hms && e > 0, "fractional seconds");
    c.label_if((pm & 63) != 63, "unpadded fields");
    c.label_if(y > 9999, "year above 9999");
    c.label_if(days > 0, "time of day carries into the date");
    c.label_if(s1 != s2, "mixed separators");
  };
  p.subs.push_back(s);
  // plain dates of 300 years, all forms
  { Sub q = s;
    q.name = "dates"; q.rule = "any date";
    q.step.clear(); q.max_steps = 0; q.weight = 15;
    q.enum_n = [](bool th) { return static_cast<i64>(366) * (th ? 4000 : 300) * 5; };
    q.enum_at = [](i64 i, i64* v) {
      v[1] = i % 5; i /= 5;
      v[3] = i % 366 + 1; i /= 366;
      v[2] = 1800 + i;
      const i64 k = v[2] * 367 + v[3] * 13 + v[1];
      v[0] = k % 3; v[4] = k % 24; v[5] = k % 60; v[6] = k / 7 % 60; v[7] = k % 10; v[8] = k * 7919 % 1000000000; v[9] = k % 128;
      for (int j = 10; j < 15; ++j) v[j] = 256 + (k + j) % 10;
      v[15] = k % 8; v[16] = k % 2;
    };
    p.subs.push_back(q); }
  // zero padding, fraction digits and trailing text of any length
  { Sub q;
    q.name = "long"; q.rule = "a text of more than 64 characters";
    q.head = {P_res(), Param{"form", 0, 4}, Param{"y", 0, 99999}, Param{"doy", 1, 366}, Param{"tod", 0, 86399}, Param{"ndig", 0, 9}, Param{"dig", 0, 999999999}, P_sep("s"),
      P_len("z0", 70000), P_len("z1", 70000), P_len("z2", 70000), P_len("z3", 70000), P_len("z4", 70000), P_len("z5", 70000), P_len("z6", 70000), P_len("tail", 300000), Param{"tailch", 1, 255}, Param{"stopmode", 0, 1}};
    q.weight = 1;
    q.eval = [](const Args& a, Ctx& c) {
      const i64 y = a[2];
      const int doy = static_cast<int>(std::min<i64>(a[3], model::days_in_year(y))), form = static_cast<int>(a[1]), r = static_cast<int>(a[0]);
      const model::YMD w = model::yd2ymd(y, doy);
      const std::string sep(1, sepch(a[7]));
      auto num = [&](i64 v, int k) { return std::string(run_length(a[8 + k]), '0') + std::to_string(v); };
      std::string t = num(y, 0) + sep;
      if (form == 0 || form == 2) t += num(w.m, 1) + sep + num(w.d, 2);
      else if (form == 3) t += std::string(kMon[w.m - 1]) + sep + num(w.d, 2);
      else t += num(doy, 1);
      i64 units = 0;
      if (form >= 2) {
        const int e = static_cast<int>(a[5]);
        const i64 dig = a[6] % P10[e];
        t += sep + num(a[4] / 3600, 3) + sep + num(a[4] / 60 % 60, 4) + sep + num(a[4] % 60, 5);
        if (e) t += "." + pad(dig, e) + std::string(run_length(a[14]), '0');
        static const int nd[3] = {0, 3, 6};
        const i64 frac = e >= nd[r] ? dig / P10[e - nd[r]] : dig * P10[nd[r] - e];
        units = a[4] * FAC[r] + frac;
      }
      const std::size_t last = t.size() - 1;
      if (a[15]) t += " " + std::string(run_length(a[15]), static_cast<char>(a[16]));
      const std::unique_ptr<char[]> buf(new char[t.size() + 1]);
      memcpy(buf.get(), t.c_str(), t.size() + 1);
      char* stop = nullptr;
      char** sp = a[17] ? &stop : nullptr;
      with_res(r, [&](auto g) {
        using S = typename decltype(g)::type;
        const char* z = buf.get();
        datetime<S> d;
        switch (form) {
          case 0: d = strptime_ymd<S>(z, sp); break;
          case 1: d = strptime_ydoy<S>(z, sp); break;
          case 2: d = strptime_ymd_hms<S>(z, sp); break;
          case 3: d = strptime_yod_hms<S>(z, sp); break;
          default: d = strptime_ydoy_hms<S>(z, sp); break;
        }
        expect_dt(d, model::ymd2mjd(w.y, w.m, w.d), units, t.substr(0, 200).c_str());
      });
      if (sp) EQ(stop - buf.get(), last, "position of the last interpreted character");
      REQ(t == buf.get(), "the text was changed");
      c.nontrivial(t.size() > 64);
      c.label_if(t.size() > 4096, "over 4096 characters");
    };
    p.subs.push_back(q); }
  return p;
}
