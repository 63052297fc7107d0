// C18: written dates are exact and read back
#include "../lib.hpp"
#include "datetime_read.hpp"
#include "datetime_write.hpp"
using namespace lib;
namespace {
std::string pad(i64 v, int w) { std::string s = std::to_string(v); while (static_cast<int>(s.size()) < w) s = "0" + s; return s; }
char delch(i64 x) {
  static const char common[] = "-/. :_,T";
  if (x >= 256) return common[(x - 256) % 8];
  const unsigned v = static_cast<unsigned>(x) & 255;
  return v == 0 || (v >= '0' && v <= '9') ? '-' : static_cast<char>(v);
}
bool all_digits(const std::string& s) { for (char ch : s) if (ch < '0' || ch > '9') return false; return !s.empty(); }
}
Prop pbt::make_prop() {
  Prop p{"C18", {}};
  Sub s;
  s.name = "write"; s.rule = "a sub-second part, or a field below 10";
  s.head = {P_res(), Param{"mjd", model::ymd2mjd(0, 1, 1), model::ymd2mjd(9999, 12, 31), P_mjd().pts, 25}, P_tod(), Param{"del", 1, 511}};
  s.weight = 100;
  s.eval = [](const Args& a, Ctx& c) {
    const char del = delch(a[3]);
    const model::YMD d = model::mjd2ymd(a[1]);
    with_res(a[0], [&](auto g) {
      using S = typename decltype(g)::type;
      constexpr int r = decltype(g)::r;
      const i64 tod = a[2] / (1000000 / FAC[r]), sec = tod / FAC[r], us = tod % FAC[r] * (1000000 / FAC[r]);
      const datetime<S> t = mk<S>(a[1], tod);
      const std::string head = pad(d.y, 4) + del + pad(d.m, 2) + del + pad(d.d, 2) + ' ' + pad(sec / 3600, 2) + ':' + pad(sec / 60 % 60, 2) + ':';
      // whole seconds
      const std::string w = strftime_ymd_hms(t, del);
      REQ(w == head + pad(sec % 60, 2), "wrote \"%s\", want \"%s\"", w.c_str(), (head + pad(sec % 60, 2)).c_str());
      expect_dt(strptime_ymd_hms<S>(w.c_str()), a[1], sec * FAC[r], ("read back \"" + w + "\"").c_str());
      if (del == '-') REQ(strftime_ymd_hms(t) == w, "default separator");
      // fractional seconds
      const std::string f = strftime_ymd_hmfs(t, del);
      if (del == '-') REQ(strftime_ymd_hmfs(t) == f, "default separator");
      REQ(f.compare(0, head.size(), head) == 0, "wrote \"%s\", want it to start \"%s\"", f.c_str(), head.c_str());
      const std::string ss = f.substr(head.size());
      const std::size_t dot = ss.find('.');
      REQ(dot != std::string::npos && dot >= 1 && dot <= 2 && ss.size() == dot + 6 && all_digits(ss.substr(0, dot)) && all_digits(ss.substr(dot + 1)), "seconds written as \"%s\"", ss.c_str());
      const i64 printed = atoll(ss.substr(0, dot).c_str()) * 100000 + atoll(ss.substr(dot + 1).c_str()); // in 10 microseconds
      const i64 exact = sec % 60 * 1000000 + us;
      REQ(std::abs(printed * 10 - exact) <= 5, "seconds %lld.%06lld written as \"%s\"", static_cast<long long>(exact / 1000000), static_cast<long long>(exact % 1000000), ss.c_str());
      if (printed >= 6000000) {
        REQ(exact >= 59999995, "60 seconds written for %lld microseconds", static_cast<long long>(exact));
        c.finding("K-C18-sixty", "seconds of the minute written as 60.00000");
      }
      const i64 back = (sec / 60 * 60 * 1000000 + printed * 10) / (1000000 / FAC[r]);
      const model::Instant n = model::norm(a[1], back, r);
      expect_dt(strptime_ymd_hms<S>(f.c_str()), n.mjd, n.tod, ("read back \"" + f + "\"").c_str());
      if (r < 2) expect_dt(strptime_ymd_hms<S>(f.c_str()), a[1], tod, "fractional form of a whole number of milliseconds");
      // free form
      const std::string z = t.stringify();
      std::string e = std::to_string(d.y) + "/" + std::to_string(d.m) + "/" + std::to_string(d.d) + " " + std::to_string(sec / 3600) + ":" + std::to_string(sec / 60 % 60) + ":" + std::to_string(sec % 60) + "." + pad(us, 6);
      // any number of further zeros
      REQ(z.compare(0, e.size(), e) == 0 && z.find_first_not_of('0', e.size()) == std::string::npos, "free form \"%s\", want \"%s\"", z.c_str(), e.c_str());
      expect_dt(strptime_ymd_hms<S>(z.c_str()), a[1], tod, ("read back \"" + z + "\"").c_str());
      expect_dt(t, a[1], tod, "the date-time itself");
      c.nontrivial(us != 0 || d.m < 10 || d.d < 10);
      c.label_if(us != 0, "sub-second part");
      c.label_if(exact >= 59999000, "last millisecond of a minute");
      c.label_if(d.y < 1000, "year below 1000");
    });
  };
  s.enum_n = [](bool th) { return (th ? 3652059 : 200000) * static_cast<i64>(3); };
  s.enum_at = [](i64 i, i64* v) {
    v[0] = i % 3; i /= 3;
    v[1] = model::ymd2mjd(0, 1, 1) + (i * 18 + i / 202892) % 3652425;
    v[2] = static_cast<i64>(static_cast<i128>(i) * 7919000003LL % model::DAYUS);
    if (i % 5 == 0) v[2] = v[2] / 1000000 * 1000000;
    v[3] = 256 + i % 8;
  };
  p.subs.push_back(s);
  // every second of a day
  { Sub q = s;
    q.name = "seconds"; q.rule = "any time of day"; q.weight = 5;
    q.enum_n = [](bool) { return static_cast<i64>(86400) * 3; };
    q.enum_at = [](i64 i, i64* v) { v[0] = i % 3; v[1] = 57204 + i / 3 % 700; v[2] = i / 3 * 1000000 + (i / 3 * 7919) % 1000000; v[3] = 256; };
    p.subs.push_back(q); }
  return p;
}
