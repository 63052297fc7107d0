// C16: any text is either read or rejected with an exception
#include <cerrno>
#include <memory>
#include "../lib.hpp"
#include "datetime_read.hpp"
using namespace lib;
namespace {
const char* const kMon[] = {"jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec"};
std::string pad(i64 v, int w) { std::string s = std::to_string(v); while (static_cast<int>(s.size()) < w) s = "0" + s; return s; }
bool ws(char ch) { return ch == ' ' || (ch >= '\t' && ch <= '\r'); }
bool dg(char ch) { return ch >= '0' && ch <= '9'; }
char low(char ch) { return ch >= 'A' && ch <= 'Z' ? static_cast<char>(ch + 32) : ch; }

// Reference scanner: decides whether the text must be rejected. It follows the documented grammar (numbers separated by one
// character) and says "must reject" only for what the property names; everything else is left open.
struct Scan {
  const std::string& t;
  std::size_t i = 0;
  const char* why = nullptr;
  char at(std::size_t k) const { return k < t.size() ? t[k] : '\0'; }
  // one integral field; false if there is none or it is too large
  bool integer(i64& v) {
    std::size_t k = i;
    while (ws(at(k))) ++k;
    bool neg = false;
    if (at(k) == '+' || at(k) == '-') { neg = at(k) == '-'; ++k; }
    if (!dg(at(k))) { why = t.size() <= i ? "a field is missing" : "a field is no number"; return false; }
    i128 n = 0;
    for (; dg(at(k)); ++k) if (n < (static_cast<i128>(1) << 80)) n = n * 10 + (at(k) - '0');
    if (n > 2147483648LL || (n == 2147483648LL && !neg)) { why = "a field is too large"; return false; }
    v = static_cast<i64>(n);   // the sign is a separator to the readers
    i = k;
    if (i < t.size()) ++i;
    return true;
  }
  bool secs() {
    std::size_t k = i;
    while (ws(at(k))) ++k;
    if (at(k) == '+' || at(k) == '-') ++k;
    if (!(dg(at(k)) || (at(k) == '.' && dg(at(k + 1))))) { why = t.size() <= i ? "the seconds are missing" : "the seconds are no number"; return false; }
    if (at(k) == '0' && low(at(k + 1)) == 'x') return true;   // hexadecimal: left open
    // plain decimal digits before the point
    int n = 0;
    while (at(k) == '0') ++k;
    while (dg(at(k))) { ++k; ++n; }
    if (at(k) == '.') { ++k; if (n == 0) { while (at(k) == '0') { ++k; --n; } } while (dg(at(k))) ++k; }
    i64 e = 0;
    if (low(at(k)) == 'e') {
      std::size_t q = k + 1;
      bool neg = false;
      if (at(q) == '+' || at(q) == '-') { neg = at(q) == '-'; ++q; }
      for (; dg(at(q)); ++q) if (e < 1000000) e = e * 10 + (at(q) - '0');
      if (neg) e = -e;
    }
    // a value of 1e19 or more fits no resolution
    if (nonzero(i) && n + e > 19) { why = "the seconds are too large"; return false; }
    return true;
  }
  bool nonzero(std::size_t k) const {
    for (; k < t.size() && low(t[k]) != 'e'; ++k) { if (t[k] >= '1' && t[k] <= '9') return true; if (!dg(t[k]) && t[k] != '.' && !ws(t[k]) && t[k] != '+' && t[k] != '-') return false; }
    return false;
  }
};
// nullptr: no statement; otherwise the reason for which the reader has to reject the text
const char* must_reject(const std::string& t, int form) {
  Scan s{t};
  i64 v[6] = {};
  if (!s.integer(v[0])) return s.why;
  if (form == 3) {
    if (s.i < t.size() && !((t[s.i] >= 'a' && t[s.i] <= 'z') || (t[s.i] >= 'A' && t[s.i] <= 'Z'))) ++s.i;
    std::string m;
    for (int k = 0; k < 3; ++k) m += low(s.at(s.i + static_cast<std::size_t>(k)));
    for (int k = 0; k < 12; ++k) if (m == kMon[k]) v[1] = k + 1;
    if (!v[1]) return "the month does not exist";
    s.i += 3;
    if (s.i < t.size()) ++s.i;
    if (!s.integer(v[2])) return s.why;
  } else {
    if (!s.integer(v[1])) return s.why;
    if (form == 0 || form == 2) if (!s.integer(v[2])) return s.why;
  }
  if (form >= 2) {
    i64 x;
    for (int k = 0; k < 2; ++k) if (!s.integer(x)) return s.why;
    if (!s.secs()) return s.why;
  }
  if (form == 0 || form == 2 || form == 3) if (!model::valid(v[0], v[1], v[2])) return "the date does not exist";
  return nullptr;
}
struct Outcome { bool read; i64 mjd, sec; long stop; };
template<class S> Outcome call(const std::string& t, int form, int err, bool with_stop) {
  const std::unique_ptr<char[]> buf(new char[t.size() + 1]);
  memcpy(buf.get(), t.c_str(), t.size() + 1);
  char* stop = nullptr;
  char** sp = with_stop ? &stop : nullptr;
  errno = err;
  Outcome o{false, 0, 0, -9};
  try {
    datetime<S> d;
    const char* z = buf.get();
    switch (form) {
      case 0: d = strptime_ymd<S>(z, sp); break;
      case 1: d = strptime_ydoy<S>(z, sp); break;
      case 2: d = strptime_ymd_hms<S>(z, sp); break;
      case 3: d = strptime_yod_hms<S>(z, sp); break;
      default: d = strptime_ydoy_hms<S>(z, sp); break;
    }
    o.read = true;
    o.mjd = u(d.mjd());
    o.sec = u(d.sec());
    if (with_stop) {
      o.stop = stop - buf.get();
      REQ(o.stop >= -1 && o.stop <= static_cast<long>(t.size()), "stop position %ld outside the text of %zu characters", o.stop, t.size());
    }
  } catch (const Fail&) { throw; }
  catch (const std::exception&) { }
  REQ(t == buf.get(), "the text was changed");
  return o;
}
void judge(const std::string& t, int form, int r, bool stop, Ctx& c) {
  const char* why = must_reject(t, form);
  if (c.verbose) { printf("text (%zu characters): \"%.2000s\"; %s\n", t.size(), t.c_str(), why ? why : "may be read"); }
  with_res(r, [&](auto g) {
    using S = typename decltype(g)::type;
    const Outcome o = call<S>(t, form, 0, stop);
    if (why) REQ(!o.read, "text \"%.200s\" was read although %s", t.c_str(), why);
    const Outcome q = call<S>(t, form, ERANGE, !stop);
    REQ(o.read == q.read && o.mjd == q.mjd && o.sec == q.sec, "text \"%.200s\": the outcome changes with errno or the stop argument", t.c_str());
    if (o.read) REQ(o.sec >= 0 && o.sec < DAY[g.r], "text \"%.200s\" is read as a time of day of %lld", t.c_str(), static_cast<long long>(o.sec));
    c.label(o.read ? "read" : "rejected");
  });
  if (why) c.label(why);
}
std::string wellformed(const Args& a, int form) {
  const i64 y = a[2], m = a[3], d = a[4];
  std::string t = pad(y, 4) + "-";
  if (form == 3) { std::string n = kMon[(m + 11) % 12]; n[0] = static_cast<char>(n[0] - 32); t += n; }
  else if (form == 0 || form == 2) t += pad(m, 2);
  else return t + pad(d * 12, 3) + (form == 4 ? " 12:34:" + pad(a[5] % 60, 2) + ".25" : "");
  t += "-" + pad(d, 2);
  if (form >= 2) t += " 01:02:" + pad(a[5] % 60, 2) + (a[5] & 1 ? ".123456" : "");
  return t;
}
// snippets that are likely to matter
const char* const kBits[] = {"", "-", "+", " ", "0", "9", "99999999999", "2147483647", "2147483648", "-2147483648", "4294967297", "9223372036854775807", "18446744073709551617", "1e400", "1e5", "nan", "inf", "-inf", "0x10", "0x1p60", ".", "..", ":",
  "Jan", "feb", "DEC", "Janu", "J", "Ja", "\t", "\n", "\x80", "\xff", "--", "-0", "00000000000000000000000001", "60", "61", "24", "31", "30", "29", "02", "12", "13", "999", "1e-400", "1e308", "e", "E+", "infinity", "NAN(1)"};
constexpr int NB = sizeof kBits / sizeof kBits[0];
}
Prop pbt::make_prop() {
  Prop p{"C16", {}};
  { Sub s;
    s.name = "edits"; s.rule = "at least one edit of a well-formed text";
    s.head = {P_res(), Param{"form", 0, 4}, Param{"y", 0, 99999, {0, 1900, 2000, 2015, 2016, 2100}, 60}, Param{"m", 0, 14}, Param{"d", 0, 33, {28, 29, 30, 31}, 50}, Param{"sec", 0, 99}, Param{"stop", 0, 1}};
    s.step = {Param{"op", 0, 5}, Param{"at", 0, 40}, Param{"what", 0, 255}};
    s.max_steps = 12;
    s.weight = 50;
    s.eval = [](const Args& a, Ctx& c) {
      const int form = static_cast<int>(a[1]);
      std::string t = wellformed(a, form);
      for (int i = 0; i < a.nsteps; ++i) {
        const std::size_t at = t.empty() ? 0 : static_cast<std::size_t>(a.step(i, 1)) % (t.size() + 1);
        const i64 w = a.step(i, 2);
        const char ch = w ? static_cast<char>(w) : '-';
        switch (a.step(i, 0)) {
          case 0: if (at < t.size()) t[at] = ch; break;
          case 1: t.insert(at, 1, ch); break;
          case 2: if (at < t.size()) t.erase(at, 1); break;
          case 3: t.resize(at); break;                        // truncate
          case 4: t.insert(at, kBits[w % NB]); break;
          default: { // replace the field at this place
            std::size_t b = at, e = at;
            while (b > 0 && dg(t[b - 1])) --b;
            while (e < t.size() && dg(t[e])) ++e;
            t.replace(b, e - b, kBits[w % NB]);
            break; }
        }
      }
      judge(t, form, static_cast<int>(a[0]), a[6] != 0, c);
      c.nontrivial(a.nsteps > 0);
    };
    p.subs.push_back(s); }
  { Sub s;
    s.name = "fields"; s.rule = "any sequence of snippets";
    s.head = {P_res(), Param{"form", 0, 4}, Param{"stop", 0, 1}};
    s.step = {Param{"bit", 0, NB - 1}, Param{"sep", 0, 15}};
    s.max_steps = 10;
    s.weight = 25;
    s.eval = [](const Args& a, Ctx& c) {
      static const char* const seps[] = {"-", "-", "-", "-", "-", " ", ":", "/", "", ".", "T", "\x01", "--", "e", "\xe9", "  "};
      std::string t;
      for (int i = 0; i < a.nsteps; ++i) t += std::string(kBits[a.step(i, 0)]) + (i + 1 < a.nsteps ? seps[a.step(i, 1)] : "");
      judge(t, static_cast<int>(a[1]), static_cast<int>(a[0]), a[2] != 0, c);
      c.nontrivial();
    };
    p.subs.push_back(s); }
  { Sub s;
    s.name = "bytes"; s.rule = "a text of at least three characters";
    s.head = {P_res(), Param{"form", 0, 4}, Param{"stop", 0, 1}};
    s.step = {Param{"ch", 1, 255, {'0', '1', '2', '0', '1', '2', '5', '9', '-', '-', ' ', ':', '.', 'e', 'x', 'J', 'a', 'n', '+', 'i', 'f', 'D', 'e', 'c', 'A', 'u', 'g'}, 85}};
    s.max_steps = 48;
    s.weight = 25;
    s.eval = [](const Args& a, Ctx& c) {
      std::string t;
      for (int i = 0; i < a.nsteps; ++i) t += static_cast<char>(a.step(i, 0));
      judge(t, static_cast<int>(a[1]), static_cast<int>(a[0]), a[2] != 0, c);
      c.nontrivial(t.size() >= 3);
    };
    p.subs.push_back(s); }
  { Sub s;
    s.name = "short"; s.rule = "every text of up to six characters from a small alphabet, and every truncation of a well-formed text";
    s.head = {P_res(), Param{"form", 0, 4}, Param{"k", 0, 3000000}};
    s.weight = 2;
    s.eval = [](const Args& a, Ctx& c) {
      static const char al[] = "015-:Jan."; // 9 symbols
      std::string t;
      if (a[2] < 1000) {
        static const char* const full[] = {"2015-03-05", "2015-075", "2015-03-05 01:02:03.456789", "2015-Mar-05 01:02:03.456789", "2015-075 01:02:03.456789"};
        t = full[a[1]];
        if (static_cast<std::size_t>(a[2]) < t.size()) t.resize(static_cast<std::size_t>(a[2]));
      } else {
        i64 k = a[2] - 1000;
        while (k > 0) { t += al[(k - 1) % 9]; k = (k - 1) / 9; }
      }
      judge(t, static_cast<int>(a[1]), static_cast<int>(a[0]), a[2] % 2 != 0, c);
      c.nontrivial();
    };
    s.enum_n = [](bool th) { return static_cast<i64>(1000 + (th ? 597871 : 66430)) * 5; };
    s.enum_at = [](i64 i, i64* v) { v[1] = i % 5; v[2] = i / 5; v[0] = v[2] % 3; };
    p.subs.push_back(s); }
  { Sub s;
    s.name = "long"; s.rule = "a text of more than 64 characters";
    s.head = {P_res(), Param{"form", 0, 4}, Param{"y", 0, 99999, {0, 1900, 2000, 2015, 2016, 2100}, 60}, Param{"m", 0, 14}, Param{"d", 0, 33, {28, 29, 30, 31}, 50}, Param{"sec", 0, 99}, Param{"stop", 0, 1}};
    s.step = {Param{"at", 0, 40}, Param{"ch", 0, 63}, P_len("len")};
    s.max_steps = 4;
    s.weight = 1;
    s.eval = [](const Args& a, Ctx& c) {
      static const char* const runs[] = {" ", "0", "9", "1", "-", "x", "\t", ".", "e", "\xff", "Jan", "12-", "00:", "99999", "-0", "1 ", "Z", "+", "\n", "e9"};
      const int form = static_cast<int>(a[1]);
      std::string t = wellformed(a, form);
      const std::string well = t;
      for (int i = 0; i < a.nsteps && i < 4; ++i) {
        // beginning, end, or any place of the well-formed text
        const std::size_t at = a.step(i, 0) > 30 ? t.size() : static_cast<std::size_t>(a.step(i, 0)) % (well.size() + 1);
        const std::string bit = runs[a.step(i, 1) % 20];
        std::string run;
        const std::size_t len = run_length(a.step(i, 2));
        run.reserve(len + bit.size());
        while (run.size() < len) run += bit;
        run.resize(len);
        t.insert(at, run);
      }
      judge(t, form, static_cast<int>(a[0]), a[6] != 0, c);
      c.nontrivial(t.size() > 64);
      c.label_if(t.size() > 64, "over 64 characters");
      c.label_if(t.size() > 4096, "over 4096 characters");
    };
    p.subs.push_back(s); }
  return p;
}
