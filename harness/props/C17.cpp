// C17: month names
#include <memory>
#include "../lib.hpp"
using namespace lib;
namespace {
const char* const kLong[] = {"january", "february", "march", "april", "may", "june", "july", "august", "september", "october", "november", "december"};
std::string low(std::string s) { for (char& ch : s) if (ch >= 'A' && ch <= 'Z') ch = static_cast<char>(ch + 32); return s; }
int want(const std::string& t) {
  const std::string l = low(t);
  for (int i = 0; i < 12; ++i) { const std::string f = kLong[i]; if (l == f || l == f.substr(0, 3)) return i + 1; }
  return 0;
}
void check(const std::string& t, Ctx& c) {
  const std::unique_ptr<char[]> buf(new char[t.size() + 1]);
  memcpy(buf.get(), t.c_str(), t.size() + 1);
  int got = 0;
  try { got = static_cast<int>(u(month(static_cast<const char*>(buf.get())))); REQ(got != 0, "\"%s\" gives month 0", t.c_str()); }
  catch (const std::invalid_argument&) { }
  EQ(got, want(t), ("month of \"" + t.substr(0, 200) + "\" (0: rejected)").c_str());
  REQ(t == buf.get(), "the text was changed");
  c.label(got ? "a month" : "rejected");
}
}
Prop pbt::make_prop() {
  Prop p{"C17", {}};
  { Sub s;
    s.name = "names"; s.rule = "any";
    s.head = {Param{"m", 1, 12}, Param{"short", 0, 1}, Param{"case", 0, 511}};
    s.weight = 10;
    s.eval = [](const Args& a, Ctx& c) {
      const month m(static_cast<int>(a[0]));
      std::string t = kLong[a[0] - 1];
      if (a[1]) t.resize(3);
      for (std::size_t i = 0; i < t.size(); ++i) if ((a[2] >> i) & 1) t[i] = static_cast<char>(t[i] - 32);
      check(t, c);
      std::string cap = kLong[a[0] - 1];
      cap[0] = static_cast<char>(cap[0] - 32);
      REQ(cap == m.long_name() && cap.substr(0, 3) == m.short_name(), "names of month %lld: %s %s", static_cast<long long>(a[0]), m.short_name(), m.long_name());
      REQ(month(m.short_name()) == m && month(m.long_name()) == m, "names of month %lld do not resolve back", static_cast<long long>(a[0]));
      c.nontrivial();
    };
    s.enum_n = [](bool) { return static_cast<i64>(12) * 2 * 512; };
    s.enum_at = [](i64 i, i64* v) { v[0] = i % 12 + 1; v[1] = i / 12 % 2; v[2] = i / 24; };
    p.subs.push_back(s); }
  { Sub s;
    s.name = "near"; s.rule = "an edited month name";
    s.head = {Param{"m", 1, 12}, Param{"len", 0, 9}, Param{"case", 0, 511}};
    s.step = {Param{"op", 0, 3}, Param{"at", 0, 12}, Param{"ch", 1, 255, {'a', 'e', 'n', 'r', 'u', 'y', 'b', 'J', 'M', ' ', '.', '-', '1', 0xC1, 0xE1, '@', '[', '`', '{'}, 60}};
    s.max_steps = 4;
    s.weight = 50;
    s.eval = [](const Args& a, Ctx& c) {
      std::string t = kLong[a[0] - 1];
      if (a[1] < 9) t.resize(std::min<std::size_t>(t.size(), static_cast<std::size_t>(a[1])));
      for (std::size_t i = 0; i < t.size(); ++i) if ((a[2] >> i) & 1) t[i] = static_cast<char>(t[i] - 32);
      for (int i = 0; i < a.nsteps; ++i) {
        const std::size_t at = static_cast<std::size_t>(a.step(i, 1)) % (t.size() + 1);
        const char ch = static_cast<char>(a.step(i, 2));
        switch (a.step(i, 0)) {
          case 0: if (at < t.size()) t[at] = ch; break;
          case 1: t.insert(at, 1, ch); break;
          case 2: if (at < t.size()) t.erase(at, 1); break;
          default: if (at < t.size()) t[at] = static_cast<char>(t[at] ^ (1 << (a.step(i, 2) & 7))); if (at < t.size() && !t[at]) t[at] = 'x'; break;
        }
      }
      check(t, c);
      c.nontrivial(a.nsteps > 0 || a[1] < 9);
    };
    // every prefix of every name, every single-character change of a short name
    s.enum_n = [](bool) { return static_cast<i64>(12) * 10; };
    s.enum_at = [](i64 i, i64* v) { v[0] = i % 12 + 1; v[1] = i / 12; v[2] = 0; };
    p.subs.push_back(s); }
  { Sub s;
    s.name = "bytes"; s.rule = "a text of at least three characters";
    s.head = {Param{"dummy", 0, 0}};
    s.step = {Param{"ch", 1, 255, {'a', 'b', 'c', 'd', 'e', 'f', 'g', 'j', 'l', 'm', 'n', 'o', 'p', 'r', 's', 't', 'u', 'v', 'y', 'A', 'D', 'F', 'J', 'M', 'N', 'O', 'S'}, 85}};
    s.max_steps = 300;
    s.weight = 20;
    s.eval = [](const Args& a, Ctx& c) {
      std::string t;
      for (int i = 0; i < a.nsteps; ++i) t += static_cast<char>(a.step(i, 0));
      check(t, c);
      c.nontrivial(t.size() >= 3);
    };
    p.subs.push_back(s); }
  { Sub s;
    s.name = "three"; s.rule = "every text of one to three letters, and a short name with one more character";
    s.head = {Param{"k", 0, 20000 + 12 * 256}};
    s.weight = 2;
    s.eval = [](const Args& a, Ctx& c) {
      std::string t;
      if (a[0] < 18278) { i64 k = a[0] + 1; while (k > 0) { t += static_cast<char>('a' + (k - 1) % 26); k = (k - 1) / 26; } if (a[0] % 2) t[0] = static_cast<char>(t[0] - 32); }
      else if (a[0] >= 20000) { const i64 k = (a[0] - 20000) % 3072; t = std::string(kLong[k / 256], 3); if (k % 256) t += static_cast<char>(k % 256); }
      check(t, c);
      c.nontrivial();
    };
    s.enum_n = [](bool) { return static_cast<i64>(20000 + 12 * 256); };
    s.enum_at = [](i64 i, i64* v) { v[0] = i; };
    p.subs.push_back(s); }
  { Sub s;
    s.name = "long"; s.rule = "a text of more than nine characters";
    s.head = {Param{"m", 1, 12}, Param{"short", 0, 1}, Param{"at", 0, 9}, Param{"ch", 1, 255, {' ', 'a', 'y', 'r', '0', '\t', '.'}, 60}, P_len("len"), Param{"twice", 0, 1}};
    s.weight = 1;
    s.eval = [](const Args& a, Ctx& c) {
      std::string t = kLong[a[0] - 1];
      if (a[1]) t.resize(3);
      std::size_t at = static_cast<std::size_t>(a[2]);
      if (at > t.size()) at = t.size();
      t.insert(at, run_length(a[4]), static_cast<char>(a[3]));
      if (a[5]) t += kLong[a[0] - 1];
      check(t, c);
      c.nontrivial(t.size() > 9);
    };
    s.enum_n = [](bool) { return static_cast<i64>(12) * 2 * 700 * 2; };
    s.enum_at = [](i64 i, i64* v) { v[0] = i % 12 + 1; i /= 12; v[1] = i % 2; i /= 2; v[2] = i % 2 ? 9 : 0; i /= 2; v[3] = i % 3 ? 'y' : ' '; v[4] = i; v[5] = 0; };
    p.subs.push_back(s); }
  return p;
}
