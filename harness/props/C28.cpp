// C28: the work of a call is bounded
// With gcc, the library and this file are built with -fsanitize-coverage=trace-pc: every basic block that is executed calls
// __sanitizer_cov_trace_pc, so the work of a call is a number that does not depend on the machine or its load.
// libFuzzer owns that function, so the clang build goes by CPU time alone.
#include <ctime>
#include <memory>
#include <unistd.h>
#include "../calls.hpp"
using namespace lib;
using calls::Out;
#if defined(__clang__)
# define NOCOV
#else
# define NOCOV __attribute__((no_sanitize_coverage))
#endif
namespace {
thread_local u64 steps_ = 0;
thread_local bool count_on = false;
constexpr u64 kEnd = 400000000;             // nothing gets that far
constexpr u64 kCall = 20000, kChar = 400;   // most steps of a call, and more for every character of its text
constexpr double kSlow = 0.030;             // CPU seconds of any call with at most 300000 characters
}
#if !defined(__clang__)
extern "C" NOCOV void __sanitizer_cov_trace_pc() {
  if (count_on && ++steps_ > kEnd) {
    static const char m[] = "runtime error: a single call has taken 400 million steps\n";
    (void)!write(2, m, sizeof m - 1);
    _exit(79);
  }
}
#endif
namespace {
NOCOV double cpu() { timespec t; clock_gettime(CLOCK_THREAD_CPUTIME_ID, &t); return static_cast<double>(t.tv_sec) + 1e-9 * static_cast<double>(t.tv_nsec); }
// f() is one call (or a handful); n: characters it is given
template<class F> NOCOV void work(u64 n, Ctx& c, F f) {
  const u64 limit = kCall + kChar * n;
  #if defined(__clang__)
  const bool clocked = true;
#else
  const bool clocked = n > 3000;
#endif
  const double t0 = clocked ? cpu() : 0;
  steps_ = 0;
  count_on = true;
  f();
  count_on = false;
  const u64 s = steps_;
  REQ(s <= limit, "%llu steps (most: %llu, for %llu characters)", static_cast<unsigned long long>(s), static_cast<unsigned long long>(limit), static_cast<unsigned long long>(n));
  if (clocked) {
    const double slow = c.verbose ? kSlow / 2 : kSlow;   // a shrunk case lies at the limit
    double best = cpu() - t0;
    for (int i = 0; i < 8 && best > slow; ++i) { const double a = cpu(); f(); const double b = cpu() - a; if (b < best) best = b; }
    REQ(best <= slow, "%.3f s of CPU time for %llu characters", best, static_cast<unsigned long long>(n));
  }
  c.label(s < 100 ? "under 100 steps" : s < 1000 ? "under 1000 steps" : s < 10000 ? "under 10000 steps" : "10000 steps or more");
  if (c.verbose) printf("%llu steps\n", static_cast<unsigned long long>(s));
}
}
Prop pbt::make_prop() {
  Prop p{"C28", {}};
  { Sub s;
    s.name = "calls"; s.rule = "an argument of a million or more";
    s.head = {Param{"fn", 0, calls::NF - 1}, P_res("res"), P_res("other")};
    for (auto& q : calls::P_args()) s.head.push_back(q);
    s.weight = 60;
    s.eval = [](const Args& a, Ctx& c) {
      work(0, c, [&] {
        Out o;
        calls::call(static_cast<int>(a[0]), static_cast<int>(a[1]), static_cast<int>(a[2]), a.h + 3, false, o);
      });
      bool big = false;
      for (int i = 0; i < calls::NA - 1; ++i) big = big || a[3 + i] >= 1000000 || a[3 + i] <= -1000000;
      c.nontrivial(big);
    };
    p.subs.push_back(s); }
  { Sub s;   // the same call with the extreme of every range
    s.name = "extremes"; s.rule = "any";
    s.head = {Param{"fn", 0, calls::NF - 1}, P_res("res"), P_res("other"), Param{"far", 0, 3}, Param{"bits", 0, 127}, Param{"sign", 0, 127}};
    s.weight = 10;
    s.eval = [](const Args& a, Ctx& c) {
      i64 v[calls::NA];
      for (int i = 0; i < calls::NA - 1; ++i) { const i64 big = 2000000000000000003LL + i * 1000003; v[i] = !((a[4] >> i) & 1) ? 5 : (a[5] >> i) & 1 ? -big : big; }
      v[calls::NA - 1] = a[3];
      work(0, c, [&] {
        Out o;
        calls::call(static_cast<int>(a[0]), static_cast<int>(a[1]), static_cast<int>(a[2]), v, false, o);
      });
      c.nontrivial();
    };
    s.enum_n = [](bool th) { return static_cast<i64>(calls::NF) * 9 * 4 * 128 * (th ? 128 : 8); };
    s.enum_at = [](i64 i, i64* v) { v[0] = i % calls::NF; i /= calls::NF; v[1] = i % 3; i /= 3; v[2] = i % 3; i /= 3; v[3] = i % 4; i /= 4; v[4] = i % 128; i /= 128; v[5] = (i * 37) % 128; };
    p.subs.push_back(s); }
  { Sub s;
    s.name = "text"; s.rule = "a text of more than 1000 characters";
    s.head = {P_res(), Param{"form", 0, 5}, Param{"day", 0, 80000}, Param{"stop", 0, 1}};
    s.step = {Param{"at", 0, 40}, Param{"ch", 0, 63}, P_len("len", 100000)};
    s.max_steps = 3;
    s.weight = 2;
    s.eval = [](const Args& a, Ctx& c) {
      static const char* const runs[] = {" ", "0", "9", "1", "-", "x", "\t", ".", "e", "\xff", "Jan", "12-", "00:", "99999", "-0", "1 ", "march", "+", "\n", "e9"};
      static const char* const mon[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
      const int form = static_cast<int>(a[1]);
      const model::YMD d = model::mjd2ymd(a[2]);
      char b[64];
      switch (form) {
        case 0: snprintf(b, sizeof b, "%04lld-%02d-%02d", static_cast<long long>(d.y), d.m, d.d); break;
        case 1: snprintf(b, sizeof b, "%04lld-%03d", static_cast<long long>(d.y), d.d * 11); break;
        case 2: snprintf(b, sizeof b, "%04lld-%02d-%02d 01:02:03.456789", static_cast<long long>(d.y), d.m, d.d); break;
        case 3: snprintf(b, sizeof b, "%04lld-%s-%02d 01:02:03.456789", static_cast<long long>(d.y), mon[d.m - 1], d.d); break;
        case 4: snprintf(b, sizeof b, "%04lld-%03d 01:02:03.456789", static_cast<long long>(d.y), d.d * 11); break;
        default: snprintf(b, sizeof b, "%s", mon[d.m - 1]); break;
      }
      std::string t = b;
      const std::size_t n0 = t.size();
      for (int i = 0; i < a.nsteps && i < 3; ++i) {
        const std::size_t at = a.step(i, 0) > 30 ? t.size() : static_cast<std::size_t>(a.step(i, 0)) % (n0 + 1);
        const std::string bit = runs[a.step(i, 1) % 20];
        std::string run;
        const std::size_t len = run_length(a.step(i, 2));
        run.reserve(len + bit.size());
        while (run.size() < len) run += bit;
        run.resize(len);
        t.insert(at, run);
      }
      with_res(a[0], [&](auto g) {
        using S = typename decltype(g)::type;
        char* stop = nullptr;
        char** sp = a[3] ? &stop : nullptr;
        const char* z = t.c_str();
        work(t.size(), c, [&] {
          try {
            switch (form) {
              case 0: strptime_ymd<S>(z, sp); break;
              case 1: strptime_ydoy<S>(z, sp); break;
              case 2: strptime_ymd_hms<S>(z, sp); break;
              case 3: strptime_yod_hms<S>(z, sp); break;
              case 4: strptime_ydoy_hms<S>(z, sp); break;
              default: (void)month(z); break;
            }
          } catch (const std::exception&) { }
        });
      });
      c.nontrivial(t.size() > 1000);
      c.label_if(t.size() > 1000, "over 1000 characters");
      c.label_if(t.size() > 50000, "over 50000 characters");
    };
    p.subs.push_back(s); }
  return p;
}
