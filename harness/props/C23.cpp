// C23: results depend on the arguments alone
#include <malloc.h>
#include <cerrno>
#include <thread>
#include "../calls.hpp"
using namespace lib;
using calls::Out;
// Two worlds around the calls: other environment variables, another time, another time zone, other random numbers.
namespace { thread_local int world = 0; }
#if !defined(__clang__) && !defined(__SANITIZE_THREAD__)
#define PBT_WORLDS 1
#include <dlfcn.h>
#include <sys/time.h>
#include <ctime>
namespace {
template<class F> F next(F, const char* name) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, name)); }
constexpr long kNow[3] = {0, 1000000007, 4102444799};
char kSet[] = "1";
}
#pragma GCC diagnostic ignored "-Wnonnull-compare"
extern "C" {
char* getenv(const char* n) noexcept { if (world) return world == 1 ? nullptr : kSet; static const auto f = next(&getenv, "getenv"); return f(n); }
char* secure_getenv(const char* n) noexcept { if (world) return world == 1 ? nullptr : kSet; static const auto f = next(&secure_getenv, "secure_getenv"); return f(n); }
time_t time(time_t* t) noexcept { if (world) { if (t) *t = kNow[world]; return kNow[world]; } static const auto f = next(&time, "time"); return f(t); }
clock_t clock() noexcept { if (world) return kNow[world]; static const auto f = next(&clock, "clock"); return f(); }
int gettimeofday(struct timeval* t, void* z) noexcept { if (world) { t->tv_sec = kNow[world]; t->tv_usec = 999999; return 0; } static const auto f = next(&gettimeofday, "gettimeofday"); return f(t, z); }
int clock_gettime(clockid_t c, struct timespec* t) noexcept { if (world) { t->tv_sec = kNow[world]; t->tv_nsec = 999999999; return 0; } static const auto f = next(&clock_gettime, "clock_gettime"); return f(c, t); }
int rand() noexcept { if (world) return world == 1 ? 0 : RAND_MAX; static const auto f = next(&rand, "rand"); return f(); }
long random() noexcept { if (world) return world == 1 ? 0 : RAND_MAX; static const auto f = next(&random, "random"); return f(); }
}
#endif
namespace {
struct World {
  const int before = world;
  explicit World(int w) { world = w; }
  ~World() { world = before; }
};
void zone([[maybe_unused]] int w) {
#ifdef PBT_WORLDS
  static bool once = (setenv("TZ", "UTC0", 1), true); (void)once;
  char* const z = [] { const World out(0); return getenv("TZ"); }();   // changed in place: setenv keeps every value it was given
  if (z && std::strlen(z) >= 4) { std::memcpy(z, w == 1 ? "UTC0" : "XY-9", 4); tzset(); }
#endif
}
constexpr int ERR = 3 + calls::NA;   // position of the errno and fill parameters
struct C { int fn, r, q; i64 a[calls::NA]; };
// leaves `pat` in the stack memory that the next calls use
__attribute__((noinline)) void scribble(int pat) {
  unsigned char b[6000];
  std::memset(b, pat, sizeof b);
  asm volatile("" : : "r"(b) : "memory");
}
__attribute__((noinline)) void run(const C& c, int err, int pat, Out& o) {
  scribble(pat);
  errno = err;
  const World w(pat < 128 ? 1 : 2);
  calls::call(c.fn, c.r, c.q, c.a, false, o);
}
const std::vector<i64> kErr = {0, ERANGE, EINVAL, EDOM, ENOENT, 12345};
Param P_fn() { return Param{"fn", 0, calls::NF - 1, {12, 13, 4, 14}, 20}; }
std::vector<Param> step_params() {
  std::vector<Param> v = {P_fn(), P_res("res"), P_res("other")};
  for (auto& p : calls::P_args()) v.push_back(p);
  v.push_back(Param{"errno", 0, 5});
  v.push_back(Param{"fill", 0, 255, {0, 255, 1, 0x7f, 0x80}, 60});
  v.push_back(Param{"like", 0, 2 * calls::NA + 2, {0}, 60});
  v.push_back(Param{"by", 0, 31});
  return v;
}
// "like": the call is the one before it with one argument moved (by an amount that a hash, a truncated key or a period of the calendar
// would not see), or the same arguments with another function or other resolutions
C get(const Args& a, int i) {
  static const i64 kBy[32] = {1, -1, 1LL << 32, -(1LL << 32), 1 << 16, 1LL << 31, 256, 7, 28, 400, 366, 146097, 1000, 1000000, 1000003, 86400, 86400000, 86400000000, 12, 16, 64, 1024, 4096, 1LL << 20, 1LL << 24, 1LL << 33, 1LL << 40, 1LL << 48, 0, 100, 36525, 1461};
  C c{static_cast<int>(a.step(i, 0)), static_cast<int>(a.step(i, 1)), static_cast<int>(a.step(i, 2)), {}};
  for (int k = 0; k < calls::NA; ++k) c.a[k] = a.step(i, 3 + k);
  const i64 like = a.step(i, ERR + 2);
  if (like == 0 || i == 0) return c;
  C b = get(a, i - 1);
  if (like <= 2 * calls::NA) {
    i64& x = b.a[(like - 1) % calls::NA];
    x = static_cast<i64>(static_cast<std::uint64_t>(x) + static_cast<std::uint64_t>(kBy[a.step(i, ERR + 3)]));
  } else if (like == 2 * calls::NA + 1) b.fn = c.fn;
  else { b.r = c.r; b.q = c.q; }
  return b;
}
// Calls fixed in advance, evaluated before anything else in the process.
constexpr int NG = 240;
C golden_call(int i) {
  C c{i % calls::NF, i / calls::NF % 3, i / 7 % 3, {}};
  for (int k = 0; k < calls::NA; ++k) { const i64 x = (i + 1) * 2654435761LL % 1000003 * (k + 3) * 7919; c.a[k] = k == 2 || k == 3 ? x * 977 : k == 7 ? i / 3 % 4 : x % (k == 0 ? 3000 : 40); }
  return c;
}
const std::vector<Out>& golden() {
  static const std::vector<Out> g = [] { std::vector<Out> v(NG); for (int i = 0; i < NG; ++i) { const C c = golden_call(i); calls::call(c.fn, c.r, c.q, c.a, false, v[static_cast<std::size_t>(i)]); } return v; }();
  return g;
}
}
Prop pbt::make_prop() {
  golden();
  Prop p{"C23", {}};
  { Sub s;
    s.name = "history"; s.rule = "two calls or more of at least two functions";
    s.step = step_params();
    s.max_steps = 10;
    s.weight = 1000;
    s.eval = [](const Args& a, Ctx& c) {
      static unsigned turn = 0;
      if (a.nsteps == 0) return;
      std::vector<C> cs;
      std::vector<Out> fwd(static_cast<std::size_t>(a.nsteps));
      bool kinds = false, threw = false;
      mallopt(M_PERTURB, static_cast<int>(a.step(0, ERR + 1)));
      zone(1);
      for (int i = 0; i < a.nsteps; ++i) {
        cs.push_back(get(a, i));
        run(cs.back(), static_cast<int>(kErr[static_cast<std::size_t>(a.step(i, ERR))]), static_cast<int>(a.step(i, ERR + 1)), fwd[static_cast<std::size_t>(i)]);
        kinds = kinds || cs.back().fn != cs[0].fn;
        threw = threw || fwd[static_cast<std::size_t>(i)].threw;
        if (c.verbose) printf("call %d: function %d threw=%d results", i, cs.back().fn, fwd[static_cast<std::size_t>(i)].threw);
        if (c.verbose) { for (int k = 0; k < fwd[static_cast<std::size_t>(i)].nv; ++k) printf(" %lld", static_cast<long long>(fwd[static_cast<std::size_t>(i)].v[k])); printf(" \"%s\"\n", fwd[static_cast<std::size_t>(i)].s); }
      }
      // the same calls in the opposite order, with another errno and other memory contents, in another time zone, at another time
      zone(2);
      mallopt(M_PERTURB, static_cast<int>(255 - a.step(0, ERR + 1)));
      for (int i = a.nsteps; i-- > 0;) {
        Out o;
        run(cs[static_cast<std::size_t>(i)], a.step(i, ERR) ? 0 : ERANGE, static_cast<int>(255 - a.step(i, ERR + 1)), o);
        const std::string d = calls::differ(fwd[static_cast<std::size_t>(i)], o, 0);
        REQ(d.empty(), "call %d (function %d) repeated after other calls: %s", i, cs[static_cast<std::size_t>(i)].fn, d.c_str());
      }
      { // and a call whose result was recorded when the process started
        const unsigned k = (turn += 7) % NG;
        const C g = golden_call(static_cast<int>(k));
        Out o;
        run(g, a.step(0, ERR) ? ERANGE : 0, static_cast<int>(a.step(0, ERR + 1)), o);
        const std::string d = calls::differ(golden()[k], o, 0);
        REQ(d.empty(), "recorded call %u (function %d) after other calls: %s", k, g.fn, d.c_str());
      }
      c.nontrivial(kinds);
      c.label_if(threw, "a call throws");
      for (int i = 1; i < a.nsteps; ++i) c.label_if(a.step(i, ERR + 2) > 0, "a call like the one before");
      c.label_if(a.nsteps >= 6, "six calls or more");
    };
    p.subs.push_back(s); }
#ifndef __clang__   // not in the fuzzer
  { Sub s;
    s.name = "threads"; s.rule = "two calls or more, made by four threads at once";
    s.step = step_params();
    s.max_steps = 12;
    s.weight = 2;
    s.eval = [](const Args& a, Ctx& c) {
      if (a.nsteps == 0) return;
      constexpr int NT = 4;
      std::vector<C> cs;
      for (int i = 0; i < a.nsteps; ++i) cs.push_back(get(a, i));
      const std::size_t n = cs.size();
      std::vector<Out> res(n * NT), seq(n);
      std::vector<std::thread> th;
      for (std::size_t t = 0; t < NT; ++t) th.emplace_back([&, t] {
        for (std::size_t i = 0; i < n; ++i) { // each thread starts elsewhere; odd threads go backwards
          const std::size_t k = (t % 2 ? n * 2 - 1 - i + t : i + t) % n;
          errno = t == 1 ? ERANGE : 0;
          calls::call(cs[k].fn, cs[k].r, cs[k].q, cs[k].a, false, res[t * n + k]);
        }
      });
      for (auto& x : th) x.join();
      for (std::size_t k = 0; k < n; ++k) {
        calls::call(cs[k].fn, cs[k].r, cs[k].q, cs[k].a, false, seq[k]);
        for (std::size_t t = 0; t < NT; ++t) {
          const std::string d = calls::differ(seq[k], res[t * n + k], 0);
          REQ(d.empty(), "call %zu (function %d) alone and in thread %zu: %s", k, cs[k].fn, t, d.c_str());
        }
      }
      c.nontrivial(n >= 2);
    };
    p.subs.push_back(s); }
#endif
  return p;
}
