// C27: running out of memory in the middle of a call
#include <cstdlib>
#include <malloc.h>
#include <memory>
#include <new>
#include "../calls.hpp"
using namespace lib;
using calls::Out;
namespace {
thread_local bool armed = false, hard = false;
thread_local long count_ = 0, fail_at = -1, failed = 0, live = 0, bytes = 0;
// may allocation number count_ be served?
inline bool serve() {
  if (!armed) return true;
  const long k = count_++;
  if (fail_at >= 0 && (k == fail_at || (hard && k > fail_at))) { ++failed; return false; }
  ++live;
  return true;
}
inline void* got(void* p) { if (armed && p) bytes += static_cast<long>(malloc_usable_size(p)); return p; }
inline void gone(void* p) { if (armed && p) { --live; bytes -= static_cast<long>(malloc_usable_size(p)); } }
}
#if defined(__has_feature)
# if __has_feature(address_sanitizer)
#  define PBT_ASAN 1
# endif
#endif
#if !defined(PBT_ASAN)
// the whole C heap (operator new uses it)
extern "C" {
void* __libc_malloc(std::size_t);
void* __libc_calloc(std::size_t, std::size_t);
void* __libc_realloc(void*, std::size_t);
void __libc_free(void*);
void* malloc(std::size_t n) { return serve() ? got(__libc_malloc(n)) : nullptr; }
void* calloc(std::size_t n, std::size_t m) { return serve() ? got(__libc_calloc(n, m)) : nullptr; }
void* realloc(void* p, std::size_t n) {
  if (!serve()) return nullptr;
  if (p && armed) { --live; bytes -= static_cast<long>(malloc_usable_size(p)); }
  return got(__libc_realloc(p, n));
}
void free(void* p) { gone(p); __libc_free(p); }
}
#else
// the sanitizer owns the C heap
namespace {
void* get(std::size_t n) { return serve() ? got(std::malloc(n ? n : 1)) : nullptr; }
void put_back(void* p) noexcept { gone(p); std::free(p); }
}
void* operator new(std::size_t n) { void* p = get(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](std::size_t n) { void* p = get(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return get(n); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return get(n); }
void operator delete(void* p) noexcept { put_back(p); }
void operator delete[](void* p) noexcept { put_back(p); }
void operator delete(void* p, std::size_t) noexcept { put_back(p); }
void operator delete[](void* p, std::size_t) noexcept { put_back(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { put_back(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { put_back(p); }
#endif
namespace {
struct Arm {   // allocation number `at` (none: -1) and, if `all`, every later one fails while this exists
  Arm(long at, bool all) { count_ = 0; failed = 0; live = 0; bytes = 0; fail_at = at; hard = all; armed = true; }
  ~Arm() { armed = false; }
};
constexpr const char* kOther = "another exception";

// f(out) without a failure, then with the failures given; both judged
template<class F> void inject(i64 at, bool all, Ctx& c, F f) {
  Out ref, o;
  long need, bad, left = 0;
  { // What is set up once may stay, but calls must not go on keeping memory.
    static long kept = 0, kept_bytes = 0;
    Arm a(-1, false);
    f(ref);
    kept += live;
    kept_bytes += bytes;
    left = kept > 64 || kept_bytes > 65536;
    need = kept; bad = kept_bytes;
  }
  REQ(!left, "%ld blocks (%ld bytes) of memory are kept by the calls made so far", need, bad);
  { Arm a(-1, false); f(ref); need = count_; left = live; }
  REQ(left == 0, "%ld blocks of memory are not released", left);
  bool oom = false;
  const char* other = nullptr;
  {
    Arm a(at, all);
    try { f(o); } catch (const std::bad_alloc&) { oom = true; } catch (const std::exception&) { other = kOther; }
    bad = failed; left = live;
  }
  REQ(!other, "%s than std::bad_alloc is thrown after allocation %lld has failed", other, static_cast<long long>(at));
  REQ(left == 0, "%ld blocks of memory are not released after allocation %lld has failed", left, static_cast<long long>(at));
  if (!oom) {
    const std::string d = calls::differ(ref, o, 0);
    REQ(d.empty(), "%s: %s", bad ? "the call returns a wrong result although memory ran out" : "a second call differs", d.c_str());
  } else REQ(bad > 0, "std::bad_alloc although no allocation failed");
  c.nontrivial(bad > 0);
  c.label(bad == 0 ? (need ? "fewer allocations" : "no allocation") : oom ? "std::bad_alloc" : ref.threw ? "rejected all the same" : "done all the same");
}
}
Prop pbt::make_prop() {
  Prop p{"C27", {}};
  { Sub s;
    s.name = "calls"; s.rule = "an allocation fails during the call";
    s.head = {Param{"at", 0, 15, {0, 0, 1, 2, 3}, 70}, Param{"all", 0, 1}, Param{"fn", 0, calls::NF - 1, {12, 13, 13, 14, 14, 14, 15}, 80}, P_res("res"), P_res("other")};
    for (auto& q : calls::P_args()) s.head.push_back(q);
    s.weight = 50;
    s.eval = [](const Args& a, Ctx& c) {
      inject(a[0], a[1] != 0, c, [&](Out& o) {
        std::memset(&o, 0, sizeof o);
        try {
          with_res2(a[3], a[4], [&](auto g, auto h) { calls::body<typename decltype(g)::type, typename decltype(h)::type>(static_cast<int>(a[2]), a.h + 5, false, o); });
        } catch (const std::bad_alloc&) { throw; }
        catch (const std::exception& e) { o.threw = 1; o.nv = o.nd = 0; std::strncpy(o.s, typeid(e).name(), sizeof o.s - 1); }
      });
    };
    p.subs.push_back(s); }
  { Sub s;   // nothing but the library allocates
    s.name = "text"; s.rule = "an allocation fails during the call";
    s.head = {Param{"at", 0, 15, {0, 0, 1, 2, 3}, 70}, Param{"all", 0, 1}, Param{"what", 0, 9}, P_res(), P_mjd("mjd", -2000000, 800000000), P_tod(), Param{"broken", 0, 3}};
    s.weight = 50;
    s.eval = [](const Args& a, Ctx& c) {
      const model::YMD d = model::mjd2ymd(a[4]);
      const i64 ms = a[5] / 1000;
      static const char* const mon[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
      char t[128];
      const long y = static_cast<long>(d.y < 0 ? -d.y : d.y);
      const long hh = ms / 3600000, mm = ms / 60000 % 60, us = ms % 60000;
      switch (a[2]) {
        case 0: snprintf(t, sizeof t, "%04ld-%02d-%02d", y, d.m, d.d); break;
        case 1: snprintf(t, sizeof t, "%04ld-%03d", y, d.d * 11); break;
        case 2: snprintf(t, sizeof t, "%04ld-%02d-%02d %02ld:%02ld:%ld.%03ld", y, d.m, d.d, hh, mm, us / 1000, us % 1000); break;
        case 3: snprintf(t, sizeof t, "%04ld-%s-%02d %02ld:%02ld:%ld.%03ld", y, mon[d.m - 1], d.d, hh, mm, us / 1000, us % 1000); break;
        case 4: snprintf(t, sizeof t, "%04ld-%03d %02ld:%02ld:%ld.%03ld", y, d.d * 11, hh, mm, us / 1000, us % 1000); break;
        default: snprintf(t, sizeof t, "%s", mon[d.m - 1]); break;
      }
      if (a[6] == 1) t[std::strlen(t) / 2] = '\0';
      if (a[6] == 2) t[std::strlen(t) * 2 / 3] = '#';
      if (a[6] == 3 && a[2] < 5) std::strcpy(t + 5, "99-99-99-99-99-99");
      inject(a[0], a[1] != 0, c, [&](Out& o) {
        std::memset(&o, 0, sizeof o);
        try {
          with_res(a[3], [&](auto g) {
            using S = typename decltype(g)::type;
            const datetime<S> x = mk<S>(a[4], a[5] / (1000000 / FAC[g.r]));
            auto txt = [&o](const std::string& z) { std::strncpy(o.s, z.c_str(), sizeof o.s - 1); };
            switch (a[2]) {
              case 0: calls::put(o, strptime_ymd<S>(t)); break;
              case 1: calls::put(o, strptime_ydoy<S>(t)); break;
              case 2: calls::put(o, strptime_ymd_hms<S>(t)); break;
              case 3: calls::put(o, strptime_yod_hms<S>(t)); break;
              case 4: calls::put(o, strptime_ydoy_hms<S>(t)); break;
              case 5: o.i(u(month(t))); break;
              case 6: txt(strftime_ymd_hms(x)); break;
              case 7: txt(strftime_ymd_hmfs(x)); break;
              case 8: txt(x.stringify()); break;
              default: o.i(u(cal2mjd(year(2015), month(static_cast<int>(ms % 15)), day_of_month(static_cast<int>(ms % 33))))); break;
            }
          });
        } catch (const std::bad_alloc&) { throw; }
        catch (const std::exception& e) { o.threw = 1; o.nv = o.nd = 0; std::strncpy(o.s, typeid(e).name(), sizeof o.s - 1); }
      });
      static const char* const names[] = {"strptime_ymd", "strptime_ydoy", "strptime_ymd_hms", "strptime_yod_hms", "strptime_ydoy_hms", "month", "strftime_ymd_hms", "strftime_ymd_hmfs", "stringify", "cal2mjd"};
      c.label(names[a[2]]);
    };
    s.enum_n = [](bool) { return static_cast<i64>(8) * 2 * 10 * 3 * 4 * 20; };
    s.enum_at = [](i64 i, i64* v) { v[0] = i % 8; i /= 8; v[1] = i % 2; i /= 2; v[2] = i % 10; i /= 10; v[3] = i % 3; i /= 3; v[6] = i % 4; i /= 4; v[4] = 50000 + i * 997; v[5] = i * 4320007001LL % model::DAYUS; };
    p.subs.push_back(s); }
  return p;
}
