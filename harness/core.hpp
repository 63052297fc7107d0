// Property-based testing core: cases, sub-checks, oracle helpers.
// A case is a flat vector of int64: head parameters followed by steps of equal width.
// Property files include only this header, model.hpp and the library's public headers.
#pragma once
#include <cstdint>
#include <cstdarg>
#include <cstdio>
#include <functional>
#include <string>
#include <vector>

namespace pbt {
using i64 = std::int64_t;
using u64 = std::uint64_t;
__extension__ typedef __int128 i128;

struct Param {
  const char* name;
  i64 lo, hi;
  std::vector<i64> pts{};   // interesting values
  int pts_pct = 20;         // how often to draw from pts
};

struct Args {
  const i64* h;     // head parameters
  const i64* s;     // steps
  int nsteps, width;
  i64 operator[](int i) const { return h[i]; }
  i64 step(int i, int j) const { return s[static_cast<long>(i) * width + j]; }
};

// Thrown by the oracle; deliberately not a std::exception.
struct Fail { std::string msg; };
struct Skip {};

struct Ctx {
  bool nontriv = false;
  const char* labels[16];
  int nlabels = 0;
  bool verbose = false;       // replay: print what happens
  void nontrivial(bool b = true) { nontriv = nontriv || b; }
  void label(const char* l) { if (nlabels < 16) labels[nlabels++] = l; }
  void label_if(bool b, const char* l) { if (b) label(l); }
  // A defect listed in known_findings.txt under `key`; any other key fails.
  void finding(const char* key, const char* what);
};

[[noreturn]] inline void failf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] inline void failf(const char* fmt, ...) {
  char buf[1024];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  throw Fail{buf};
}
#define REQ(cond, ...) do { if (!(cond)) ::pbt::failf(__VA_ARGS__); } while (0)
// exact equality of integers, with both values printed
#define EQ(got, want, what) do { const auto g_ = static_cast<long long>(got); const auto w_ = static_cast<long long>(want); \
    if (g_ != w_) ::pbt::failf("%s: got %lld, want %lld", (what), g_, w_); } while (0)

struct Sub {
  const char* name;
  const char* rule;                      // what a non-trivial case is
  std::vector<Param> head;
  std::vector<Param> step;
  int max_steps = 0;
  int weight = 10;                       // share of the generated cases
  std::function<void(const Args&, Ctx&)> eval;
  // optional finite space, enumerated completely (head parameters only)
  std::function<i64(bool thorough)> enum_n{};
  std::function<void(i64 idx, i64* out)> enum_at{};
};

struct Prop {
  const char* id;
  std::vector<Sub> subs;
};

Prop make_prop();   // defined by each property file
} // namespace pbt
