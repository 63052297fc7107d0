// C24: every supported build configuration gives the same answers
#include <dlfcn.h>
#include <unistd.h>
#include <cstdlib>
#include <fstream>
#include <sstream>
#include "../calls.hpp"
using namespace lib;
using calls::Out;
namespace {
typedef void (*Fn)(int, int, int, const long*, int, void*);
struct Conf { std::string name; bool checks; Fn f; };
const std::vector<Conf>& confs() {
  static const std::vector<Conf> v = [] {
    std::vector<Conf> r;
    r.push_back(Conf{" of the harness", false, [](int fn, int res, int other, const long* a, int nonneg, void* o) {
      i64 b[calls::NA];
      for (int i = 0; i < calls::NA; ++i) b[i] = a[i];
      calls::call(fn, res, other, b, nonneg != 0, *static_cast<Out*>(o));
    }});
    char self[4096];
    const ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1);
    std::string dir(self, n > 0 ? static_cast<std::size_t>(n) : 0);
    dir.erase(dir.rfind('/') + 1);
    std::ifstream f(dir + "configs");
    std::string line;
    while (std::getline(f, line)) {
      std::istringstream is(line);
      std::string so, name;
      int checks;
      is >> so >> checks;
      std::getline(is, name);
      void* h = dlopen((dir + so).c_str(), RTLD_NOW | RTLD_LOCAL);
      if (!h) { fprintf(stderr, "%s\n", dlerror()); _exit(3); }
      r.push_back(Conf{name, checks != 0, reinterpret_cast<Fn>(dlsym(h, "pbt_call"))});
      if (!r.back().f) _exit(3);
    }
    if (r.size() < 4) { fprintf(stderr, "no build configurations in %s\n", dir.c_str()); _exit(3); }
    return r;
  }();
  return v;
}
Prop& subs(Prop& p) {
  for (int nonneg = 0; nonneg < 2; ++nonneg) {
    Sub s;
    s.name = nonneg ? "all_builds" : "unchecked_builds"; s.rule = "any call";
    s.head = {Param{"fn", 0, calls::NF - 1}, P_res("res"), P_res("other")};
    for (auto& q : calls::P_args()) s.head.push_back(q);
    s.weight = 50;
    s.eval = [nonneg](const Args& a, Ctx& c) {
      long v[calls::NA];
      for (int i = 0; i < calls::NA; ++i) v[i] = a[3 + i];
      Out ref, o;
      const Conf* first = nullptr;
      for (const Conf& k : confs()) {
        if (k.checks && !nonneg) continue;
        if (c.verbose) { printf("calling function %lld in the build%s\n", static_cast<long long>(a[0]), k.name.c_str()); fflush(stdout); }
        k.f(static_cast<int>(a[0]), static_cast<int>(a[1]), static_cast<int>(a[2]), v, nonneg, first ? &o : &ref);
        if (!first) { first = &k; continue; }
        const std::string d = calls::differ(ref, o, 4, true);
        REQ(d.empty(), "function %lld in the builds%s and%s: %s", static_cast<long long>(a[0]), first->name.c_str(), k.name.c_str(), d.c_str());
      }
      c.nontrivial();
      static const char* const names[calls::NF] = {"cal2mjd", "to_ymd/ydoy", "ydoy2mjd", "ymd<->ydoy", "dat", "predicates", "construct", "arithmetic", "differences", "comparison", "unit conversion", "split/compose",
        "read a fixed text", "read a well-formed text", "write", "month names", "intervals", "GPS week", "fundamental types", "spellings"};
      c.label(names[a[0]]);
      c.label_if(ref.threw != 0, "throws");
    };
    p.subs.push_back(s);
  }
  return p;
}
}
Prop pbt::make_prop() {
  Prop p{"C24", {}};
  return subs(p);
}
