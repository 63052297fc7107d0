// rapidcheck driver: random generation with integrated shrinking, exhaustive enumeration, replay, corpus.
#include <rapidcheck.h>
#include "engine.hpp"

using namespace pbt;
namespace {
std::vector<i64> dict;

i64 uniform(rc::Random& r, i64 lo, i64 hi) {
  const u64 span = static_cast<u64>(hi) - static_cast<u64>(lo);
  const u64 x = r.next();
  return static_cast<i64>(static_cast<u64>(lo) + (span == ~0ull ? x : static_cast<u64>((static_cast<unsigned __int128>(x) * (static_cast<unsigned __int128>(span) + 1)) >> 64)));
}
bool inr(const Param& p, i128 v) { return v >= p.lo && v <= p.hi; }

i64 gen_param(rc::Random& r, const Param& p) {
  const u64 span = static_cast<u64>(p.hi) - static_cast<u64>(p.lo);
  const int roll = static_cast<int>(uniform(r, 0, 99));
  if (!p.pts.empty() && roll < p.pts_pct) {
    i64 v = p.pts[static_cast<std::size_t>(uniform(r, 0, static_cast<i64>(p.pts.size()) - 1))];
    if (p.pts_pct <= 50) {
      const i64 k = uniform(r, 0, 9);
      i128 t = static_cast<i128>(v) + (k < 6 ? 0 : k == 6 ? 1 : k == 7 ? -1 : uniform(r, -3, 3));
      if (inr(p, t)) return static_cast<i64>(t);
    }
    if (inr(p, v)) return v;
  }
  if (span < 64) return uniform(r, p.lo, p.hi);
  const int style = static_cast<int>(uniform(r, 0, 99));
  if (style < 30) return uniform(r, p.lo, p.hi);
  if (style < 55) { // log-uniform distance from zero (or the nearer bound)
    const i64 anchor = p.lo > 0 ? p.lo : p.hi < 0 ? p.hi : 0;
    const u64 x = r.next();
    const i64 mag = static_cast<i64>((x >> 1) >> uniform(r, 0, 62));
    const i128 t = (x & 1) ? static_cast<i128>(anchor) + mag : static_cast<i128>(anchor) - mag;
    const i128 t2 = (x & 1) ? static_cast<i128>(anchor) - mag : static_cast<i128>(anchor) + mag;
    if (inr(p, t)) return static_cast<i64>(t);
    if (inr(p, t2)) return static_cast<i64>(t2);
    return uniform(r, p.lo, p.hi);
  }
  if (style < 75 && !dict.empty()) { // constants of the code under test, scaled and shifted
    static const i64 scale[] = {1, 1, 1, 1, 1000, 1000000, 86400, 86400000, 86400000000LL, 60, 3600, 60000000, 3600000000LL};
    for (int tries = 0; tries < 6; ++tries) {
      i128 t = dict[static_cast<std::size_t>(uniform(r, 0, static_cast<i64>(dict.size()) - 1))];
      t *= scale[uniform(r, 0, 12)];
      if (uniform(r, 0, 7) == 0) t = -t;
      const i64 k = uniform(r, 0, 7);
      t += k == 0 ? 1 : k == 1 ? -1 : 0;
      if (inr(p, t)) return static_cast<i64>(t);
    }
    return uniform(r, p.lo, p.hi);
  }
  if (style < 92) { // near a multiple
    static const i64 mult[] = {2, 4, 7, 10, 12, 24, 28, 60, 100, 365, 366, 400, 1000, 1440, 1461, 3600, 10000, 36524, 36525, 86400, 100000, 146097, 604800, 1000000, 60000000, 86400000, 86400000000LL};
    const i64 m = mult[uniform(r, 0, 26)];
    i64 v;
    if (uniform(r, 0, 1)) v = uniform(r, p.lo, p.hi);
    else { const i64 k = uniform(r, -40, 40); const i128 t = static_cast<i128>(k) * m; v = inr(p, t) ? static_cast<i64>(t) : uniform(r, p.lo, p.hi); }
    const i128 t = static_cast<i128>(v / m) * m + uniform(r, -1, 1);
    return inr(p, t) ? static_cast<i64>(t) : v;
  }
  const i64 d = uniform(r, 0, 3);
  return uniform(r, 0, 1) ? p.lo + d : p.hi - d;
}

Case gen_case(rc::Random r, const Sub& s) {
  Case c;
  for (auto& p : s.head) c.push_back(gen_param(r, p));
  if (!s.step.empty()) {
    const i64 k = uniform(r, 0, 9);
    i64 n = k < 3 ? uniform(r, 0, std::min(4, s.max_steps)) : k < 8 ? uniform(r, 0, std::min(24, s.max_steps)) : uniform(r, 0, s.max_steps);
    const i64 room = (kMaxLen - static_cast<i64>(c.size())) / static_cast<i64>(s.step.size());
    n = std::min(n, room);
    for (i64 i = 0; i < n; ++i)
      for (auto& p : s.step) c.push_back(gen_param(r, p));
  }
  return c;
}

// Smaller variants of a case: fewer steps, simpler values.
std::vector<Case> shrinks(const Case& c, const Sub& s) {
  std::vector<Case> out;
  const std::size_t nh = s.head.size(), w = s.step.size();
  if (w) {
    const std::size_t n = (c.size() - nh) / w;
    for (std::size_t len = n; len >= 1; len /= 2)
      for (std::size_t at = 0; at + len <= n; at += len) {
        Case d(c.begin(), c.begin() + static_cast<long>(nh + at * w));
        d.insert(d.end(), c.begin() + static_cast<long>(nh + (at + len) * w), c.end());
        out.push_back(d);
      }
  }
  for (std::size_t i = 0; i < c.size(); ++i) {
    const Param& p = i < nh ? s.head[i] : s.step[(i - nh) % w];
    const i64 target = p.lo > 0 ? p.lo : p.hi < 0 ? p.hi : 0;
    auto put = [&](i128 v) {
      if (v < p.lo || v > p.hi || v == c[i]) return;
      const i128 a = v - target, b = static_cast<i128>(c[i]) - target;
      const i128 aa = a < 0 ? -a : a, bb = b < 0 ? -b : b;
      if (aa > bb || (aa == bb && a < b)) return;
      Case d = c;
      d[i] = static_cast<i64>(v);
      out.push_back(d);
    };
    put(target);
    put(-static_cast<i128>(c[i]));
    for (i128 diff = (static_cast<i128>(c[i]) - target) / 2; diff != 0; diff /= 2) put(static_cast<i128>(c[i]) - diff);
    put(static_cast<i128>(c[i]) - (c[i] > target ? 1 : -1));
  }
  return out;
}
rc::Shrinkable<Case> tree(Case c, const Sub* s) {
  return rc::shrinkable::shrinkRecur(std::move(c), [s](const Case& x) { return rc::seq::fromContainer(shrinks(x, *s)); });
}

struct Quiet : rc::detail::TestListener {
  void onTestCaseFinished(const rc::detail::CaseDescription&) override {}
  void onShrinkTried(const rc::detail::CaseDescription&, bool) override {}
  void onTestFinished(const rc::detail::TestMetadata&, const rc::detail::TestResult&) override {}
};

const char* opt(int argc, char** argv, const char* name, const char* def) {
  for (int i = 2; i + 1 < argc; ++i) if (!strcmp(argv[i], name)) return argv[i + 1];
  return def;
}
} // namespace

int main(int argc, char** argv) {
  if (argc < 2) return 3;
  const std::string mode = argv[1];
  if (mode == "merge") { // distinct hashes over several files
    std::vector<u64> all;
    for (int i = 2; i < argc; ++i) {
      std::ifstream f(argv[i], std::ios::binary);
      u64 x;
      while (f.read(reinterpret_cast<char*>(&x), 8)) all.push_back(x);
    }
    std::sort(all.begin(), all.end());
    all.erase(std::unique(all.begin(), all.end()), all.end());
    std::size_t tagged = 0;
    for (u64 h : all) tagged += h & 1;
    printf("%zu %zu\n", all.size() - tagged, tagged);
    return 0;
  }
  Engine e;
  load_known(e.prop.id);
  open_shm(opt(argc, argv, "--shm", nullptr));
  shm()->len = -1;

  if (mode == "replay") {
    int si; Case c;
    if (argc < 3 || !e.read_case(argv[2], si, c)) { fprintf(stderr, "cannot read %s\n", argc < 3 ? "" : argv[2]); return 3; }
    if (!e.in_domain(si, c)) { printf("OUT-OF-DOMAIN\n"); return 4; }
    arm_watchdog();
    const bool ok = e.run(si, c.data(), c.size(), false, true);
    printf("%s %s\n", ok ? "HELD" : "FAILED", e.show(si, c).c_str());
    if (!ok) printf("reason: %s\n", e.fail_msg.c_str());
    return ok ? 0 : 77;
  }
  if (mode == "info") {
    for (auto& s : e.prop.subs) printf("%s %d %d\n", s.name, s.weight, s.enum_n ? 1 : 0);
    return 0;
  }
  if (mode == "shapes") {
    for (auto& s : e.prop.subs) printf("shape %s %zu %zu\n", s.name, s.head.size(), s.step.size());
    return 0;
  }
  if (mode != "gen") return 3;

  const u64 seed = strtoull(opt(argc, argv, "--seed", "1"), nullptr, 10);
  const i64 shard = atoll(opt(argc, argv, "--shard", "0")), nshards = atoll(opt(argc, argv, "--nshards", "1"));
  const i64 cases = atoll(opt(argc, argv, "--cases", "1000"));
  const bool thorough = !strcmp(opt(argc, argv, "--tier", "quick"), "thorough");
  const std::string only = opt(argc, argv, "--only", "");
  const char* corpus = opt(argc, argv, "--corpus", nullptr);
  const i64 ncorpus = atoll(opt(argc, argv, "--ncorpus", "0"));
  if (const char* d = getenv("PBT_DICT")) { std::ifstream f(d); i64 x; while (f >> x) dict.push_back(x); }
  const std::string fail_file = opt(argc, argv, "--fail", "");
  auto finish = [&](int rcode) {
    e.write_stats(opt(argc, argv, "--stats", "/dev/null"), opt(argc, argv, "--hashes", ""));
    if (rcode == 77) {
      e.write_case(fail_file, e.fail_sub, e.fail_case, e.fail_msg);
      printf("FAILED %s\nreason: %s\n", e.show(e.fail_sub, e.fail_case).c_str(), e.fail_msg.c_str());
    }
    fflush(nullptr);
    shm()->len = -1;
    _exit(rcode);
  };

  if (corpus) { // seeds for the fuzzer
    for (std::size_t si = 0; si < e.prop.subs.size(); ++si) {
      rc::Random r(seed * 1000003 + si);
      for (i64 k = 0; k < ncorpus; ++k) {
        const Case c = gen_case(r.split(), e.prop.subs[si]);
        if (c.size() > 600) continue;
        const std::string b = encode_case(e.prop, static_cast<int>(si), c);
        std::ofstream f(std::string(corpus) + "/" + e.prop.subs[si].name + "-" + std::to_string(k), std::ios::binary);
        f.write(b.data(), static_cast<std::streamsize>(b.size()));
      }
    }
    return 0;
  }

  arm_watchdog();
  int wsum = 0;
  for (auto& s : e.prop.subs) wsum += s.weight;
  Quiet listener;
  // enumerations first: complete and cheap
  for (std::size_t si = 0; si < e.prop.subs.size(); ++si) {
    Sub& s = e.prop.subs[si];
    if (!s.enum_n || (!only.empty() && only != s.name)) continue;
    const i64 n = s.enum_n(thorough);
    const i64 a = static_cast<i64>(static_cast<i128>(n) * shard / nshards), b = static_cast<i64>(static_cast<i128>(n) * (shard + 1) / nshards);
    Case c(s.head.size());
    for (i64 i = a; i < b; ++i) {
      s.enum_at(i, c.data());
      if (!e.run(static_cast<int>(si), c.data(), c.size(), true)) {
        // shrink by the same candidates the generator uses
        Case cur = e.fail_case;
        bool again = true;
        for (int rounds = 0; again && rounds < 200; ++rounds) {
          again = false;
          for (auto& d : shrinks(cur, s)) if (!e.run(static_cast<int>(si), d.data(), d.size(), false)) { cur = d; again = true; break; }
        }
        e.fail_case = cur;
        e.run(static_cast<int>(si), cur.data(), cur.size(), false);
        finish(77);
      }
    }
  }
  for (std::size_t si = 0; si < e.prop.subs.size(); ++si) {
    Sub& s = e.prop.subs[si];
    if (!only.empty() && only != s.name) continue;
    if (s.weight <= 0) continue;
    rc::detail::TestParams params;
    params.seed = mix(seed * 7919 + static_cast<u64>(shard) * 104729 + si);
    params.maxSuccess = static_cast<int>(only.empty() ? cases * s.weight / wsum : cases);
    params.maxSize = 100;
    rc::detail::TestMetadata meta;
    meta.id = s.name;
    const Sub* sp = &s;
    const rc::Gen<Case> gen([sp](const rc::Random& r, int) { return tree(gen_case(r, *sp), sp); });
    bool failed = false;
    const int sidx = static_cast<int>(si);
    // rapidcheck stores each shrunk counterexample; the last failing evaluation is the minimal one
    const auto prop = rc::detail::toProperty([&] {
      const Case c = *gen;
      if (!e.run(sidx, c.data(), c.size(), false)) { failed = true; RC_FAIL("failed"); }
    });
    rc::detail::checkProperty(prop, meta, params, listener);
    if (failed) {
      e.run(sidx, Case(e.fail_case).data(), e.fail_case.size(), false);
      finish(77);
    }
  }
  finish(0);
}
