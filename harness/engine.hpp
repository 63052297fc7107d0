// Shared by the rapidcheck and libFuzzer drivers: evaluation, statistics, replay files.
#pragma once
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include "core.hpp"

namespace pbt {
using Case = std::vector<i64>;
constexpr int kMaxLen = 4000;

// Recorded before every evaluation, so that a dying process leaves its case behind.
struct Shm {
  volatile u64 evals;
  volatile u64 nontriv;
  volatile u64 random_evals;
  volatile int sub;
  volatile int len;
  i64 v[kMaxLen];
};

inline Shm*& shm() { static Shm* p = nullptr; return p; }
inline std::set<std::string>& known_keys() { static std::set<std::string> s; return s; }

struct SubStat {
  u64 evals = 0, nontriv = 0, enumerated = 0, enum_nontriv = 0, skipped = 0;
  u64 distinct_sample_key = ~0ull;
  std::map<std::string, u64> labels;
  std::vector<std::pair<u64, Case>> samples;
};

inline u64 mix(u64 x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }

// bounded set of hashes of non-trivial cases
struct HashSet {
  static constexpr u64 kSlots = 1u << 22, kMax = 1500000;
  std::vector<u64> t;
  u64 n = 0;
  void add(u64 h) {
    if (t.empty()) t.assign(kSlots, 0);
    if (n >= kMax) return;
    if (h < 2) h += 2;
    u64 i = h & (kSlots - 1);
    while (t[i]) { if (t[i] == h) return; i = (i + 1) & (kSlots - 1); }
    t[i] = h; ++n;
  }
};

class Engine {
public:
  Prop prop = make_prop();
  std::vector<SubStat> st{std::vector<SubStat>(prop.subs.size())};
  HashSet hashes;
  std::string fail_file, fail_msg;
  int fail_sub = -1;
  Case fail_case;
  bool quiet_stats = false;

  int find(const std::string& n) const {
    for (std::size_t i = 0; i < prop.subs.size(); ++i) if (n == prop.subs[i].name) return static_cast<int>(i);
    return -1;
  }

  bool in_domain(int si, const Case& c) const {
    const Sub& s = prop.subs[si];
    const std::size_t nh = s.head.size(), w = s.step.size();
    if (c.size() < nh || c.size() > static_cast<std::size_t>(kMaxLen)) return false;
    if (w ? (c.size() - nh) % w : c.size() != nh) return false;
    if (w && static_cast<int>((c.size() - nh) / w) > s.max_steps) return false;
    for (std::size_t i = 0; i < c.size(); ++i) {
      const Param& p = i < nh ? s.head[i] : s.step[(i - nh) % w];
      if (c[i] < p.lo || c[i] > p.hi) return false;
    }
    return true;
  }

  // Evaluates one case; true if the property held.
  bool run(int si, const i64* v, std::size_t n, bool enumerated, bool verbose = false) {
    const Sub& s = prop.subs[si];
    SubStat& t = st[si];
    Shm* m = shm();
    m->sub = si;
    m->len = static_cast<int>(n);
    if (n) std::memcpy(m->v, v, n * sizeof(i64));
    m->evals = m->evals + 1;
    const std::size_t nh = s.head.size(), w = s.step.size();
    Args a{v, v + nh, w ? static_cast<int>((n - nh) / w) : 0, static_cast<int>(w)};
    Ctx c;
    c.verbose = verbose;
    bool ok = true;
    std::string msg;
    try { s.eval(a, c); }
    catch (const Fail& f) { ok = false; msg = f.msg; }
    catch (const Skip&) { ++t.skipped; ++t.evals; return true; }
    catch (const std::exception& e) { ok = false; msg = std::string("unexpected exception: ") + e.what(); }
    catch (...) { ok = false; msg = "unexpected exception of unknown type"; }
    ++t.evals;
    if (enumerated) ++t.enumerated;
    for (int i = 0; i < c.nlabels; ++i) ++t.labels[c.labels[i]];
    if (c.nontriv) {
      ++t.nontriv;
      m->nontriv = m->nontriv + 1;
      if (enumerated) ++t.enum_nontriv;
      u64 h = mix(static_cast<u64>(si) + 77);
      for (std::size_t i = 0; i < n; ++i) h = mix(h ^ static_cast<u64>(v[i]));
      if (!enumerated) hashes.add((h & ~1ull) | (s.enum_n ? 1 : 0));   // tagged: the sub-check also enumerates
      // keep the samples with the smallest hashes: an unbiased pick
      if (t.samples.size() < 3 || h < t.samples.back().first) {
        bool dup = false;
        for (auto& q : t.samples) dup = dup || q.first == h;
        if (!dup) {
          t.samples.emplace_back(h, Case(v, v + n));
          std::sort(t.samples.begin(), t.samples.end());
          if (t.samples.size() > 3) t.samples.pop_back();
        }
      }
    }
    if (!ok) { fail_sub = si; fail_case.assign(v, v + n); fail_msg = msg; }
    return ok;
  }

  std::string show(int si, const Case& c) const {
    const Sub& s = prop.subs[si];
    std::ostringstream o;
    o << s.name << ":";
    const std::size_t nh = s.head.size(), w = s.step.size();
    for (std::size_t i = 0; i < c.size(); ++i) {
      if (i < nh) o << " " << s.head[i].name << "=" << c[i];
      else {
        if ((i - nh) % w == 0) o << " [";
        o << (w > 1 ? s.step[(i - nh) % w].name : "") << (w > 1 ? "=" : "") << c[i] << ((i - nh) % w == w - 1 ? "]" : ",");
      }
    }
    return o.str();
  }

  static std::string jstr(const std::string& x) {
    std::string o = "\"";
    for (unsigned char ch : x) {
      char b[8];
      if (ch == '"' || ch == '\\') { o += '\\'; o += static_cast<char>(ch); }
      else if (ch < 32 || ch > 126) { snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
      else o += static_cast<char>(ch);
    }
    return o + "\"";
  }

  void write_case(const std::string& path, int si, const Case& c, const std::string& msg) const {
    std::ofstream f(path);
    f << "property " << prop.id << "\nmode case\nsub " << prop.subs[si].name << "\nv";
    for (i64 x : c) f << " " << x;
    f << "\n# " << show(si, c) << "\n# ";
    for (char ch : msg) f << (static_cast<unsigned char>(ch) < 32 ? '?' : ch);
    f << "\n";
  }

  bool read_case(const std::string& path, int& si, Case& c) const {
    std::ifstream f(path);
    std::string line;
    si = -1;
    while (std::getline(f, line)) {
      std::istringstream is(line);
      std::string k;
      is >> k;
      if (k == "sub") { std::string n; is >> n; si = find(n); }
      else if (k == "v") { i64 x; c.clear(); while (is >> x) c.push_back(x); }
    }
    return si >= 0;
  }

  void write_stats(const std::string& path, const std::string& hash_path) {
    std::ofstream f(path + ".tmp");
    f << "{\"property\":" << jstr(prop.id) << ",\"subs\":{";
    for (std::size_t i = 0; i < st.size(); ++i) {
      const SubStat& t = st[i];
      f << (i ? "," : "") << jstr(prop.subs[i].name) << ":{\"rule\":" << jstr(prop.subs[i].rule) << ",\"evaluations\":" << t.evals
        << ",\"nontrivial\":" << t.nontriv << ",\"enumerated\":" << t.enumerated << ",\"enum_nontrivial\":" << t.enum_nontriv
        << ",\"skipped\":" << t.skipped << ",\"labels\":{";
      bool first = true;
      for (auto& l : t.labels) { f << (first ? "" : ",") << jstr(l.first) << ":" << l.second; first = false; }
      f << "},\"samples\":[";
      for (std::size_t k = 0; k < t.samples.size(); ++k) f << (k ? "," : "") << jstr(show(static_cast<int>(i), t.samples[k].second));
      f << "]}";
    }
    f << "}}\n";
    f.close();
    rename((path + ".tmp").c_str(), path.c_str());
    if (!hash_path.empty()) {
      std::vector<u64> v;
      for (u64 h : hashes.t) if (h) v.push_back(h);
      std::sort(v.begin(), v.end());
      std::ofstream g(hash_path, std::ios::binary);
      g.write(reinterpret_cast<const char*>(v.data()), static_cast<std::streamsize>(v.size() * 8));
    }
  }
};

void Ctx::finding(const char* key, const char* what) {
  if (!known_keys().count(key)) failf("%s (finding %s is not listed as known)", what, key);
  label(key);
}

inline void open_shm(const char* path) {
  static Shm local;
  if (!path) { shm() = &local; return; }
  int fd = open(path, O_RDWR | O_CREAT | O_TRUNC, 0644);
  if (fd < 0 || ftruncate(fd, sizeof(Shm)) != 0) { perror("shm"); _exit(3); }
  void* p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  if (p == MAP_FAILED) { perror("mmap"); _exit(3); }
  close(fd);
  shm() = static_cast<Shm*>(p);
}

// A single evaluation that uses more than `limit` seconds of CPU time is a hang.
inline void hang_tick(int) {
  static u64 last = ~0ull;
  static int ticks = 0;
  Shm* m = shm();
  if (!m) return;
  if (m->evals != last) { last = m->evals; ticks = 0; return; }
  if (++ticks >= 20 && m->len >= 0) {
    const char msg[] = "HANG: one evaluation has used 20 s of CPU time\n";
    (void)!write(2, msg, sizeof msg - 1);
    _exit(78);
  }
}
inline void arm_watchdog() {
  struct sigaction sa;
  std::memset(&sa, 0, sizeof sa);
  sa.sa_handler = hang_tick;
  sa.sa_flags = SA_RESTART;
  sigaction(SIGPROF, &sa, nullptr);
  itimerval it{{1, 0}, {1, 0}};
  setitimer(ITIMER_PROF, &it, nullptr);
}

inline void load_known(const char* id) {
  const char* p = getenv("PBT_KNOWN");
  if (!p) return;
  // lines "known: property=<id> key=<key> <text>"
  std::ifstream f(p);
  std::string line;
  while (std::getline(f, line)) {
    std::istringstream is(line);
    std::string a, b, c;
    is >> a >> b >> c;
    if (a == "known:" && b == std::string("property=") + id && c.rfind("key=", 0) == 0) known_keys().insert(c.substr(4));
  }
}

// ---- bytes <-> cases (libFuzzer) ----
inline int width_of(const Param& p) {
  const u64 span = static_cast<u64>(p.hi) - static_cast<u64>(p.lo);
  return span < 256 ? 1 : span < 65536 ? 2 : span < (1ull << 32) ? 4 : 8;
}
inline i64 decode_param(const Param& p, const unsigned char*& d, std::size_t& n) {
  const int w = width_of(p);
  u64 raw = 0;
  for (int i = 0; i < w; ++i) {
    if (n) { raw |= static_cast<u64>(*d) << (8 * i); ++d; --n; }
  }
  // the raw value itself (signed or unsigned) when in range, so that constants seen in comparisons can be inserted
  const i64 sv = w == 8 ? static_cast<i64>(raw) : w == 4 ? static_cast<std::int32_t>(raw) : w == 2 ? static_cast<std::int16_t>(raw) : static_cast<std::int8_t>(raw);
  if (sv >= p.lo && sv <= p.hi) return sv;
  if (raw <= static_cast<u64>(INT64_MAX) && static_cast<i64>(raw) >= p.lo && static_cast<i64>(raw) <= p.hi) return static_cast<i64>(raw);
  const u64 span = static_cast<u64>(p.hi) - static_cast<u64>(p.lo);
  return static_cast<i64>(static_cast<u64>(p.lo) + (span == ~0ull ? raw : raw % (span + 1)));
}
inline void encode_param(const Param& p, i64 v, std::string& out) {
  const int w = width_of(p);
  u64 raw = static_cast<u64>(v);
  // does the plain encoding decode to v?
  for (int pass = 0; pass < 2; ++pass) {
    std::string b;
    for (int i = 0; i < w; ++i) b += static_cast<char>((raw >> (8 * i)) & 255);
    const unsigned char* d = reinterpret_cast<const unsigned char*>(b.data());
    std::size_t n = b.size();
    if (pass == 1 || decode_param(p, d, n) == v) { out += b; return; }
    raw = static_cast<u64>(v) - static_cast<u64>(p.lo);
  }
}
inline void decode_case(const Prop& pr, const unsigned char* d, std::size_t n, int& si, Case& c) {
  si = 0;
  if (pr.subs.size() > 1 && n) { si = *d % static_cast<int>(pr.subs.size()); ++d; --n; }
  const Sub& s = pr.subs[si];
  c.clear();
  for (auto& p : s.head) c.push_back(decode_param(p, d, n));
  if (!s.step.empty())
    for (int k = 0; n && k < s.max_steps; ++k)
      for (auto& p : s.step) c.push_back(decode_param(p, d, n));
}
inline std::string encode_case(const Prop& pr, int si, const Case& c) {
  std::string o;
  if (pr.subs.size() > 1) o += static_cast<char>(si);
  const Sub& s = pr.subs[si];
  const std::size_t nh = s.head.size(), w = s.step.size();
  for (std::size_t i = 0; i < c.size(); ++i) encode_param(i < nh ? s.head[i] : s.step[(i - nh) % w], c[i], o);
  return o;
}
} // namespace pbt
