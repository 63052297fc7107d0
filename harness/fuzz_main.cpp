// libFuzzer driver: same sub-checks and oracles, coverage-guided.
#include "engine.hpp"
using namespace pbt;
namespace {
Engine* g;
void dump() {
  if (!g) return;
  const char* s = getenv("PBT_STATS");
  const char* h = getenv("PBT_HASHES");
  if (s) g->write_stats(s, h ? h : "");
  g = nullptr;
}
}
extern "C" int LLVMFuzzerInitialize(int*, char***) {
  g = new Engine;
  load_known(g->prop.id);
  open_shm(getenv("PBT_SHM"));
  shm()->len = -1;
  if (const char* r = getenv("PBT_REPLAY")) {
    int si; Case c;
    if (!g->read_case(r, si, c)) _exit(3);
    if (!g->in_domain(si, c)) { printf("OUT-OF-DOMAIN\n"); _exit(4); }
    arm_watchdog();
    const bool ok = g->run(si, c.data(), c.size(), false, true);
    printf("%s %s\n", ok ? "HELD" : "FAILED", g->show(si, c).c_str());
    if (!ok) printf("reason: %s\n", g->fail_msg.c_str());
    fflush(nullptr);
    _exit(ok ? 0 : 77);
  }
  arm_watchdog();
  atexit(dump);
  return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const unsigned char* d, std::size_t n) {
  static Case c;
  int si;
  if (!g) return 0;
  decode_case(g->prop, d, n, si, c);
  if (!g->run(si, c.data(), c.size(), false)) {
    const char* f = getenv("PBT_FAIL");
    g->write_case(f ? f : "/dev/stderr", g->fail_sub, g->fail_case, g->fail_msg);
    printf("FAILED %s\nreason: %s\n", g->show(si, c).c_str(), g->fail_msg.c_str());
    dump();
    fflush(nullptr);
    _exit(77);
  }
  shm()->len = -1;
  return 0;
}
