// One build configuration of the library and the call table, loaded by the C24 harness.
#include "calls.hpp"
extern "C" __attribute__((visibility("default"))) void pbt_call(int fn, int res, int other, const long* a, int nonneg, void* out) {
  pbt::i64 b[calls::NA];
  for (int i = 0; i < calls::NA; ++i) b[i] = a[i];
  calls::call(fn, res, other, b, nonneg != 0, *static_cast<calls::Out*>(out));
}
