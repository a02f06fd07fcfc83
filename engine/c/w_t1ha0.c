/* calls t1ha0() the way a user's translation unit does */
#include "t1ha.h"

#ifndef T1HA0_DISABLED
uint64_t w_t1ha0(const void *data, size_t len, uint64_t seed);
uint64_t w_t1ha0(const void *data, size_t len, uint64_t seed) {
  return t1ha0(data, len, seed);
}
#if T1HA0_RUNTIME_SELECT
uint64_t w_resolve(const void *data, size_t len, uint64_t seed);
uint64_t w_resolve(const void *data, size_t len, uint64_t seed) {
  return t1ha0_resolve()(data, len, seed);
}
#endif
#endif

int w_check(void);
int w_check(void) { return t1ha_selfcheck__all_enabled(); }
