/* memory that nobody may touch, before the library's variables (address sanitizer build only) */
#ifdef __SANITIZE_ADDRESS__
#include <sanitizer/asan_interface.h>
static char guard_lo[1 << 20] __attribute__((used, aligned(32)));
__attribute__((constructor)) static void poison_lo(void) { __asan_poison_memory_region(guard_lo, sizeof guard_lo); }
#endif
