/* memcpy for memory-safety units: validity of both ranges is checked, the
   destination's content is left unspecified (never read back by the code under
   such a unit other than through havocked state). */
#ifdef __CPROVER
#include <stddef.h>
static void *vp_memcpy(void *d, const void *s, size_t n)
{
    __CPROVER_assert(n == 0 || __CPROVER_r_ok(s, n), "CHECK: memcpy source range");
    __CPROVER_assert(n == 0 || __CPROVER_w_ok(d, n), "CHECK: memcpy destination range");
    return d;
}
#define memcpy vp_memcpy
#endif
