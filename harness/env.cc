// P26: the floating point control register, errno and the program's rand() sequence are left alone, whatever they were
#include "lib.h"
#include <xmmintrin.h>
#include <errno.h>
#include <stdlib.h>
static unsigned g_csr; static int g_next;
static void prepare() { _mm_setcsr (g_csr); errno = 77; srand (7); }
static void check (const char *where)
{
  int e = errno; unsigned csr = _mm_getcsr(); 
  vp_assert ((csr & ~0x3fu) == g_csr, where, 1); vp_assert (e == 77, where, 2); vp_assert (rand() == g_next, where, 3);
  prepare();
}
extern "C" void vp_main()
{
  Cfg c = cfg(); const unsigned csr[] = {0x1f80, 0x9fc0, 0x3f80, 0x7f80, 0x5f80};         // default, denormals off, the other rounding modes
  g_csr = csr[vp_concrete (vp_int ("mode", 0, 4))]; srand (7); g_next = rand(); const unsigned csr0 = _mm_getcsr();
  const long n = vp_concrete (vp_int ("n", vp_cfg ("lo", 0), vp_cfg ("hi", 9))), M = vp_cfg ("hi", 9);
  float *in = buf ("in", inN (c, M + 5)), *o = buf ("o", outN (c, M + 5)); vp_fill (in, inN (c, M + 5), 0, 0);
  prepare(); R2 *r = mk (c); check ("constructor");
  r->process_block (in, inN (c, n), o); check ("process");
  r->process_block (in, inN (c, 5), o); check ("second-process");
  r->reset(); check ("reset");
  volatile double d = r->delay() + r->order() + r->sse_enabled() + (R2::precision_name (R2::Precision (c.prec)) != 0) + R2::find_precision_for_bits (c.prec); (void) d; check ("accessors");
  r->process_block (in, inN (c, n), o); check ("third-process");
  delete r; check ("destructor"); _mm_setcsr (csr0); vp_reach ("end");
}
