// P19: an odd block length given to a factor-2 FIR downsampler
#include "lib.h"
extern "C" void vp_main()
{
  Cfg c = cfg(); c.up = 0; c.iir = 0; c.ratio = 2; const long P = vp_cfg ("pre", 5), U = vp_cfg ("post", 40); float *a = buf ("ref", U + P), *b = buf ("got", U + P), *keep = buf ("keep", vp_cfg ("hi", 12) * 2 + 2);
  R2 *r = mk (c), *q = mk (c); call (r, c, 0, 0, P, a); call (r, c, 0, 2 * P, U, a + P);
  call (q, c, 0, 0, P, b);
  for (int t = 0; t < 2; t++)
    { // more than one such call: each is refused in the same way
      long k = vp_concrete (t ? vp_int ("half2", 0, 1) : vp_int ("half", vp_cfg ("lo", 0), vp_cfg ("hi", 12))), n = 2 * k + 1; float *in = buf ("in", n), *o = buf ("out", n); vp_fill (in, n, 1, 0); vp_fill (o, n, 2, 0); vp_readonly (in, 1);
      long i0 = vp_io_count(); q->process_block (in, n, o); vp_assert (vp_io_count() > i0, "diagnostic", n);
      for (long i = 0; i < n; i++) vp_same (o[i], vp_lit (2, i), "untouched", i);
    }
  call (q, c, 0, 2 * P, U, b + P);
  for (long i = 0; i < U + P; i++) vp_same (a[i], b[i], "as-if-not-called", i);
  vp_reach ("end");
}
