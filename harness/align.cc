// P04: input and output at every float-aligned address
#include "lib.h"
extern "C" void vp_main()
{
  Cfg c = cfg(); const long T = vp_cfg ("len", 20), A = vp_cfg ("amax", 15), N = outN (c, 2 * T);
  float *a = buf ("ref", N), *b = buf ("got", N); R2 *r = mk (c), *q = mk (c);
  call (r, c, 0, 0, T, a); call (r, c, 0, inN (c, T), T, a + outN (c, T));
  long ia = vp_concrete (vp_int ("in_align", 0, A)), oa = vp_concrete (vp_int ("out_align", 0, A));
  call (q, c, 0, 0, T, b, ia * 4, oa * 4); call (q, c, 0, inN (c, T), T, b + outN (c, T), (oa * 4 + 4) & 63, (ia * 4 + 8) & 63);
  for (long i = 0; i < N; i++) vp_close (a[i], b[i], 1e-4, "align", i);
  vp_reach ("end");
}
