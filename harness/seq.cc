// P01: K calls of arbitrary sizes 0..m each, then one tail call, versus a single call for everything
#include "lib.h"
extern "C" void vp_main()
{
  Cfg c = cfg(); const long K = vp_cfg ("calls", 4), m = vp_cfg ("max", 3), U = vp_cfg ("post", 6), T = K * m + U, N = outN (c, T);
  float *a = buf ("ref", N), *b = buf ("got", N);
  R2 *r = mk (c), *q = mk (c);
  call (r, c, 0, 0, T, a);
  static const char *nm[] = {"n0", "n1", "n2", "n3", "n4", "n5", "n6", "n7"}; long p = 0;
  for (long k = 0; k < K; k++) { long n = vp_concrete (vp_int (nm[k], 0, m)); call (q, c, 0, inN (c, p), n, b + outN (c, p)); p += n; }
  call (q, c, 0, inN (c, p), T - p, b + outN (c, p));
  for (long i = 0; i < N; i++) vp_close (a[i], b[i], 1e-4, "seq", i);
  vp_reach ("end");
}
