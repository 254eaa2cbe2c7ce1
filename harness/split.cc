// P01: pre | s | T-s | post   versus   pre | chunks of `ref` | post  (same stream)
#include "lib.h"
extern "C" void vp_main()
{
  Cfg c = cfg(); long P = vp_cfg ("pre", 8), T = vp_cfg ("len", 16), U = vp_cfg ("post", 8), lo = vp_cfg ("slo", 0), hi = vp_cfg ("shi", T), ref = vp_cfg ("ref", 0);
  long N = outN (c, P + T + U); if (!ref) ref = T;
  float *a = buf ("ref", N), *b = buf ("got", N);
  R2 *r = mk (c), *q = mk (c);
  call (r, c, 0, 0, P, a);
  for (long i = P; i < P + T; i += ref) { long k = ref < P + T - i ? ref : P + T - i; call (r, c, 0, inN (c, i), k, a + outN (c, i)); }
  call (r, c, 0, inN (c, P + T), U, a + outN (c, P + T));
  call (q, c, 0, 0, P, b);
  long s = vp_concrete (vp_int ("split", lo, hi));
  call (q, c, 0, inN (c, P), s, b + outN (c, P));
  call (q, c, 0, inN (c, P + s), T - s, b + outN (c, P + s));
  call (q, c, 0, inN (c, P + T), U, b + outN (c, P + T));
  for (long i = 0; i < N; i++) vp_close (a[i], b[i], 1e-4, "split", i);
  vp_reach ("end");
}
