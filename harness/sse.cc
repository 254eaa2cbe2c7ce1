// P03: SSE object versus non-SSE object, same calls
#include "lib.h"
extern "C" void vp_main()
{
  Cfg c = cfg(); const long T = vp_cfg ("len", 40), U = vp_cfg ("post", 30), N = outN (c, T + U);
  Cfg d = c; c.sse = 1; d.sse = 0;
  float *a = buf ("sse", N), *b = buf ("fpu", N); R2 *r = mk (c), *q = mk (d);
  long s = vp_concrete (vp_int ("s", vp_cfg ("slo", 0), vp_cfg ("shi", T))), l = vp_concrete (vp_int ("extra", 0, vp_cfg ("extra", 1)));
  long cut[4] = {0, s, s + (T - s) / 2 * l, T + U};
  for (int i = 0; i < 3; i++) { call (r, c, 0, inN (c, cut[i]), cut[i + 1] - cut[i], a + outN (c, cut[i])); call (q, d, 0, inN (c, cut[i]), cut[i + 1] - cut[i], b + outN (c, cut[i])); }
  for (long i = 0; i < N; i++) vp_close (a[i], b[i], 1e-4, "sse", i);
  vp_assert (r->delay() == q->delay() && r->order() == q->order(), "same-delay-order", 0);
  vp_reach ("end");
}
