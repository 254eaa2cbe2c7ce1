// P07: any history (stream 1: any float value, NaN and infinity included), reset(), then like new
#include "lib.h"
extern "C" void vp_main()
{
  vp_wild (1);
  Cfg c = cfg(); const long H = vp_cfg ("hist", 40), T = vp_cfg ("len", 30), N = outN (c, T);
  float *a = buf ("ref", N), *b = buf ("got", N), *t = buf ("t", outN (c, 2 * H + 60));
  R2 *r = mk (c), *q = mk (c); double d = r->delay(); unsigned o = r->order(); bool s = r->sse_enabled();
  long f = vp_cfg ("f", 3); call (r, c, 0, 0, f, a); call (r, c, 0, inN (c, f), T - f, a + outN (c, f));
  long h0 = vp_concrete (vp_int ("h0", vp_cfg ("hlo", 0), H)), h1 = vp_concrete (vp_int ("h1", 0, vp_cfg ("h1max", 2)));
  call (q, c, 1, 0, h0, t); call (q, c, 1, inN (c, h0), h1 * h1 * 5, t);
  if (vp_concrete (vp_int ("twice", 0, 1))) { q->reset(); call (q, c, 1, 5000, vp_cfg ("h2", 7), t); }
  q->reset();
  vp_assert (q->delay() == d && q->order() == o && q->sse_enabled() == s, "accessors-kept", 0);
  call (q, c, 0, 0, f, b); call (q, c, 0, inN (c, f), T - f, b + outN (c, f));
  for (long i = 0; i < N; i++) { vp_indep (b[i], 1, -10, 100000, "independent-of-history", i); vp_same (a[i], b[i], "like-new", i); }
  vp_reach ("end");
}
