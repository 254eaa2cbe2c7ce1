// P06: fresh object = object preceded by silence; accessors and branches determined (engine tracks indeterminate memory)
#include "lib.h"
extern "C" void vp_main()
{
  Cfg c = cfg(); const long T = vp_cfg ("len", 24), K = vp_cfg ("silence", 20), N = outN (c, T); vp_heap_mod (vp_cfg ("mod", 16));
  float *a = buf ("ref", N), *b = buf ("got", N), *z = buf ("z", inN (c, K)), *t = buf ("t", outN (c, K)); for (long i = 0; i < inN (c, K); i++) z[i] = 0;
  R2 *r = mk (c), *q = mk (c);
  vp_assert (r->delay() == q->delay() && r->order() == q->order() && r->sse_enabled() == q->sse_enabled(), "accessors-determined", 0);
  long f = vp_concrete (vp_int ("first", 1, vp_cfg ("fmax", T)));
  call (r, c, 0, 0, f, a); call (r, c, 0, inN (c, f), T - f, a + outN (c, f));
  long k = vp_concrete (vp_int ("k", 0, 1)) * K;
  q->process_block (z, inN (c, k), t); for (long i = 0; i < outN (c, k); i++) vp_close (t[i], 0, 1e-5, "silence", i);
  call (q, c, 0, 0, f, b); call (q, c, 0, inN (c, f), T - f, b + outN (c, f));
  for (long i = 0; i < N; i++) vp_close (a[i], b[i], 1e-4, "fresh-is-silent", i);
  if (vp_cfg ("rst", 1)) { r->reset(); call (r, c, 0, 0, f, a); for (long i = 0; i < outN (c, f); i++) vp_indep (a[i], 99, 0, 0, "after-reset", i); }
  vp_reach ("end");
}
