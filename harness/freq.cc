// P10/P11/P21: the response of a settled resampler (chain=1: upsampler followed by downsampler) as a function of all input samples
#include "lib.h"
extern "C" void vp_main()
{
  Cfg c = cfg(); const long N = vp_cfg ("n", 200), L = vp_symbolic() ? 1 : vp_cfg ("avg", 128);     // native replay: many settled outputs, to average rounding out
  if (vp_cfg ("chain", 0))
    {
      Cfg u = c, d = c; u.up = 1; d.up = 0; R2 *a = mk (u), *b = mk (d); float *in = buf ("in", N), *t = buf ("t", N * c.ratio), *o = buf ("o", N);
      vp_fill (in, N, 0, 0); a->process_block (in, N, t); b->process_block (t, N * c.ratio, o);
      vp_emitd ("delay", 0, a->delay() / c.ratio + b->delay()); vp_emitd ("n", 0, N);
      for (long i = L - 1; i >= 0; i--) vp_emit ("h", i, o[N - 1 - i]);
    }
  else
    {
      R2 *r = mk (c); float *o = buf ("o", outN (c, N)); call (r, c, 0, 0, N, o);
      vp_emitd ("delay", 0, r->delay()); vp_emitd ("n", 0, N);
      long m = c.up ? c.ratio : 1; for (long i = L - 1; i >= 0; i--) for (long p = 0; p < m; p++) vp_emit ("h", i * m + p, o[outN (c, N) - (i + 1) * m + p]);
    }
  vp_reach ("end");
}
