// P22: silence, polarity, scaling, full scale
#include "lib.h"
// s units, then the rest, each from and to fresh buffers (same alignment in all runs); k scales the stream's samples
static void two (const Cfg& c, long s, long T, float k, bool zero, float *out)
{
  R2 *r = mk (c);
  for (int i = 0; i < 2; i++)
    {
      long a = i ? s : 0, u = i ? T - s : s, n = inN (c, u), m = outN (c, u); float *in = buf ("in", n), *o = buf ("o", m);
      for (long j = 0; j < n; j++) in[j] = zero ? 0.0f : k == 1 ? vp_lit (0, inN (c, a) + j) : k == -1 ? -vp_lit (0, inN (c, a) + j) : k * vp_lit (0, inN (c, a) + j);
      vp_undef (o, m * sizeof (float)); r->process_block (in, n, o); for (long j = 0; j < m; j++) out[outN (c, a) + j] = o[j];
      vp_release (in); vp_release (o);
    }
  delete r;
}
extern "C" void vp_main()
{
  Cfg c = cfg(); const long T = vp_cfg ("len", 40), m = outN (c, T); float *a = buf ("a", m), *b = buf ("b", m);
  long s = vp_concrete (vp_int ("s", vp_cfg ("slo", 0), vp_cfg ("shi", T))); long w = vp_cfg ("what", 0);
  if (w == 0) { two (c, s, T, 1, true, a); for (long i = 0; i < m; i++) vp_same (a[i], 0, "silence", i); vp_reach ("end"); return; }
  two (c, s, T, 1, false, a);
  if (w == 1)
    {
      two (c, s, T, -1, false, b); for (long i = 0; i < m; i++) vp_negated (a[i], b[i], "negated", i);
      float k = vp_cfg ("down", 0) ? 0.125f : 4.0f; two (c, s, T, k, false, b); for (long i = 0; i < m; i++) vp_scaled (a[i], b[i], k, 0, 0, "scaled", i);
    }
  else for (long i = 0; i < m; i++) vp_near (a[i], 0, 4, "bounded", i);
  vp_reach ("end");
}
