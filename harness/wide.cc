// Every length of a block in a wide range: fixed noise with symbolic samples at the seams
#include "lib.h"
static float noise (unsigned long k) { k = (k + 1) * 6364136223846793005ul + 1442695040888963407ul; k ^= k >> 29; k *= 0xbf58476d1ce4e5b9ul; return ((long) (k >> 40) - (1 << 23)) * (1.0f / (1 << 23)); }
// one call on caller memory of exactly the documented size at the given offsets
static void block (R2 *r, const Cfg& c, const float *x, long units, float *out, long ia = 0, long oa = 0)
{
  const long n = inN (c, units), m = outN (c, units); float *in = buf ("in", n, ia), *o = buf ("out", m, oa);
  for (long i = 0; i < n; i++) in[i] = x[i];
  vp_undef (o, m * (long) sizeof (float)); vp_readonly (in, 1); r->process_block (in, n, o);
  for (long i = 0; i < m; i++) out[i] = o[i];
  vp_release (in); vp_release (o);
}
extern "C" void vp_main()
{
  Cfg c = cfg(); const long what = vp_cfg ("what", 0), P = vp_cfg ("pre", 3), U = vp_cfg ("post", 24), W = vp_cfg ("win", 2) , ref = vp_cfg ("ref", 17);
  const long n = vp_concrete (vp_int ("n", vp_cfg ("lo", 60), vp_cfg ("hi", 1100))) * vp_cfg ("step", 1), T = P + n + U, N = inN (c, T), M = outN (c, T);
  float *x = buf ("x", N), *a = buf ("a", M), *b = buf ("b", M);
  for (long i = 0; i < N; i++) x[i] = noise (i);
  const long at[] = {inN (c, P) - W, inN (c, P + n / 2) - W, inN (c, P + n) - W};
  for (int k = 0; k < 3; k++) for (long j = 0; j < 2 * W; j++) if (at[k] + j >= 0 && at[k] + j < N) x[at[k] + j] = vp_lit (0, at[k] + j);
  if (vp_cfg ("zero", 0) && n) x[inN (c, P) + inN (c, n) / 2] = 0;
  R2 *r = mk (c); const long i1 = inN (c, P), i2 = inN (c, P + n), o1 = outN (c, P), o2 = outN (c, P + n);
  if (what == 4)
    { // any history length, then reset
      R2 *q = mk (c); block (r, c, x, P, a); block (r, c, x + i1, n, a + o1); r->reset();
      float *y = buf ("y", inN (c, U)); for (long i = 0; i < inN (c, U); i++) y[i] = vp_lit (1, i);
      block (r, c, y, U, a); block (q, c, y, U, b);
      for (long i = 0; i < outN (c, U); i++) vp_same (a[i], b[i], "like-new", i);
      vp_reach ("end"); return;
    }
  const long A = what == 2 ? vp_cfg ("amax", 15) : 0, ia = 4 * vp_concrete (vp_int ("in_align", 0, A)), oa = 4 * vp_concrete (vp_int ("out_align", 0, A));
  block (r, c, x, P, a); block (r, c, x + i1, n, a + o1, ia, oa); block (r, c, x + i2, U, a + o2);
  if (what == 5)
    { // the opposite signal, and the signal on another scale
      float *y = buf ("y", N); R2 *s = mk (c); for (long i = 0; i < N; i++) y[i] = -x[i];
      block (s, c, y, P, b); block (s, c, y + i1, n, b + o1); block (s, c, y + i2, U, b + o2);
      for (long i = 0; i < M; i++) vp_negated (b[i], a[i], "negated", i);
      vp_reach ("end"); return;
    }
  Cfg d = c; if (what == 1) d.sse = !c.sse;
  R2 *q = mk (d);
  if (what == 1) { block (q, d, x, P, b); block (q, d, x + i1, n, b + o1); block (q, d, x + i2, U, b + o2); }
  else for (long p = 0; p < T; p += ref) { long k = ref < T - p ? ref : T - p; q->process_block (x + inN (c, p), inN (c, k), b + outN (c, p)); }
  for (long i = 0; i < M; i++) vp_close (a[i], b[i], 1e-4, "block", i);
  vp_reach ("end");
}
