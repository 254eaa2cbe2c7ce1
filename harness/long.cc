// P01/P02/P05/P07: very long blocks and streams
#include "lib.h"
static float noise (unsigned long& seed) { seed = seed * 6364136223846793005ul + 1442695040888963407ul; return ((long) (seed >> 40) - (1 << 23)) * (1.0f / (1 << 23)); }
extern "C" void vp_main()
{
  Cfg c = cfg(); unsigned long seed = 1; const long what = vp_cfg ("what", 0), T = vp_cfg ("len", 66000), ref = vp_cfg ("ref", 500), W = vp_cfg ("win", 3);
  if (what == 0)
    { // one block of T units against blocks of `ref` units; samples are symbolic in windows around 0, 2^15, 2^16 and the end, noise (cfg noise=0: silence) elsewhere
      const long n = inN (c, T), m = outN (c, T); float *in = buf ("in", n), *a = buf ("a", m), *b = buf ("b", m);
      const long hiss = vp_cfg ("noise", 1); for (long i = 0; i < n; i++) in[i] = hiss ? noise (seed) : 0;
      const long at[] = {0, 32768 - W, 65536 - W, n - 2 * W};
      for (int k = 0; k < 4; k++) for (long j = 0; j < 2 * W; j++) if (at[k] + j >= 0 && at[k] + j < n) in[at[k] + j] = vp_lit (0, at[k] + j);
      vp_undef (a, m * 4); vp_readonly (in, 1);
      R2 *r = mk (c), *q = mk (c);
      r->process_block (in, n, a);
      for (long p = 0; p < T; p += ref) { long k = ref < T - p ? ref : T - p; q->process_block (in + inN (c, p), inN (c, k), b + outN (c, p)); }
      for (long i = 0; i < m; i++) vp_close (a[i], b[i], 1e-4, "long-block", i);
    }
  else
    { // a history of `calls` calls of `len` units each (silence or noise), then all signals of `post` units; by superposition with a new object's output
      const long K = vp_cfg ("calls", 66000), U = vp_cfg ("post", 40), n = inN (c, T), m = outN (c, T), N = outN (c, U);
      float *in = buf ("in", n), *o = buf ("o", m), *a = buf ("a", N), *b = buf ("b", N), *e = buf ("e", N), *z = buf ("z", inN (c, U));
      R2 *r = mk (c), *q = mk (c), *f = mk (c); 
      for (long i = 0; i < n; i++) in[i] = 0;
      for (long i = 0; i < inN (c, U); i++) z[i] = 0;
      for (long k = 0; k < K; k++)
        {
          if (what >= 2) for (long i = 0; i < n; i++) in[i] = noise (seed);
          r->process_block (in, n, o); if (what != 3) q->process_block (in, n, o);
        }
      if (what == 3) r->reset();
      call (r, c, 0, 0, U, a); q->process_block (z, inN (c, U), e); call (f, c, 0, 0, U, b);
      for (long i = 0; i < N; i++)
        if (what == 3) vp_same (a[i], b[i], "reset", i);
        else { float s = b[i] + e[i]; vp_close (a[i], s, 1e-3, "position", i); }
    }
  vp_reach ("end");
}
