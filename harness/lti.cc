// P02: shift invariance, superposition, causality; finite memory of FIR filters for any sample value
#include "lib.h"
extern "C" void vp_main()
{
  Cfg c = cfg(); const long N = vp_cfg ("len", 40), K = vp_cfg ("shift", 9), n = inN (c, N), m = outN (c, N);
  float *a = buf ("ref", m), *z = buf ("z", inN (c, K + 16)), *t = buf ("t", outN (c, N + K));
  for (long i = 0; i < inN (c, K + 16); i++) z[i] = 0;
  R2 *r = mk (c); call (r, c, 0, 0, N, a);
  if (vp_cfg ("hom", 0))
    { // homogeneity, over a wide range of levels
      for (int j = 0; j < 2; j++)
        {
          const float k = j ? 1.0f / (1ll << 40) : 1 << 20, back = 1 / k; R2 *s = mk (c);
          float *in = buf ("in", n), *o = buf ("out", m); for (long i = 0; i < n; i++) in[i] = vp_lit (0, i) * k;
          s->process_block (in, n, o); for (long i = 0; i < m; i++) vp_close (o[i] * back, a[i], c.iir ? 2e-2 : 1e-3, "homogeneity", i);
        }
      vp_reach ("end"); return;
    }
  { // superposition: x0 + 0.5 x1
    R2 *q = mk (c); float *b = buf ("b", m); call (q, c, 1, 0, N, b); R2 *s = mk (c);
    float *in = buf ("in", n), *o = buf ("out", m); for (long i = 0; i < n; i++) in[i] = vp_lit (0, i) + 0.5f * vp_lit (1, i);
    s->process_block (in, n, o);
    for (long i = 0; i < m; i++) { float e = a[i] + 0.5f * b[i]; vp_close (o[i], e, 2e-4 , "superposition", i); }
  }
  { // delayed by k units of silence, fed in the same or in a separate call
    long k = vp_concrete (vp_int ("k", 0, K)), sep = vp_concrete (vp_int ("separate", 0, 1));
    R2 *q = mk (c); long kn = inN (c, k);
    if (sep) { q->process_block (z, kn, t); float *o = t + outN (c, k); call (q, c, 0, 0, N, o); }
    else { float *in = buf ("in", kn + n); for (long i = 0; i < kn; i++) in[i] = 0; vp_fill (in + kn, n, 0, 0); q->process_block (in, kn + n, t); }
    for (long i = 0; i < outN (c, k); i++) vp_close (t[i], 0, 1e-4 , "silence", i);
    for (long i = 0; i < m; i++) vp_close (t[outN (c, k) + i], a[i], 1e-4 , "shift", i);
    // causality: another future (stream 2) from unit j on does not change the first j units
    long j = N - k - 1; R2 *f = mk (c); float *in = buf ("in", n), *o = buf ("out", m); vp_fill (in, inN (c, j), 0, 0); vp_fill (in + inN (c, j), n - inN (c, j), 2, 0);
    f->process_block (in, n, o);
    for (long i = 0; i < outN (c, j); i++) vp_close (o[i], a[i], 1e-4 , "causal", i);
  }
  { // superposition in time: a block of signal, then a block of silence, then signal again, in three calls; the two signals alone (everything else silent) in one call each
    const long A = vp_cfg ("a", 6), G = vp_cfg ("gap", 5), B = 3 + vp_concrete (vp_int ("gap", 0, 1)) * G, M = A + B + A, nm = inN (c, M), na = inN (c, A), nb = inN (c, B);
    float *in = buf ("in", nm), *o1 = buf ("o1", outN (c, M)), *o2 = buf ("o2", outN (c, M)), *o = buf ("o", outN (c, M));
    for (long i = 0; i < nm; i++) in[i] = i < na ? vp_lit (0, i) : 0;
    R2 *x = mk (c); x->process_block (in, nm, o1);
    for (long i = 0; i < nm; i++) in[i] = i >= na + nb ? vp_lit (1, i) : 0;
    R2 *y = mk (c); y->process_block (in, nm, o2);
    R2 *w = mk (c); call (w, c, 0, 0, A, o); w->process_block (z, nb, o + outN (c, A)); call (w, c, 1, na + nb, A, o + outN (c, A + B));
    for (long i = 0; i < outN (c, M); i++) { float e = o1[i] + o2[i]; vp_close (o[i], e, 1e-4 , "gap", i); }
    delete x; delete y; delete w;
  }
  vp_reach ("end");
}
