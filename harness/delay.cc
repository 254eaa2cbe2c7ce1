// P08: delay() is the true delay. FIR: time reversal symmetry about delay(); IIR: every ramp a+b*t comes out delayed by delay()
#include "lib.h"
extern "C" void vp_main()
{
  Cfg c = cfg(); R2 *r = mk (c); const long R = c.ratio; double d = r->delay();
  vp_assert (d >= 0, "non-negative", 0);
  vp_emitd ("delay", 0, d); vp_emitd ("order", 0, r->order());
  if (c.iir)
    {
      const long N = vp_cfg ("settle", 300), L = vp_cfg ("len", 6), n = inN (c, N), m = outN (c, N); float *in = buf ("in", n), *o = buf ("out", m);
      // slowly varying signals: a + b*t with t in units of base-rate samples, scaled to [-1,1] over the run; all a, b in [-1,1]
      for (long i = 0; i < n; i++) { double t = c.up ? i : double (i) / R; in[i] = vp_lit (0, 0) + vp_lit (0, 1) * float (t / N - 0.5); }
      r->process_block (in, n, o);
      // upsampling: averaged over the R phases, which removes the images of the ramp (their level is P11's subject)
      const long W = c.up ? R : 1;
      for (long i = m - outN (c, L); i + W <= m; i++)
        { float y = 0; for (long p = 0; p < W; p++) y += o[i + p]; y *= 1.0f / W; double x = i + 0.5 * (W - 1), t = c.up ? (x - d) / R : x - d; float e = vp_lit (0, 0) + vp_lit (0, 1) * float (t / N - 0.5); vp_near (y, e, 0.01 / N + 4e-6, "ramp-delay", i - m); }
      vp_reach ("end"); return;
    }
  if (R == 2) { double q = c.up ? d : 2 * d; vp_assert (q == (long) q, "multiple", 0); }
  // FIR: full response to n symbolic samples and to the same samples reversed. Output index of the last sample's centre: d + (N-1)R (up), d + (n-1)/R (down)
  long D2 = (long) (2 * d * (c.up ? 1 : R));                        // twice the delay at the higher rate
  vp_assert (D2 == 2 * d * (c.up ? 1 : R), "half-integer", 0);
  long n = vp_cfg ("n", 4); if (!c.up) while ((D2 + n - 1) % R) n++;
  const long U = (c.up ? n : (n + R - 1) / R) + (D2 + R) / R + 3, ni = inN (c, U), m = outN (c, U);
  float *in = buf ("in", ni), *a = buf ("a", m), *b = buf ("b", m); R2 *q = mk (c);
  for (long i = 0; i < ni; i++) in[i] = i < n ? vp_lit (0, i) : 0; r->process_block (in, ni, a);
  for (long i = 0; i < ni; i++) in[i] = i < n ? vp_lit (0, n - 1 - i) : 0; q->process_block (in, ni, b);
  long top = c.up ? D2 + (n - 1) * R : (D2 + n - 1) / R;
  for (long i = 0; i < m; i++) { long j = top - i; if (j >= 0 && j < m) vp_close (a[j], b[i], 1e-4, "symmetric", i); else vp_close (b[i], 0, 1e-4, "symmetric-support", i); }
  // unit gain at the centre: a constant signal passes unchanged (tolerance: passband ripple of the lowest precision)
  vp_reach ("end");
}
