// P24: half-band classes, per-sample / block / split / in-place / after clear, FPU and SSE, against a reference polyphase filter
#include "lib.h"
using namespace PandaResampler;
// reference: two branches of first-order all-pass sections y[n] = c*(x[n]-y[n-1]) + x[n-1] at half the rate
struct AP { double c; float x1, y1; float go (float x) { float y = (x - y1) * float (c) + x1; x1 = x; y1 = y; return y; } };
template<int NC> struct Ref { AP s[NC]; Ref (const double *c) { for (int i = 0; i < NC; i++) { s[i].c = c[i]; s[i].x1 = s[i].y1 = 0; } } float branch (int b, float x) { for (int i = b; i < NC; i += 2) x = s[i].go (x); return x; } };
template<int NC, class D> static void down (const double *c, const char *tag)
{
  const long T = vp_cfg ("len", 14); float *in = buf ("in", 2 * T), *lo = buf ("lo", T), *hi = buf ("hi", T), *b0 = buf ("b0", T), *b1 = buf ("b1", T), *o = buf ("o", 2 * T);
  Ref<NC> ref (c); vp_fill (in, 2 * T, 0, 0);
  for (long i = 0; i < T; i++) { b0[i] = ref.branch (0, in[2 * i + 1]); b1[i] = ref.branch (1, in[2 * i]); }
  D d; d.set_coefs (c); if (vp_cfg ("used", 1)) { vp_fill (o, 2 * T, 3, 0); d.process_block (o, o, 3); d.clear_buffers(); }
  long s = vp_concrete (vp_int ("s", 0, T)), k1 = vp_concrete (vp_int ("first", 0, 3)), k2 = vp_concrete (vp_int ("then", 0, 4));
  long p = 0;
  for (int part = 0; part < 2; part++)
    {
      long n = part ? T - s : s, k = part ? k2 : k1; vp_undef (o, 2 * T * 4); if (n)
      switch (k)
        {
        case 0: d.process_block (lo + p, in + 2 * p, n); for (long i = 0; i < n; i++) hi[p + i] = 0.5f * b0[p + i] - 0.5f * b1[p + i]; break;
        case 1: for (long i = 0; i < n; i++) { lo[p + i] = d.process_sample (in + 2 * (p + i)); hi[p + i] = 0.5f * b0[p + i] - 0.5f * b1[p + i]; } break;
        case 2: d.process_block_split (lo + p, hi + p, in + 2 * p, n); break;
        case 3: for (long i = 0; i < n; i++) d.process_sample_split (lo[p + i], hi[p + i], in + 2 * (p + i)); break;
        case 4: for (long i = 0; i < 2 * n; i++) o[i] = in[2 * p + i]; d.process_block (o, o, n); for (long i = 0; i < n; i++) { lo[p + i] = o[i]; hi[p + i] = 0.5f * b0[p + i] - 0.5f * b1[p + i]; } break;
        }
      p += n;
    }
  for (long i = 0; i < T; i++)
    {
      vp_indep (lo[i], 3, -1, 100000, tag, i);
      float a = lo[i] + hi[i], b = lo[i] - hi[i], m = 0.5f * b0[i] + 0.5f * b1[i]; vp_close (lo[i], m, 1e-4, tag, i); vp_close (a, b0[i], 1e-4, tag, 1000 + i); vp_close (b, b1[i], 1e-4, tag, 2000 + i);
    }
}
template<int NC, class U> static void up (const double *c, const char *tag)
{
  const long T = vp_cfg ("len", 14); float *in = buf ("in", T), *e = buf ("e", 2 * T), *o = buf ("o", 2 * T); Ref<NC> ref (c); vp_fill (in, T, 0, 0);
  for (long i = 0; i < T; i++) { e[2 * i] = ref.branch (0, in[i]); e[2 * i + 1] = ref.branch (1, in[i]); }
  U u; u.set_coefs (c); if (vp_cfg ("used", 1)) { float *t = buf ("t", 6); vp_fill (t, 3, 3, 0); u.process_block (o, t, 3); u.clear_buffers(); vp_undef (o, 2 * T * 4); }
  long s = vp_concrete (vp_int ("s", 0, T)), k1 = vp_concrete (vp_int ("first", 0, 1)), k2 = vp_concrete (vp_int ("then", 0, 2)); long p = 0;
  for (int part = 0; part < 2; part++)
    {
      long n = part ? T - s : s, k = part ? k2 : k1; if (n)
      switch (k)
        {
        case 0: u.process_block (o + 2 * p, in + p, n); break;
        case 1: for (long i = 0; i < n; i++) u.process_sample (o[2 * (p + i)], o[2 * (p + i) + 1], in[p + i]); break;
        case 2: { float *x = buf ("x", 2 * n); for (long i = 0; i < n; i++) x[n + i] = in[p + i]; /* input at the end of the output block */ u.process_block (o + 2 * p, x + n, n); break; }
        }
      p += n;
    }
  for (long i = 0; i < 2 * T; i++) { vp_indep (o[i], 3, -1, 100000, tag, i); vp_close (o[i], e[i], 1e-4, tag, i); }
}
template<int NC> static void all()
{
  double c[NC]; for (int i = 0; i < NC; i++) c[i] = (i + 1.0) / (NC + 1.25);
  switch (vp_cfg ("cls", 0))
    {
    case 0: down<NC, hiir::Downsampler2xFpu<NC>> (c, "down-fpu"); break;
    case 1: up<NC, hiir::Upsampler2xFpu<NC>> (c, "up-fpu"); break;
#ifdef __SSE__
    case 2: down<NC, hiir::Downsampler2xSse<NC>> (c, "down-sse"); break;
    case 3: up<NC, hiir::Upsampler2xSse<NC>> (c, "up-sse"); break;
#endif
    }
}
extern "C" void vp_main()
{
  switch (vp_cfg ("nc", 3)) { case 1: all<1>(); break; case 2: all<2>(); break; case 3: all<3>(); break; case 4: all<4>(); break; case 5: all<5>(); break; case 6: all<6>(); break; case 7: all<7>(); break; case 8: all<8>(); break; case 9: all<9>(); break; case 10: all<10>(); break; case 11: all<11>(); break; case 12: all<12>(); break; }
  vp_reach ("end");
}
