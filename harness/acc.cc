// P16: construction diagnostics and accessors
#include "lib.h"
extern "C" void vp_main()
{
  Cfg c = cfg(); 
  if (vp_cfg ("any_ratio", 0))
    { // any ratio: diagnostic exactly for unsupported ones
      long ratio = vp_concrete (vp_int ("ratio", vp_cfg ("rlo", 0), vp_cfg ("rhi", 20))); bool ok = ratio == 1 || ratio == 2 || ratio == 4 || ratio == 8; long i0 = vp_io_count();
      R2 r (c.up ? R2::UP : R2::DOWN, ratio, R2::Precision (c.prec), c.sse, c.iir ? R2::FILTER_IIR : R2::FILTER_FIR);
      bool lin_iir = c.iir && c.prec == 1 && ratio >= 2;
      vp_assert ((vp_io_count() != i0) == (!ok || lin_iir), "diagnostic", ratio); vp_reach ("end"); return;
    }
  R2 *r = mk (c);
  vp_assert (vp_io_count() == 0, "silent", 0);
  vp_assert (r->sse_enabled() == (c.sse && R2::sse_available() && c.ratio > 1), "sse_enabled", 0);
  vp_assert (R2::sse_available() == vp_cfg ("have_sse", 1), "sse_available", 0);
  Cfg d = c; d.sse = !c.sse; R2 *q = mk (d); vp_assert (r->order() == q->order() && r->delay() == q->delay(), "sse-independent", 0);
  const R2& k = *r; unsigned o = k.order(); double dl = k.delay(); vp_emitd ("order", 0, o); vp_emitd ("delay", 0, dl);
  vp_assert (dl >= 0, "delay", 0);
  if (c.ratio == 1) { vp_assert (o == 0, "order-1", 0); vp_assert (dl == 0, "delay-1", 0); }
  else
    {
      Cfg e = c; e.ratio = 2; R2 *b = mk (e); vp_assert (b->order() == o, "order-of-base-stage", 0);
      if (!c.iir) // order = number of taps: the base stage's impulse response spans exactly 2*order-1 samples of the higher rate
        { const long N = o + 8, n = inN (e, N), m = outN (e, N); float *in = buf ("in", n), *y = buf ("y", m); for (long i = 0; i < n; i++) in[i] = i == (c.up ? 0 : 1) ? vp_lit (0, 0) : i == 0 ? vp_lit (0, 1) : 0;
          b->process_block (in, n, y); long last = -1; (void) last;
          for (long i = 0; i < m; i++) { if (i >= (c.up ? 2 * (long) o - 1 : (long) o)) vp_same (y[i], 0, "beyond-order", i); vp_emit ("tap", i, y[i]); } }
      long expect[6] = {0, 3, 5, 6, 8, 9}; long ix = c.prec == 1 ? 0 : c.prec == 8 ? 1 : c.prec == 12 ? 2 : c.prec == 16 ? 3 : c.prec == 20 ? 4 : 5;
      if (c.iir) vp_assert ((long) o == expect[ix], "iir-order", 0);
    }
  // accessors do not change anything
  vp_assert (r->order() == o && r->delay() == dl && r->sse_enabled() == k.sse_enabled(), "stable", 0);
  vp_assert (vp_io_count() == 0, "silent-accessors", 0);
  vp_assert (R2::precision_name (R2::Precision (c.prec)) != nullptr, "name", 0);
  vp_reach ("end");
}
