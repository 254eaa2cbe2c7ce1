// P13: resampler A alone in a fresh process versus A with arbitrary activity of others (create, process, reset, destroy) before and between its calls
#include "lib.h"
struct Alone { Cfg c; long T, S; float *a; };
static void alone (void *p) { Alone *x = (Alone *) p; R2 *r = mk (x->c); for (long s = 0; s < x->S; s++) call (r, x->c, 0, inN (x->c, s * x->T), x->T, x->a + outN (x->c, s * x->T)); delete r; }
extern "C" void vp_main()
{
  Cfg c = cfg(), d = c; d.up = vp_cfg ("up2", c.up); d.ratio = vp_cfg ("ratio2", c.ratio); d.prec = vp_cfg ("prec2", c.prec); d.sse = vp_cfg ("sse2", c.sse); d.iir = vp_cfg ("iir2", c.iir);
  const long T = vp_cfg ("len", 10), S = vp_cfg ("slots", 3), N = outN (c, T * S); float *a = buf ("ref", N), *b = buf ("got", N), *t = buf ("t", outN (d, T * 8) + 64);
  Alone x = { c, T, S, a };
  isolated (alone, &x, a, N);
  if (vp_cfg ("zoo", 0))
    { // every other configuration of this kind was used (and mostly destroyed) before, in this order or the reverse one
      static const int precs[] = {1, 8, 12, 16, 20, 24}; const bool rev = vp_concrete (vp_int ("order", 0, 1)); R2 *kept = nullptr; const int n = 36;
      for (int k = 0; k < n; k++)
	{
	  int i = rev ? n - 1 - k : k; Cfg e = c; e.ratio = 2 << (i / 12); e.prec = precs[i / 2 % 6]; e.sse = i & 1; if (e.iir && e.prec == 1) e.iir = 0;
	  if (e.ratio == c.ratio && e.prec == c.prec) continue;
	  R2 *o = mk (e); call (o, e, 1, 100 * k, 2, t); if (i == 13) kept = o; else delete o;
	}
      R2 *q = mk (c);
      for (long s = 0; s < S; s++) { if (kept) call (kept, Cfg { c.up, 4, 1, 1, 0 }, 1, 50 * s, 2, t); call (q, c, 0, inN (c, s * T), T, b + outN (c, s * T)); }
      delete q; delete kept;
    }
  else
    {
      R2 *other = vp_concrete (vp_int ("b_first", 0, 1)) ? mk (d) : nullptr; R2 *q = mk (c);
      static const char *nm[] = {"op0", "op1", "op2", "op3"};
      for (long s = 0; s < S; s++)
	{
	  switch (vp_concrete (vp_int (nm[s], 0, 3)))
	    {
	    case 0: break;
	    case 1: if (!other) other = mk (d); call (other, d, 1, 1000 * s, T, t); break;
	    case 2: if (other) { call (other, d, 1, 1000 * s, 3, t); other->reset(); } break;
	    case 3: delete other; other = nullptr; break;
	    }
	  call (q, c, 0, inN (c, s * T), T, b + outN (c, s * T));
	}
      vp_assert (q->delay() == mk (c)->delay(), "accessors", 0);
    }
  for (long i = 0; i < N; i++) { vp_indep (b[i], 1, -10, 100000, "not-from-other", i); vp_same (a[i], b[i], "independent", i); }
  vp_reach ("end");
}
