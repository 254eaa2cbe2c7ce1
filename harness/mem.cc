// P05: K calls of arbitrary sizes on exactly sized caller memory; every access is checked by the engine
#include "lib.h"
extern "C" void vp_main()
{
  Cfg c = cfg(); const long K = vp_cfg ("calls", 2), lo = vp_cfg ("lo", 0), hi = vp_cfg ("hi", 8), U = vp_cfg ("post", 4);
  vp_heap_mod (vp_cfg ("mod", 16));
  static const char *nm[] = {"n0", "n1", "n2", "n3"}, *al[] = {"a0", "a1", "a2", "a3"};
  R2 *r = mk (c);
  for (long k = 0; k < K + 1; k++)
    {
      long u = k < K ? vp_concrete (vp_int (nm[k], lo, hi)) : U, off = k < K ? 4 * vp_concrete (vp_int (al[k], 0, vp_cfg ("amax", 1))) : 0;
      long n = inN (c, u), m = outN (c, u);
      float *in = buf ("in", n, off), *o = buf ("out", m, (off * 3) & 63);
      vp_fill (in, n, k, 0); vp_undef (o, m * 4); vp_readonly (in, 1);
      r->process_block (in, n, o);
      for (long i = 0; i < m; i++) vp_indep (o[i], 99, 0, 0, "written", i);
      vp_readonly (in, 0);
      for (long i = 0; i < n; i++) vp_same (in[i], vp_lit (k, i), "input-kept", i);
      vp_release (in); vp_release (o);
      if (vp_cfg ("reset", 0)) r->reset();
    }
  delete r;
  vp_reach ("end");
}
