// P17: ratio 1
#include "lib.h"
extern "C" void vp_main()
{
  vp_wild (0); vp_wild (1);
  Cfg c = cfg(); c.ratio = 1; R2 *r = mk (c); vp_assert (r->delay() == 0, "delay", 0);
  for (int k = 0; k < 2; k++)
    {
      long n = k ? vp_concrete (vp_int ("n1", 0, 5)) : vp_concrete (vp_int ("n0", vp_cfg ("lo", 0), vp_cfg ("hi", 40))), al = vp_concrete (vp_int (k ? "a1" : "a0", 0, vp_cfg ("amax", 1)));
      float *in = buf ("in", n, al * 4), *o = buf ("o", n, al * 12); vp_fill (in, n, k, 0); vp_readonly (in, 1);
      r->process_block (in, n, o); vp_readonly (in, 0);
      for (long i = 0; i < n; i++) vp_same (o[i], vp_lit (k, i), "identity", i);
      r->reset(); vp_release (in); vp_release (o);
    }
  vp_assert (vp_io_count() == 0 && r->delay() == 0, "quiet", 0);
  delete r; vp_reach ("end");
}
