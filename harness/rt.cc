// P14: nothing but computation in process_block, reset and the accessors; stack use bounded and independent of the block size
#include "lib.h"
static long once (R2 *r, const Cfg& c, long u, int k, long ia = 0, long oa = 0)
{
  long n = inN (c, u), m = outN (c, u); float *in = buf ("in", n, ia), *o = buf ("out", m, oa); vp_fill (in, n, 0, 0);
  vp_region (1); r->process_block (in, n, o); long st = vp_stack(); vp_region (0);
  vp_assert (st <= 200000, "stack", k);
  vp_region (1); if (k == 0) r->reset(); r->delay(); r->order(); r->sse_enabled(); vp_region (0);
  vp_release (in); vp_release (o);
  return st;
}
extern "C" void vp_main()
{
  Cfg c = cfg(); const long lo = vp_cfg ("lo", 0), hi = vp_cfg ("hi", 12), big = vp_cfg ("big", 0), more = vp_cfg ("more", 0); R2 *r = mk (c); long a0 = vp_alloc_count();
  if (big)
    { // two sizes beyond the internal work size
      const long ia = 4 * vp_concrete (vp_int ("in_align", 0, vp_cfg ("amax", 0))), oa = 4 * vp_concrete (vp_int ("out_align", 0, vp_cfg ("amax", 0)));   // buffers that start anywhere
      long s1 = once (r, c, big, 0, ia, oa), s2 = once (r, c, more, 1, ia, oa);
      vp_assert (s2 <= s1 + 2048, "stack-growth", 0);
    }
  else
    {
      static const char *nm[] = {"n0", "n1"};
      for (int k = 0; k < 2; k++) once (r, c, vp_concrete (vp_int (nm[k], k ? 0 : lo, k ? 2 : hi)), k);
    }
  vp_assert (vp_alloc_count() == a0, "no-allocation", 0);
  vp_assert (vp_io_count() == 0, "no-io", 0);
  vp_reach ("end");
}
