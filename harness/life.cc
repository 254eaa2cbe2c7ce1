// P15: construct, use, destroy; the allocation number `fail` (if any) fails
#include "lib.h"
#include <new>
extern "C" void vp_main()
{
  Cfg c = cfg(); vp_heap_mod (vp_cfg ("mod", 16)); long fail = vp_concrete (vp_int ("fail", -1, vp_cfg ("maxfail", 24))), use = vp_concrete (vp_int ("use", 0, 1));
  const long T = 9; float *in = buf ("in", inN (c, T)), *o = buf ("o", outN (c, T)); vp_fill (in, inN (c, T), 0, 0);
  long a0 = vp_alloc_count(), l0 = vp_live(); bool thrown = false; R2 *r = nullptr; long used = 0;
  vp_fail_alloc (fail);
  try { r = mk (c); } catch (const std::bad_alloc&) { thrown = true; }
  used = vp_alloc_count() - a0; vp_fail_alloc (-1);
  vp_assert (thrown == (fail >= 0 && fail < used), "failure-reported", 0);
  if (thrown) { vp_assert (vp_live() == l0, "released-after-failure", 0); vp_reach ("failed"); }
  else
    {
      vp_reach ("constructed");
      if (use) { r->process_block (in, inN (c, T), o); r->reset(); r->process_block (in, inN (c, T), o); for (long i = 0; i < outN (c, T); i++) vp_indep (o[i], 99, 0, 0, "usable", i); }
      delete r; vp_assert (vp_live() == l0, "released", 0);
    }
  vp_reach ("end");
}
