// P02 (FIR): W units of any value at all, then M units; after M-? units nothing depends on them
#include "lib.h"
extern "C" void vp_main()
{
  vp_wild (1);
  Cfg c = cfg(); const long W = vp_concrete (vp_int ("w", 1, vp_cfg ("wild", 3))), L = vp_cfg ("tail", 8);
  R2 *r = mk (c); long M = 2 * (long) r->order() + 24; 
  float *o = buf ("o", outN (c, W + M + L));
  call (r, c, 1, 0, W, o);
  long s = vp_concrete (vp_int ("s", 0, vp_cfg ("smax", 9)));
  call (r, c, 0, 0, s, o); call (r, c, 0, inN (c, s), M - s, o);
  call (r, c, 0, inN (c, M), L, o);
  for (long i = 0; i < outN (c, L); i++) vp_indep (o[i], 1, 0, inN (c, W), "forgets", i);
  vp_reach ("end");
}
