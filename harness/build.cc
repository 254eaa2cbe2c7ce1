// P23: outputs, delay and order of one build configuration (compared across builds by the driver)
#include "lib.h"
extern "C" void vp_main()
{
  Cfg c = cfg(); const long T = vp_cfg ("len", 60), s = vp_cfg ("s", 7); float *o = buf ("o", outN (c, T)); R2 *r = mk (c); 
  call (r, c, 0, 0, s, o); call (r, c, 0, inN (c, s), T - s, o + outN (c, s));
  vp_emitd ("delay", 0, r->delay()); vp_emitd ("order", 0, r->order()); vp_emitd ("bits", 0, R2::find_precision_for_bits (11)); vp_emitd ("filter_test", 0, 1);
  for (long i = 0; i < outN (c, T); i++) vp_emit ("y", i, o[i]);
  r->reset(); call (r, c, 0, 0, 5, o); for (long i = 0; i < outN (c, 5); i++) vp_emit ("r", i, o[i]);
  delete r; vp_reach ("end");
}
