// P12: arbitrary internal state (stream 9), then K units of silence: every state value and output is a contraction of the old state
#include "lib.h"
extern "C" void vp_main()
{
  Cfg c = cfg(); const long K = vp_cfg ("k", 128), L = vp_cfg ("len", 40); R2 *r = mk (c); float *o = buf ("o", outN (c, K + L)), *z = buf ("z", inN (c, K + L)); for (long i = 0; i < inN (c, K + L); i++) z[i] = 0;
  vp_track (1); call (r, c, 0, 0, 2, o); call (r, c, 0, inN (c, 2), 31, o); vp_track (0);
  if (!vp_symbolic())
    { // native replay: noise of any history, then silence
      float *t = buf ("t", outN (c, 400)); const long Q = vp_cfg ("quiet", 600); float *zz = buf ("zz", inN (c, Q)), *y = buf ("y", outN (c, Q)); for (long i = 0; i < inN (c, Q); i++) zz[i] = 0;
      call (r, c, 0, 500, 400, t); for (long i = 0; i < outN (c, 400); i++) vp_near (t[i], 0, 16, "bounded", i);
      r->process_block (zz, inN (c, Q), y); for (long i = outN (c, Q - 20); i < outN (c, Q); i++) vp_near (y[i], 0, 1e-9, "residue", i);
      return;
    }
  long n = vp_havoc (9); vp_emitd ("cells", 0, n);
  r->process_block (z, inN (c, L), o); for (long i = 0; i < outN (c, L); i++) vp_emit ("out", i, o[i]);
  r->process_block (z, inN (c, K - L), o); for (long k = 0; k < n; k++) vp_emit ("state", k, vp_state (k));
  // bounded response to bounded input from the arbitrary state's zero: L1 of the response is finite (settled output)
  vp_reach ("end");
}
