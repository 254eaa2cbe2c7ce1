// P09: FIR upsampling keeps the original samples bit for bit; linear precision at ratio 2 inserts averages
#include "lib.h"
extern "C" void vp_main()
{
  const bool wild = vp_cfg ("wild", 1); if (wild) vp_wild (0);
  Cfg c = cfg(); R2 *r = mk (c); const long R = c.ratio, d = (long) r->delay(), W = (d + R) / R + 1, T = vp_cfg ("len", 30), U = W + T; float *o = buf ("o", U * R);
  vp_assert (r->delay() == d, "integer-delay", 0);
  long s = vp_concrete (vp_int ("s", 0, vp_cfg ("smax", U))), al = vp_concrete (vp_int ("al", 0, vp_cfg ("amax", 3)));
  call (r, c, 0, 0, s, o, al * 4); call (r, c, 0, s, U - s, o + s * R, al * 4 + 4);
  for (long i = 0; d + R * i < U * R; i++) vp_same (o[d + R * i], vp_lit (0, i), "original", i);
  for (long i = 0; i < d && i < U * R; i++) if ((i - d) % R == 0) vp_same (o[i], 0, "before", i);
  if (c.prec == 1 && R == 2 && !wild) for (long i = 0; d + R * i + 2 < U * R; i++) vp_close (o[d + R * i + 1], 0.5f * vp_lit (0, i) + 0.5f * vp_lit (0, i + 1), 1e-6, "midpoint", i);
  vp_reach ("end");
}
