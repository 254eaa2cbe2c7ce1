// P18: every number of bits, every enum value
#include "lib.h"
#include <string.h>
extern "C" void vp_main()
{
  if (vp_cfg ("what", 0) == 0)
    {
      long b = vp_int ("bits", 0, 4294967295L); unsigned u = (unsigned) b; long p = R2::find_precision_for_bits (u);
      static const long all[] = {1, 8, 12, 16, 20, 24};
      bool member = false; for (int i = 0; i < 6; i++) member = member || p == all[i]; vp_assert (member, "is-a-precision", 0);
      vp_assert (p >= b || p == 24, "sufficient", 0);
      for (int i = 0; i < 6; i++) if (all[i] < p) vp_assert (all[i] < b, "smallest", i);
    }
  else
    {
      long v = vp_int ("value", vp_cfg ("lo", -2147483647L - 1), vp_cfg ("hi", 2147483647L)); const char *n = R2::precision_name (R2::Precision ((int) v));
      vp_assert (n != nullptr, "non-null", 0);
      static const long all[] = {1, 8, 12, 16, 20, 24}; int which = -1; for (int i = 0; i < 6; i++) if (v == all[i]) which = i;
      const char *unk = R2::precision_name (R2::Precision (7));
      for (int i = 0; i < 6; i++) { const char *o = R2::precision_name (R2::Precision (all[i])); vp_assert (o && o[0] != 0, "printable", i); vp_assert ((strcmp (n, o) == 0) == (which == i), "distinct", i); if (which == i && all[i] > 1) { char s[3] = {0, 0, 0}; long q = all[i]; if (q >= 10) { s[0] = '0' + q / 10; s[1] = '0' + q % 10; } else s[0] = '0' + q; vp_assert (strstr (n, s) == n, "says-bits", i); } }
      vp_assert ((strcmp (n, unk) == 0) == (which < 0), "unknown", 0); vp_assert (strstr (unk, "unknown") != nullptr, "says-unknown", 0);
    }
  vp_reach ("end");
}
