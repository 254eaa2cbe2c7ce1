// A user program of two translation units: compiled, linked and run in every supported way of building (P23)
#include "pandaresampler.hh"
#include <stdio.h>
typedef PandaResampler::Resampler2 R2;
int other (float *in, float *out);
int main()
{
  float in[64], out[512], s = 0; for (int i = 0; i < 64; i++) in[i] = (i % 7) * .1f;
  for (int k = 0; k < 16; k++)
    {
      const R2::Filter f = k & 8 ? R2::FILTER_IIR : R2::FILTER_FIR; const unsigned ratio = 1u << (k & 3);
      R2 u (R2::UP, ratio, R2::PREC_96DB, k & 4, f), d (R2::DOWN, ratio, R2::PREC_96DB, k & 4, f);
      u.process_block (in, 64, out); s += out[64 * ratio - 1]; d.process_block (in, 64, out); s += out[64 / ratio - 1] + u.delay() + d.order(); u.reset();
    }
  PandaResampler::AlignedArray<double> a (3);
  printf ("%.3f %d %s %d %d\n", s, (int) R2::find_precision_for_bits (20), R2::precision_name (R2::PREC_96DB), other (in, out), (int) a.size());
  return 0;
}
