#include "pandaresampler.hh"
int other (float *in, float *out) { PandaResampler::Resampler2 r (PandaResampler::Resampler2::UP, 2, PandaResampler::Resampler2::PREC_48DB); r.process_block (in, 8, out); return (int) r.order() + PandaResampler::Resampler2::sse_available() * 0; }
