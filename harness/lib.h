// Resampler configuration shared by the harnesses that drive the public API
#pragma once
#include "vp.h"
#ifdef VP_HEADER_ONLY
#define PANDA_RESAMPLER_HEADER_ONLY
#include "pandaresampler.hh"
#else
#include "pandaresampler/pandaresampler.cc"
#endif
#include <memory>
using PandaResampler::Resampler2;
typedef Resampler2 R2;
struct Cfg { int up, ratio, prec, sse, iir; };
static inline Cfg cfg() { Cfg c; c.up = vp_cfg ("up", 1); c.ratio = vp_cfg ("ratio", 2); c.prec = vp_cfg ("prec", 24); c.sse = vp_cfg ("sse", 1); c.iir = vp_cfg ("iir", 0); return c; }
static inline R2 *mk (const Cfg& c) { return new R2 (c.up ? R2::UP : R2::DOWN, c.ratio, R2::Precision (c.prec), c.sse != 0, c.iir ? R2::FILTER_IIR : R2::FILTER_FIR); }
// streams are counted in "units": one unit is 1 input sample / ratio output samples (up), ratio input samples / 1 output sample (down)
static inline long inN (const Cfg& c, long units) { return c.up ? units : units * c.ratio; }
static inline long outN (const Cfg& c, long units) { return c.up ? units * c.ratio : units; }
static inline float *buf (const char *name, long n, long off = 0) { return (float *) vp_buffer (name, n * (long) sizeof (float), off); }
// one process call on fresh caller buffers of exactly the documented size
static inline void call (R2 *r, const Cfg& c, int stream, long start, long units, float *out, long ia = 0, long oa = 0)
{
  long n = inN (c, units), m = outN (c, units);
  float *in = buf ("in", n, ia), *o = buf ("out", m, oa);
  vp_fill (in, n, stream, start);
  vp_undef (o, m * sizeof (float));
  vp_readonly (in, 1);
  r->process_block (in, n, o);
  for (long i = 0; i < m; i++) out[i] = o[i];
  vp_release (in); vp_release (o);
}
// samples lie in [-2^amp, 2^amp]; tolerances are relative to that
static inline double amp() { long a = vp_cfg ("amp", 0); double r = 1; for (; a > 0; a--) r *= 2; for (; a < 0; a++) r *= 0.5; return r; }
// fn(arg) as if in a process of its own; it fills out[0..n)
static inline void isolated (void (*fn) (void *), void *arg, float *out, long n) { if (vp_symbolic()) { vp_fresh (1); fn (arg); vp_fresh (0); } else vp_isolated (fn, arg, out, n); }
