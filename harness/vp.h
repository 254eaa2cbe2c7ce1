// Harness interface. Under the symbolic engine (IR build) every vp_* is an intrinsic;
// in the native replay build native/vprt.cc implements them on concrete values.
#pragma once
#include <stddef.h>
#include <stdint.h>
extern "C" {
long  vp_int (const char *name, long lo, long hi);          // arbitrary integer in [lo,hi]
void  vp_assume (int cond);
long  vp_cfg (const char *name, long dflt);                 // concrete configuration parameter
void *vp_buffer (const char *name, long bytes, long alignoff); // caller-owned memory, exactly `bytes`, start = 64*k + alignoff
void  vp_release (void *p);
void  vp_fill (float *p, long n, int stream, long start);   // p[i] := X_stream(start + i)
float vp_lit (int stream, long idx);                        // X_stream(idx)
void  vp_undef (void *p, long bytes);                       // contents indeterminate
void  vp_readonly (void *p, int on);
void  vp_wild (int stream);                                  // its samples may be any bit pattern
void  vp_streambox (int stream, double bound);
void  vp_close (float a, float b, double tol, const char *tag, long idx);
void  vp_near (float a, float b, double tol, const char *tag, long idx);
void  vp_same (float a, float b, const char *tag, long idx);
void  vp_negated (float a, float b, const char *tag, long idx);
void  vp_scaled (float a, float b, double k, int sa, int sb, const char *tag, long idx);
void  vp_indep (float a, int stream, long lo, long hi, const char *tag, long idx);
void  vp_assert (int cond, const char *tag, long idx);
void  vp_emit (const char *tag, long idx, float v);
void  vp_emitd (const char *tag, long idx, double v);
void  vp_region (int mask);
long  vp_stack (void);
long  vp_io_count (void);
long  vp_alloc_count (void);
long  vp_room (const void *p);                              // bytes from p to the end of the heap block containing it (-1: unknown)
long  vp_live (void);
void  vp_fail_alloc (long k);
void  vp_heap_mod (long m);
void  vp_track (int on);
long  vp_havoc (int stream);
float vp_state (long k);
void  vp_reach (const char *tag);
int   vp_symbolic (void);
long  vp_concrete (long x);
void  vp_end (void);
void  vp_inconclusive (const char *why);
void  vp_fresh (int on);                                  // engine: all globals as at program start (on), back again (off)
void  vp_isolated (void (*fn) (void *), void *arg, float *out, long n); // native: fn in a child process; out[0..n) comes back
void  vp_main (void);
}
#ifdef VP_IR
#include "stl.inc"
#endif
