// P20: AlignedArray, any size, any allocator address
#include "lib.h"
#include <new>
using PandaResampler::AlignedArray;
static long g_live, g_order[64], g_n, g_throw_at; static void *g_self[64];
struct Tracer { long v; Tracer() : v (1234) { g_live++; } Tracer (const Tracer& o) : v (o.v) { g_live++; } ~Tracer() { g_live--; if (g_n < 64) g_self[g_n] = this; g_n++; } };
struct B1 { unsigned char c; };
struct B24 { double d[3]; };
template<class T> static void geometry (long n, const char *tag)
{
  AlignedArray<T> a (n); vp_assert ((long) a.size() == n, tag, 1);
  char *b = (char *) a.begin(), *e = (char *) a.end();
  vp_assert (((size_t) b & 63) == 0, tag, 2); vp_assert (e - b == (long) (n * sizeof (T)), tag, 3);
  if (n) { long room = vp_room (e - 1) - 1, rest = (64 - ((size_t) e & 63)) & 63; vp_assert (room < 0 || room >= rest, "cache-line", 0); } // the last cache line belongs to this allocation, too
  for (long i = 0; i < n; i++) vp_assert (&a[i] == a.begin() + i, tag, 4);
  if (n) { // writable over the full range, nothing else of the heap in the same cache line
    unsigned char *x = (unsigned char *) b; for (long i = 0; i < (long) (n * sizeof (T)); i++) vp_assert (x[i] == 0, "value-init", i);
    AlignedArray<T> o (n); unsigned char *y = (unsigned char *) o.begin(); for (long i = 0; i < (long) (n * sizeof (T)); i++) { x[i] = 1; }
    for (long i = 0; i < (long) (n * sizeof (T)); i++) vp_assert (y[i] == 0 && x[i] == 1, tag, 5);
  }
}
template<class T> static void huge (long n) { bool t = false; try { AlignedArray<T> a ((size_t) n); (void) a; } catch (const std::bad_alloc&) { t = true; } vp_assert (t, "huge-size-reported", 0); } // more bytes than can exist
extern "C" void vp_main()
{
  long l0 = vp_live();
  vp_heap_mod (vp_concrete (vp_int ("addr", 0, 7)) * 8 + vp_cfg ("low", 0));
  long n = vp_concrete (vp_int ("n", vp_cfg ("lo", 0), vp_cfg ("hi", 9)));
  switch (vp_cfg ("what", 0))
    {
    case 0: geometry<float> (n, "float"); break;
    case 1: geometry<B1> (n, "byte"); break;
    case 2: geometry<B24> (n, "24-byte"); break;
    case 3: { g_live = g_n = 0; { AlignedArray<Tracer> a (n); vp_assert (g_live == n, "constructed-once", 0); for (long i = 0; i < n; i++) vp_assert (a[i].v == 1234, "value-init", i); for (long i = 0; i < n && i < 64; i++) g_order[i] = (long) &a[n - 1 - i]; }
        vp_assert (g_live == 0 && g_n == n, "destroyed-once", 0); for (long i = 0; i < n && i < 64; i++) vp_assert ((long) g_self[i] == g_order[i], "last-first", i); break; }
    case 4: { float *p = buf ("p", n); vp_fill (p, n, 0, 0); { std::vector<float> v (p, p + n); AlignedArray<float> a (v); v.assign (n, 3.0f); vp_assert ((long) a.size() == n, "vector-size", 0); vp_assert (((size_t) a.begin() & 63) == 0, "vector-aligned", 0); const AlignedArray<float>& k = a; for (long i = 0; i < n; i++) vp_same (k[i], p[i], "vector-elements", i); } break; }
    case 5: { // allocation failure
        long f = vp_concrete (vp_int ("fail", 0, 2)); bool t = false; vp_fail_alloc (f); try { AlignedArray<float> a (n); } catch (const std::bad_alloc&) { t = true; } vp_fail_alloc (-1); vp_assert (t == (f == 0), "failure-reported", 0); break; }
    case 6: huge<float> (n); break;
    case 7: huge<B1> (n); break;
    case 8: huge<B24> (n); break;
    }
  vp_assert (vp_live() == l0, "released", 0); vp_reach ("end");
}
