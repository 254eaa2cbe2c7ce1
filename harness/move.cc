// P27: an object that is moved, swapped or relocated inside a container continues its stream
#include "lib.h"
#include <type_traits>
#include <utility>
template<bool MOVABLE> struct Move
{
  template<class T> static void run (T *r, const Cfg& c, long what, long cut, long T0, float *a)
  {
    Cfg d = c; d.prec = c.prec == 24 ? 8 : 24; d.up = !c.up;
    switch (what)
      {
      case 0: { T *n = new T (std::move (*r)); delete r; cont (n, c, cut, T0, a); delete n; break; }
      case 1: { T *n = mk (d); float *t = buf ("t", outN (d, 9)); call (n, d, 5, 0, 9, t); *n = std::move (*r); delete r; cont (n, c, cut, T0, a); delete n; break; }
      case 2: { T *n = mk (c); float *t = buf ("t", outN (c, 9)); call (n, c, 5, 0, 9, t); std::swap (*n, *r); call (r, c, 6, 0, 9, t); cont (n, c, cut, T0, a); delete r; delete n; break; }
      case 3: { std::vector<T> v; v.push_back (std::move (*r)); delete r; for (int i = 0; i < 3; i++) { v.emplace_back (c.up ? R2::DOWN : R2::UP, 2, R2::PREC_48DB); float *t = buf ("t", 8), *in = buf ("in", 4); vp_fill (in, 4, 5, 0); v.back().process_block (in, 4, t); } cont (&v[0], c, cut, T0, a); break; }
      case 4: { T n (std::move (*r)); *r = std::move (n); cont (r, c, cut, T0, a); delete r; break; }
      }
  }
  template<class T> static void cont (T *n, const Cfg& c, long cut, long T0, float *a) { call (n, c, 0, inN (c, cut), T0 - cut, a + outN (c, cut)); vp_emitd ("order", 0, n->order()); vp_assert (n->order() == g_order && n->delay() == g_delay && n->sse_enabled() == g_sse, "accessors", 0); n->reset(); float *t = buf ("t", outN (c, 7)); call (n, c, 1, 0, 7, t); for (long i = 0; i < outN (c, 7); i++) vp_same (t[i], g_fresh[i], "reset-after", i); }
  static unsigned g_order; static double g_delay; static bool g_sse; static float *g_fresh;
};
template<bool M> unsigned Move<M>::g_order; template<bool M> double Move<M>::g_delay; template<bool M> bool Move<M>::g_sse; template<bool M> float *Move<M>::g_fresh;
template<> struct Move<false> { template<class T> static void run (T *r, const Cfg& c, long, long cut, long T0, float *a) { call (r, c, 0, inN (c, cut), T0 - cut, a + outN (c, cut)); delete r; vp_reach ("not-movable"); } static unsigned g_order; static double g_delay; static bool g_sse; static float *g_fresh; };
unsigned Move<false>::g_order; double Move<false>::g_delay; bool Move<false>::g_sse; float *Move<false>::g_fresh;
extern "C" void vp_main()
{
  typedef Move<std::is_move_constructible<R2>::value && std::is_move_assignable<R2>::value> M;
  Cfg c = cfg(); const long T = vp_cfg ("len", 30), N = outN (c, T); vp_heap_mod (vp_concrete (vp_int ("mod", 0, 3)) * 16);
  float *a = buf ("a", N), *b = buf ("b", N), *f = buf ("f", outN (c, 7)); const long l0 = vp_live();
  const long what = vp_concrete (vp_int ("what", 0, 4)), cut = vp_concrete (vp_int ("cut", 0, T));
  { R2 *q = mk (c); call (q, c, 0, 0, cut, b); call (q, c, 0, inN (c, cut), T - cut, b + outN (c, cut)); M::g_order = q->order(); M::g_delay = q->delay(); M::g_sse = q->sse_enabled(); delete q; }
  { R2 *q = mk (c); call (q, c, 1, 0, 7, f); delete q; M::g_fresh = f; }
  { R2 *r = mk (c); call (r, c, 0, 0, cut, a); M::run (r, c, what, cut, T, a); }
  for (long i = 0; i < N; i++) vp_same (a[i], b[i], "moved", i);
  (void) l0; vp_reach ("end");
}
