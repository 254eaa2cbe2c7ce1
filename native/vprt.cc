// Concrete runtime for the harness interface (harness/vp.h): runs a harness natively, on the real
// compiled code, for one counterexample (or for translator validation).
#include "../harness/vp.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cstdarg>
#include <map>
#include <string>
#include <vector>
#include <set>
#include <utility>
#include <new>
#include <thread>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <errno.h>
#include <pthread.h>
#ifdef VP_VALGRIND
#include <valgrind/memcheck.h>
#endif
#ifdef VP_ASAN
#include <sanitizer/asan_interface.h>
#endif
extern "C" void *__libc_malloc (size_t); extern "C" void __libc_free (void *); extern "C" void *__libc_calloc (size_t, size_t); extern "C" void *__libc_realloc (void *, size_t); extern "C" void *__libc_memalign (size_t, size_t);
typedef std::pair<int,long> Key;
struct Opt { std::map<std::string,long> cfg, ints; std::map<Key,double> xs; int mode = 0; unsigned seed = 1; int threads = 1; std::map<std::string,int> wild; bool lin = false, nonfinite = false; double omega = 0, phi = 0; FILE *out = nullptr; };
static Opt O;
static uint64_t hmix(uint64_t h) { h ^= h >> 33; h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ULL; h ^= h >> 33; return h; }
static float streamValue (uint32_t seed, int stream, int idx) {
  uint64_t h = hmix(((uint64_t) seed << 40) ^ ((uint64_t) (stream + 1) << 32) ^ (uint32_t) idx);
  int32_t m = (int32_t) (h & 0xffffff) - 0x800000; return (float) m / 8388608.0f;
}
struct Ctx { uint64_t hash = 1469598103934665603ull, cnt = 0; int region = 0; long io = 0, allocs = 0, live = 0, failAt = -1, heapMod = -1; int fails = 0; bool stop = false; char *stackBase = nullptr; int internal = 0; long nwild = 0;
  struct Buf { char *p, *raw; long n, all; bool ro; std::vector<char> snap; }; std::vector<Buf> bufs; std::string first; };
static thread_local Ctx *C = nullptr;
static Ctx *ctx() { return C; }
static bool g_run = false;
struct EndEx {};
static void report (const char *fmt, ...) { char b[600]; va_list a; va_start (a, fmt); vsnprintf (b, sizeof b, fmt, a); va_end (a); size_t n = strlen (b); if (C) C->internal++; fwrite (b, 1, n, O.out); fflush (O.out); if (C) C->internal--; }
static void failed (const char *kind, const char *tag, long idx, double a, double b, double tol) { if (C->fails++ < 20) report ("FAIL %s %s %ld a=%.9g b=%.9g tol=%g\n", kind, tag, idx, a, b, tol); }
static void put (float f) { uint32_t u; if (f == 0) f = 0; memcpy (&u, &f, 4); if (f != f) u = 0x7fc00000; if (C->cnt >= 20000) return; C->hash = (C->hash ^ u) * 1099511628211ull; C->cnt++; if (C->cnt <= 400) { char b[16]; snprintf (b, sizeof b, "%08x ", u); C->internal++; C->first += b; C->internal--; } }
static void defd (float f, const char *tag, long idx) {
#ifdef VP_VALGRIND
  volatile float g = f; if (VALGRIND_CHECK_MEM_IS_DEFINED (&g, 4)) failed ("undef", tag, idx, 0, 0, 0);
#endif
}
// poison pattern for indeterminate memory: natively a signalling value, so that reading it shows
static void poison (void *p, size_t n) {
#ifdef VP_VALGRIND
  memset (p, 0xa5, n); VALGRIND_MAKE_MEM_UNDEFINED (p, n);
#else
  for (size_t i = 0; i < n; i++) ((unsigned char *) p)[i] = (i & 3) == 3 ? 0x7f : 0xa5 - (i & 3);   // a NaN in every float
#endif
}
extern "C" {
long vp_int (const char *name, long lo, long hi) { auto i = O.ints.find (name); long v = i == O.ints.end() ? lo : i->second; return v < lo ? lo : v > hi ? hi : v; }
void vp_assume (int c) { if (!c) { C->stop = true; throw EndEx(); } }
long vp_cfg (const char *name, long d) { auto i = O.cfg.find (name); return i == O.cfg.end() ? d : i->second; }
// in the plain build a buffer has pages of its own: while it is read only, even a write of the same value is fatal
#if !defined(VP_VALGRIND) && !defined(VP_ASAN) && !defined(VP_TSAN)
static long pages (long n) { return (n + 4095) & ~4095l; }
static char *bufAlloc (long n) { return (char *) mmap (nullptr, pages (n), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); }
static void bufFree (char *p, long n) { munmap (p, pages (n)); }
static void bufLock (char *p, long n, bool on) { mprotect (p, pages (n), on ? PROT_READ : PROT_READ | PROT_WRITE); }
#else
static char *bufAlloc (long n) { return (char *) __libc_memalign (64, n); }
static void bufFree (char *p, long) { __libc_free (p); }
static void bufLock (char *, long, bool) {}
#endif
void *vp_buffer (const char *name, long bytes, long off) {
  C->internal++; if (bytes < 0) bytes = 0; long pad = 256; char *raw = bufAlloc (bytes + off + 2 * pad + 64); Ctx::Buf b; b.raw = raw; b.p = raw + pad + off; b.n = bytes; b.all = bytes + off + 2 * pad + 64; b.ro = false;
  memset (raw, 0xc3, bytes + off + 2 * pad + 64); poison (b.p, bytes);
#ifdef VP_VALGRIND
  VALGRIND_MAKE_MEM_NOACCESS (raw, pad + off); VALGRIND_MAKE_MEM_NOACCESS (b.p + bytes, pad);
#endif
#ifdef VP_ASAN
  ASAN_POISON_MEMORY_REGION (raw, pad + off); ASAN_POISON_MEMORY_REGION (b.p + bytes, pad); ASAN_UNPOISON_MEMORY_REGION (b.p, bytes);
#endif
  C->bufs.push_back (b); C->internal--; return b.p;
}
static void chk (Ctx::Buf& b, bool red) {
  if (b.ro && memcmp (b.p, b.snap.data(), b.n)) failed ("input_write", "buffer", 0, 0, 0, 0);
#if !defined(VP_VALGRIND) && !defined(VP_ASAN)
  if (red) { for (int i = 1; i <= 256; i++) if ((unsigned char) b.p[-i] != 0xc3) { failed ("redzone", "before", -i, 0, 0, 0); break; } for (int i = 0; i < 256; i++) if ((unsigned char) b.p[b.n + i] != 0xc3) { failed ("redzone", "after", i, 0, 0, 0); break; } }
#endif
}
void vp_release (void *p) { C->internal++; for (size_t i = 0; i < C->bufs.size(); i++) if (C->bufs[i].p == p) { auto& b = C->bufs[i]; chk (b, true);
#ifdef VP_VALGRIND
    VALGRIND_MAKE_MEM_NOACCESS (b.p, b.n);
#elif defined(VP_ASAN)
    ASAN_POISON_MEMORY_REGION (b.p, b.n);
#else
    bufFree (b.raw, b.all);
#endif
    C->bufs.erase (C->bufs.begin() + i); break; } C->internal--; }
void vp_readonly (void *p, int on) { C->internal++; for (auto& b : C->bufs) if (b.p == p) { if (on) { b.snap.assign (b.p, b.p + b.n); b.ro = true; bufLock (b.raw, b.all, true); } else { chk (b, false); b.ro = false; bufLock (b.raw, b.all, false); } } C->internal--; }
float vp_lit (int stream, long idx) {
  auto w = O.wild.find (std::to_string (stream)); if (w != O.wild.end()) { static const float v[] = {NAN, INFINITY, -INFINITY, 3e38f, -3e38f, 1e-40f, 1.0f}; return v[(w->second + idx) % 7]; }
  if (O.mode == 0 && !O.xs.empty()) { auto i = O.xs.find (Key (stream, idx)); if (i != O.xs.end()) return (float) i->second; }
  static const double amp = O.cfg.count ("amp") ? exp2 ((double) O.cfg["amp"]) : 1;
  switch (O.mode) { case 1: { auto i = O.xs.find (Key (stream, idx)); return i == O.xs.end() ? 0.f : (float) i->second; }
    case 2: return hmix (((uint64_t) O.seed << 40) ^ ((uint64_t) (stream + 1) << 32) ^ (uint32_t) idx) & 1 ? amp : -amp;
    case 3: return stream == 0 && (unsigned) idx % 61 == O.seed % 61 ? amp : 0.f;
    case 4: return amp;
    case 6: return (float) (amp * cos (O.omega * idx + O.phi));
    case 5: return (float) (amp * sin (idx * (0.05 + 0.37 * (O.seed % 17)) + stream)); }
  return (float) (streamValue (O.seed, stream, (int) idx) * amp); }
void vp_fill (float *p, long n, int stream, long start) { for (long i = 0; i < n; i++) p[i] = vp_lit (stream, start + i); }
void vp_undef (void *p, long n) { if (n > 0) poison (p, n); }
void vp_streambox (int, double) {}
void vp_wild (int) {}
void vp_fresh (int) {}
void vp_isolated (void (*fn) (void *), void *arg, float *out, long n) {
#ifndef VP_TSAN
  C->internal++; float *sh = (float *) mmap (nullptr, n * sizeof (float) + 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); long l0 = C->live, a0 = C->allocs; uint64_t h = C->hash, c = C->cnt; (void) h; (void) c;
  pid_t p = fork();
  if (p == 0) { C->internal--; int f0 = C->fails; fn (arg); C->internal++; memcpy (sh, out, n * sizeof (float)); _exit (C->fails == f0 ? 0 : 1); }
  int st = 0; waitpid (p, &st, 0); memcpy (out, sh, n * sizeof (float)); munmap (sh, n * sizeof (float) + 4096); C->live = l0; C->allocs = a0; C->internal--;
  if (WIFSIGNALED (st)) raise (WTERMSIG (st)); else if (WEXITSTATUS (st)) C->fails++;
#else
  fn (arg);
#endif
}
static void close2 (float a, float b, double tol, const char *tag, long idx, bool tight) { put (a); put (b); defd (a, tag, idx); defd (b, tag, idx); double t = tight && O.lin ? 1e-6 : tol; double d = fabs ((double) a - (double) b);
  if (a != a || b != b) { if (!((a != a) && (b != b)) || O.wild.empty() && !O.nonfinite) failed ("close", tag, idx, a, b, t); } else if (a == b) return; else if (!(d <= t)) failed ("close", tag, idx, a, b, t); }
void vp_close (float a, float b, double tol, const char *tag, long idx) { close2 (a, b, tol, tag, idx, true); }
void vp_near (float a, float b, double tol, const char *tag, long idx) { close2 (a, b, tol, tag, idx, false); }
static void same (float a, float b, const char *tag, long idx) { put (a); put (b); defd (a, tag, idx); defd (b, tag, idx); if (!(a == b || (a != a && b != b))) failed ("same", tag, idx, a, b, 0); }
void vp_same (float a, float b, const char *tag, long idx) { uint32_t u, v; memcpy (&u, &a, 4); memcpy (&v, &b, 4); same (a, b, tag, idx); }
void vp_negated (float a, float b, const char *tag, long idx) { put (a); put (b); if (!(a == -b || (a != a && b != b))) failed ("negated", tag, idx, a, b, 0); }
void vp_scaled (float a, float b, double k, int, int, const char *tag, long idx) { put (a); put (b); if (!((float) (a * k) == b || (a != a && b != b))) failed ("scaled", tag, idx, a, b, 0); }
void vp_indep (float a, int, long, long, const char *tag, long idx) { if (a != a || std::isinf (a)) failed ("indep", tag, idx, a, 0, 0); }
void vp_assert (int c, const char *tag, long idx) {
#ifdef VP_VALGRIND
  volatile int g = c; if (VALGRIND_CHECK_MEM_IS_DEFINED (&g, 4)) failed ("undef", tag, idx, 0, 0, 0);
#endif
  if (!c) failed ("assert", tag, idx, 0, 0, 0); }
static bool g_emit = false;
void vp_emit (const char *tag, long idx, float v) { put (v); defd (v, tag, idx); if (g_emit) report ("EMIT %s %ld %.9g\n", tag, idx, v); }
void vp_emitd (const char *tag, long idx, double v) { if (g_emit) report ("EMIT %s %ld %.17g\n", tag, idx, v); }
static __attribute__((noinline)) char *sp() { return (char *) __builtin_frame_address (0); }
static const long SPAN = 1 << 20;
void vp_region (int m) { C->region = m; 
#if !defined(VP_ASAN) && !defined(VP_TSAN) && !defined(VP_VALGRIND)
  if (m) { C->stackBase = sp(); volatile char *q = (volatile char *) C->stackBase - SPAN; for (long i = 0; i < SPAN - 4096; i++) q[i] = 0x5a; }
#endif
}
long vp_stack() { 
#if !defined(VP_ASAN) && !defined(VP_TSAN) && !defined(VP_VALGRIND)
  if (!C->stackBase) return 0; volatile char *q = (volatile char *) C->stackBase - SPAN; long i = 0; while (i < SPAN - 4096 && q[i] == 0x5a) i++; return SPAN - i;
#else
  return 0;
#endif
}
long vp_io_count() { return C->io; }
long vp_alloc_count() { return C->allocs; }
long vp_live() { return C->live; }
long vp_room (const void *p);
void vp_fail_alloc (long k) { C->failAt = k < 0 ? -1 : C->allocs + k; }
void vp_heap_mod (long m) { C->heapMod = m; }
void vp_track (int) {}
long vp_havoc (int) { return 0; }
float vp_state (long) { return 0; }
void vp_reach (const char *) {}
int vp_symbolic() { return 0; }
long vp_concrete (long x) { return x; }
void vp_end() { throw EndEx(); }
void vp_inconclusive (const char *) {}
}
// ---- environment interposition: allocation, I/O, locks, throws ----
static void rt (const char *what) { if (C && !C->internal && g_run) { if (C->region & 1) { C->internal++; failed (what, "realtime", 0, 0, 0, 0); C->internal--; } } }
#if !defined(VP_ASAN) && !defined(VP_TSAN)
static std::map<char *, size_t> *g_blocks = nullptr;
static void note (void *p, size_t n) { if (!C || C->internal || !p) return; C->internal++; if (!g_blocks) g_blocks = new std::map<char *, size_t>; (*g_blocks)[(char *) p] = n; C->internal--; }
extern "C" long vp_room (const void *p) { if (!g_blocks) return -1; auto i = g_blocks->upper_bound ((char *) p); if (i == g_blocks->begin()) return -1; --i; long r = i->first + i->second - (char *) p; return r < 0 ? -1 : r; }
struct Hdr { uint64_t magic; void *raw; size_t n; uint64_t kind; };
static const uint64_t MAGIC = 0x5650414c4c4f4331ull, DEAD = 0x5650444541444545ull;
#ifdef VP_VALGRIND
static void *rawAlloc (size_t n) { return malloc (n); }
static void rawFree (void *p) { free (p); }
#else
static void *rawAlloc (size_t n) { return __libc_malloc (n); }
static void rawFree (void *p) { __libc_free (p); }
#endif
static bool wantFail() { if (!C || !g_run || C->internal) return false; long k = C->allocs++; return C->failAt >= 0 && k == C->failAt; }
static void *vnew (size_t n, int kind, size_t align, bool& fail) {
  rt ("rt_alloc"); fail = wantFail(); if (fail) return nullptr; if (n > (1ull << 40)) { fail = true; return nullptr; }
  bool mine = C && g_run && !C->internal; long mod = mine && C->heapMod >= 0 ? C->heapMod & 63 : 16; if (align > 16) mod = 0;
  char *raw = (char *) rawAlloc (n + 256 + 64 + align); char *p = raw + 64 + sizeof (Hdr); uintptr_t a = (uintptr_t) p; size_t al = align > 64 ? align : 64; a = (a + al - 1) / al * al + (align > 16 ? 0 : mod); if ((char *) a - raw < (long) sizeof (Hdr)) a += 64; p = (char *) a;
  Hdr h = {MAGIC, raw, n, (uint64_t) kind}; memcpy (p - sizeof (Hdr), &h, sizeof h);
  if (mine) { poison (p, n); C->live++; note (p, n); } else
#ifdef VP_VALGRIND
  VALGRIND_MAKE_MEM_UNDEFINED (p, n);
#else
  (void) 0;
#endif
  memset (p + n, 0xd7, 64);
#ifdef VP_VALGRIND
  VALGRIND_MAKE_MEM_NOACCESS (p + n, 64); VALGRIND_MAKE_MEM_NOACCESS (raw, p - raw);
#endif
  return p;
}
static void vdel (void *q, int kind) {
  if (!q) return; rt ("rt_free"); char *p = (char *) q;
#ifdef VP_VALGRIND
  VALGRIND_DISABLE_ERROR_REPORTING;
  VALGRIND_MAKE_MEM_DEFINED (p - sizeof (Hdr), sizeof (Hdr));
#endif
  Hdr h; memcpy (&h, p - sizeof (Hdr), sizeof h);
#ifdef VP_VALGRIND
  VALGRIND_ENABLE_ERROR_REPORTING;
#endif
  bool mine = C && g_run && !C->internal;
  if (h.magic != MAGIC) { if (mine) { C->internal++; failed (h.magic == DEAD ? "double_free" : "bad_free", "heap", 0, 0, 0, 0); C->internal--; } return; }
  if (mine) { C->live--; C->internal++; if ((int) h.kind != kind) failed ("mismatched_free", "heap", 0, 0, 0, 0);
#ifndef VP_VALGRIND
    for (int i = 0; i < 64; i++) if ((unsigned char) p[h.n + i] != 0xd7) { failed ("heap_overflow", "heap", i, 0, 0, 0); break; }
#endif
    C->internal--; }
  h.magic = DEAD; memcpy (p - sizeof (Hdr), &h, sizeof h);
  if (mine) {
#ifdef VP_VALGRIND
    VALGRIND_MAKE_MEM_NOACCESS (p, h.n);
#else
    memset (p, 0x7f, h.n);      // keep the block: later accesses read poison
#endif
  } else rawFree (h.raw);
}
void *operator new (size_t n) { bool f; void *p = vnew (n, 1, 16, f); if (f) throw std::bad_alloc(); return p; }
void *operator new[] (size_t n) { bool f; void *p = vnew (n, 2, 16, f); if (f) throw std::bad_alloc(); return p; }
void *operator new (size_t n, const std::nothrow_t&) noexcept { bool f; return vnew (n, 1, 16, f); }
void *operator new[] (size_t n, const std::nothrow_t&) noexcept { bool f; return vnew (n, 2, 16, f); }
void operator delete (void *p) noexcept { vdel (p, 1); }
void operator delete[] (void *p) noexcept { vdel (p, 2); }
void operator delete (void *p, size_t) noexcept { vdel (p, 1); }
void operator delete[] (void *p, size_t) noexcept { vdel (p, 2); }
void operator delete (void *p, const std::nothrow_t&) noexcept { vdel (p, 1); }
void operator delete[] (void *p, const std::nothrow_t&) noexcept { vdel (p, 2); }
#ifndef VP_VALGRIND
extern "C" {
static bool mineC() { return C && g_run && !C->internal; }
struct CHdr { uint64_t magic, n; };
static std::set<void *> *cblocks = nullptr;
static void *cm (size_t n, size_t align) { rt ("rt_alloc"); if (wantFail()) { errno = ENOMEM; return nullptr; } C->live++; void *p = align > 16 ? __libc_memalign (align, n) : __libc_malloc (n); note (p, n); C->internal++; poison (p, n); if (!cblocks) cblocks = new std::set<void *>; cblocks->insert (p); C->internal--; return p; }
void *malloc (size_t n) { return mineC() ? cm (n, 16) : __libc_malloc (n); }
void *calloc (size_t a, size_t b) { if (!mineC()) return __libc_calloc (a, b); void *p = cm (a * b, 16); if (p) memset (p, 0, a * b); return p; }
void *realloc (void *p, size_t n) { if (mineC()) rt ("rt_alloc"); return __libc_realloc (p, n); }
void *aligned_alloc (size_t a, size_t n) { return mineC() ? cm (n, a) : __libc_memalign (a, n); }
int posix_memalign (void **o, size_t a, size_t n) { void *p = mineC() ? cm (n, a) : __libc_memalign (a, n); if (!p) return ENOMEM; *o = p; return 0; }
void free (void *p) { if (!p) return; if (mineC()) { rt ("rt_free"); C->internal++; if (cblocks && cblocks->erase (p)) C->live--; C->internal--; } __libc_free (p); }
}
#endif
#endif
#if defined(VP_TSAN) || defined(VP_ASAN)
extern "C" long vp_room (const void *) { return -1; }
#endif
#if !defined(VP_TSAN) && !defined(VP_ASAN)
extern "C" {
static void io() { if (C && g_run && !C->internal) { C->io++; rt ("rt_io"); } }
#define QUIET (C && g_run && !C->internal)
size_t __real_fwrite (const void *, size_t, size_t, FILE *); 
size_t __wrap_fwrite (const void *p, size_t a, size_t b, FILE *f) { io(); return QUIET ? b : __real_fwrite (p, a, b, f); }
int __wrap_fprintf (FILE *f, const char *m, ...) { io(); return 1; }
int __wrap_printf (const char *m, ...) { io(); return 1; }
int __wrap_vfprintf (FILE *, const char *, va_list) { io(); return 1; }
int __wrap_puts (const char *) { io(); return 1; }
int __wrap_fputs (const char *, FILE *) { io(); return 1; }
int __wrap_fputc (int c, FILE *) { io(); return c; }
int __wrap_putchar (int c) { io(); return c; }
void __wrap_perror (const char *) { io(); }
ssize_t __wrap_write (int, const void *, size_t n) { io(); return n; }
FILE *__wrap_fopen (const char *, const char *) { io(); return nullptr; }
int __wrap_open (const char *, int, ...) { io(); return -1; }
int __real_pthread_mutex_lock (pthread_mutex_t *); int __wrap_pthread_mutex_lock (pthread_mutex_t *m) { rt ("rt_lock"); return __real_pthread_mutex_lock (m); }
void __real___cxa_throw (void *, void *, void (*) (void *)); void __wrap___cxa_throw (void *a, void *b, void (*d) (void *)) { rt ("rt_throw"); if (C) C->internal += 0; __real___cxa_throw (a, b, d); }
int __wrap_usleep (unsigned) { rt ("rt_io"); return 0; }
long __wrap_syscall (long, ...) { rt ("rt_io"); return -1; }
}
#endif
static int runOne (int id) {
  Ctx c; C = &c; g_run = true;
  try { vp_main(); } catch (EndEx&) {} catch (std::bad_alloc&) { c.internal++; report ("EXC bad_alloc\n"); c.fails++; } catch (...) { c.internal++; report ("EXC other\n"); c.fails++; }
  c.internal++; for (auto& b : c.bufs) chk (b, true);
  if (id == 0) report ("LOG count=%llu hash=%llu stop=%d fails=%d\n", (unsigned long long) c.cnt, (unsigned long long) c.hash, c.stop, c.fails);
  if (id == 0 && getenv ("VP_FIRST")) { fwrite ("FIRST ", 1, 6, O.out); fwrite (c.first.data(), 1, c.first.size(), O.out); fwrite ("\n", 1, 1, O.out); fflush (O.out); }
  C = nullptr; return c.fails;
}
int main (int argc, char **argv) {
  O.out = fdopen (dup (1), "w");
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; size_t e = a.find ('='); if (e == std::string::npos) continue; std::string k = a.substr (0, e), v = a.substr (e + 1);
    if (k == "mode") O.mode = atoi (v.c_str()); else if (k == "seed") O.seed = atoi (v.c_str()); else if (k == "threads") O.threads = atoi (v.c_str()); else if (k == "lin") O.lin = atoi (v.c_str()); else if (k == "omega") O.omega = atof (v.c_str()); else if (k == "phi") O.phi = atof (v.c_str()); else if (k == "emit") g_emit = atoi (v.c_str());
    else if (k.compare (0, 4, "int:") == 0) O.ints[k.substr (4)] = atol (v.c_str()); else if (k.compare (0, 5, "wild:") == 0) O.wild[k.substr (5)] = atoi (v.c_str());
    else if (k.compare (0, 2, "x:") == 0) { int s; long n; if (sscanf (k.c_str() + 2, "%d:%ld", &s, &n) == 2) { double z = O.xs[Key (s, n)] = atof (v.c_str()); if (!std::isfinite (z)) O.nonfinite = true; } } else O.cfg[k] = atol (v.c_str()); }
  int r = 0;
  if (O.threads > 1) { std::vector<std::thread> t; std::vector<int> res (O.threads); for (int i = 0; i < O.threads; i++) t.emplace_back ([i, &res] { for (int k = 0; k < 3; k++) res[i] += runOne (i); }); for (auto& x : t) x.join(); for (int x : res) r += x; }
  else r = runOne (0);
  fflush (O.out); _exit (r ? 1 : 0);
}
