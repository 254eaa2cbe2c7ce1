// Definitions of the out-of-line parts of libstdc++ for the IR build (the native build uses the real ones)
#include <map>
#include <set>
#include <list>
#include <unordered_map>
#include <string>
#include <mutex>
#include <atomic>
#include <memory>
#include <functional>
#include <stdexcept>
#include <cstdarg>
#include <cstdio>
extern "C" void vp_rt_lock (void);
namespace std
{
typedef _Rb_tree_node_base *VpN;
_Rb_tree_node_base *_Rb_tree_increment (VpN x) throw ()
{
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  VpN y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; }
  return x->_M_right != y ? y : x;
}
const _Rb_tree_node_base *_Rb_tree_increment (const _Rb_tree_node_base *x) throw () { return _Rb_tree_increment (const_cast<VpN> (x)); }
_Rb_tree_node_base *_Rb_tree_decrement (VpN x) throw ()
{
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { VpN y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
  VpN y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
const _Rb_tree_node_base *_Rb_tree_decrement (const _Rb_tree_node_base *x) throw () { return _Rb_tree_decrement (const_cast<VpN> (x)); }
// the balance of the tree is of no consequence: a plain binary search tree, with the header's conventions (root, leftmost, rightmost)
void _Rb_tree_insert_and_rebalance (const bool left, VpN x, VpN p, _Rb_tree_node_base& h) throw ()
{
  x->_M_parent = p; x->_M_left = x->_M_right = 0; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase (VpN z, _Rb_tree_node_base& h) throw ()
{
  VpN r;                                    // the subtree that takes z's place
  if (!z->_M_left) r = z->_M_right;
  else if (!z->_M_right) r = z->_M_left;
  else
    {
      VpN m = z->_M_right; while (m->_M_left) m = m->_M_left;
      if (m != z->_M_right) { m->_M_parent->_M_left = m->_M_right; if (m->_M_right) m->_M_right->_M_parent = m->_M_parent; m->_M_right = z->_M_right; z->_M_right->_M_parent = m; }
      m->_M_left = z->_M_left; z->_M_left->_M_parent = m; r = m;
    }
  if (h._M_parent == z) h._M_parent = r; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = r; else z->_M_parent->_M_right = r;
  if (r) r->_M_parent = z->_M_parent;
  if (h._M_left == z || h._M_right == z)
    {
      if (!h._M_parent) h._M_left = h._M_right = &h;
      else { VpN a = h._M_parent; while (a->_M_left) a = a->_M_left; h._M_left = a; a = h._M_parent; while (a->_M_right) a = a->_M_right; h._M_right = a; }
    }
  return z;
}
namespace __detail
{
void _List_node_base::_M_hook (_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook () noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
void _List_node_base::_M_transfer (_List_node_base *const f, _List_node_base *const l) noexcept
{
  if (this == l) return;
  l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f;
  _List_node_base *t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t;
}
size_t _Prime_rehash_policy::_M_next_bkt (size_t n) const
{
  static const size_t primes[] = {2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3739, 7517, 15173};
  for (size_t p : primes) if (p >= n) { _M_next_resize = p; return p; }
  _M_next_resize = n | 1; return n | 1;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash (size_t b, size_t e, size_t i) const
{
  if (e + i > _M_next_resize)
    {
      size_t want = e + i; if (!_M_next_resize && want < 11) want = 11;
      if (want >= b) return {true, _M_next_bkt (want + 1 > 2 * b ? want + 1 : 2 * b)};
      _M_next_resize = b;
    }
  return {false, 0};
}
}
size_t _Hash_bytes (const void *p, size_t n, size_t seed) { size_t h = seed ^ 14695981039346656037ull; for (size_t i = 0; i < n; i++) h = (h ^ ((const unsigned char *) p)[i]) * 1099511628211ull; return h; }
}
extern "C" int *__errno_location (void) throw () { static thread_local int e; return &e; }
extern "C" void __once_proxy (void) { std::__once_call(); }
extern "C" int pthread_once (int *c, void (*f) (void)) { vp_rt_lock(); if (!*c) { f(); *c = 2; } return 0; }
// formatted output of integers and strings (floating point: a fixed text)
extern "C" int vsnprintf (char *b, size_t n, const char *f, va_list ap) throw ()
{
  size_t k = 0;
  auto put = [&] (char c) { if (k + 1 < n) b[k] = c; k++; };
  for (; *f; f++)
    {
      if (*f != '%') { put (*f); continue; }
      f++; int width = 0, lng = 0; char pad = ' '; bool prec = false;
      while (*f == '-' || *f == '+' || *f == ' ' || *f == '#' || *f == '0') { if (*f == '0') pad = '0'; f++; }
      while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
      if (*f == '.') { prec = true; f++; while (*f >= '0' && *f <= '9') f++; }
      while (*f == 'l' || *f == 'z' || *f == 'h' || *f == 't' || *f == 'j') { if (*f != 'h') lng = 1; f++; }
      char t[24]; int m = 0;
      if (*f == '%') put ('%');
      else if (*f == 'c') put ((char) va_arg (ap, int));
      else if (*f == 's') { const char *s = va_arg (ap, const char *); while (*s) put (*s++); }
      else if (*f == 'd' || *f == 'i' || *f == 'u' || *f == 'x' || *f == 'X' || *f == 'p')
        {
          long v = *f == 'p' ? 0 : lng ? va_arg (ap, long) : *f == 'd' || *f == 'i' ? (long) va_arg (ap, int) : (long) va_arg (ap, unsigned); if (*f == 'p') va_arg (ap, void *);
          bool neg = (*f == 'd' || *f == 'i') && v < 0; unsigned long u = neg ? -v : v, base = *f == 'x' || *f == 'X' ? 16 : 10;
          do { t[m++] = "0123456789abcdef"[u % base]; u /= base; } while (u); if (neg) t[m++] = '-';
          while (m < width && m < 23) t[m++] = pad; while (m) put (t[--m]);
        }
      else { va_arg (ap, double); put ('1'); put ('.'); put ('5'); }
    }
  if (n) b[k < n ? k : n - 1] = 0;
  return (int) k;
}
extern "C" int snprintf (char *b, size_t n, const char *f, ...) throw () { va_list ap; va_start (ap, f); int r = vsnprintf (b, n, f, ap); va_end (ap); return r; }
extern "C" int sprintf (char *b, const char *f, ...) throw () { va_list ap; va_start (ap, f); int r = vsnprintf (b, 100000, f, ap); va_end (ap); return r; }
