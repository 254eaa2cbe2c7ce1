#include "expr.h"
#include <cmath>
#include <algorithm>
#include <queue>
static inline uint64_t hmix(uint64_t h) { h ^= h >> 33; h *= 0xff51afd7ed558ccdull; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ull; h ^= h >> 33; return h; }
static uint64_t hnode(const FNode& x) { uint64_t kk; memcpy(&kk, &x.k, 8); return hmix(kk * 31 + hmix(((uint64_t) x.op << 56) ^ ((uint64_t) x.ty << 48) ^ ((uint64_t) x.a << 20) ^ x.b) + hmix(x.c + 77)); }
Ref FloatDag::mk(uint8_t op, uint8_t ty, uint32_t a, uint32_t b, uint32_t c, double k) {
  FNode x{}; x.op = op; x.ty = ty; x.a = a; x.b = b; x.c = c; x.k = k;
  uint64_t m = table.size() - 1, h = hnode(x) & m;
  while (table[h]) { const FNode& y = n[table[h]]; if (y.op == op && y.ty == ty && y.a == a && y.b == b && y.c == c && memcmp(&y.k, &k, 8) == 0) return table[h] * 2; h = (h + 1) & m; }
  uint32_t id = n.size(); n.push_back(x); mag.push_back(-1); table[h] = id;
  if (n.size() * 2 > table.size()) {
    std::vector<uint32_t> t2(table.size() * 4, 0); uint64_t m2 = t2.size() - 1;
    for (uint32_t i = 1; i < n.size(); i++) { uint64_t g = hnode(n[i]) & m2; while (t2[g]) g = (g + 1) & m2; t2[g] = i; }
    table.swap(t2);
  }
  return id * 2;
}
Ref FloatDag::toRef(const V& v, int w) {
  if (v.k == V_FS) return (Ref) v.i;
  if (v.k == V_FC) return constant(v.d == 0 ? 0.0 : v.d, w == 64);
  if (v.k == V_INT) { if (w == 32) { float f; uint32_t u = v.i; memcpy(&f, &u, 4); return constant(f, 0); } double d; memcpy(&d, &v.i, 8); return constant(d, 1); }
  return uninit();
}
static double rnd(double d, int w) { return w == 32 ? (double) (float) d : d; }
V FloatDag::add(const V& a, const V& b, int w) {
  ops++;
  if (a.k == V_FC && b.k == V_FC) return mkF(w == 32 ? (double) ((float) a.d + (float) b.d) : a.d + b.d, w);
  if (a.k == V_FC && a.d == 0 && b.k == V_FS) return b;
  if (b.k == V_FC && b.d == 0 && a.k == V_FS) return a;
  Ref x = toRef(a, w), y = toRef(b, w);
  if (x == (y ^ 1)) { const FNode& q = n[x >> 1]; (void) q; /* x + -x: not folded (NaN) */ }
  Ref s = 0;
  if ((x >> 1) > (y >> 1)) std::swap(x, y);
  if (x & 1) { s = 1; x ^= 1; y ^= 1; }
  return mkFS(mk(F_ADD, w == 64, x, y, 0, 0) ^ s, w);
}
V FloatDag::neg(const V& a) {
  if (a.k == V_FC) return mkF(-a.d, a.w);
  if (a.k == V_FS) { V r = a; r.i ^= 1; return r; }
  return a;
}
V FloatDag::mul(const V& a, const V& b, int w) {
  ops++;
  if (a.k == V_FC && b.k == V_FC) return mkF(w == 32 ? (double) ((float) a.d * (float) b.d) : a.d * b.d, w);
  if (a.k == V_FC && b.k == V_FS) return mul(b, a, w);
  if (b.k == V_FC && a.k == V_FS) {
    if (b.d == 1) return a;
    if (b.d == -1) return neg(a);
    if (!std::isfinite(b.d)) return mkFS(mk(F_OPAQUE, w == 64, (Ref) a.i, 0, 1, b.d), w);
    Ref x = (Ref) a.i; Ref s = x & 1; x &= ~1u; double k = b.d; if (k < 0 || (k == 0 && std::signbit(k))) { k = -k; s ^= 1; }
    return mkFS(mk(F_MULC, w == 64, x, 0, 0, k) ^ s, w);
  }
  Ref x = toRef(a, w), y = toRef(b, w); Ref s = (x ^ y) & 1; x &= ~1u; y &= ~1u; if (x > y) std::swap(x, y);
  return mkFS(mk(F_MUL, w == 64, x, y, 0, 0) ^ s, w);
}
V FloatDag::div(const V& a, const V& b, int w) {
  ops++;
  if (a.k == V_FC && b.k == V_FC) return mkF(w == 32 ? (double) ((float) a.d / (float) b.d) : a.d / b.d, w);
  if (b.k == V_FC && a.k == V_FS && b.d != 0 && std::isfinite(b.d)) {
    int e; double m = std::frexp(b.d, &e);
    if (m == 0.5 || m == -0.5) return mul(a, mkF(1.0 / b.d, w), w);   // exact
  }
  Ref x = toRef(a, w), y = toRef(b, w); Ref s = (x ^ y) & 1; x &= ~1u; y &= ~1u;
  return mkFS(mk(F_DIV, w == 64, x, y, 0, 0) ^ s, w);
}
V FloatDag::un(FOp op, const V& a, int w) {
  if (a.k == V_FC) {
    switch (op) { case F_SQRT: return mkF(rnd(std::sqrt(a.d), w), w); case F_TRUNC: return mkF((double) (float) a.d, 32); case F_EXT: return mkF(a.d, 64); case F_ABS: return mkF(std::fabs(a.d), w); default:; }
  }
  Ref x = toRef(a, op == F_TRUNC ? 64 : op == F_EXT ? 32 : w); Ref s = 0;
  if (op == F_TRUNC || op == F_EXT) { s = x & 1; x &= ~1u; }
  if (op == F_ABS) x &= ~1u;
  if (op == F_TRUNC && n[x >> 1].op == F_EXT) return mkFS(n[x >> 1].a ^ s, 32);
  return mkFS(mk(op, op == F_EXT || (op != F_TRUNC && w == 64), x, 0, 0, 0) ^ s, w);
}
static int arity(const FNode& x) { switch (x.op) { case F_X: case F_UNINIT: case F_CONST: return 0; case F_ADD: case F_MUL: case F_DIV: return 2; case F_FMA: return 3; default: return 1; } }
bool FloatDag::isUninit(Ref r) {
  if (uninitMemo.size() < n.size()) uninitMemo.resize(n.size(), -1);
  std::vector<uint32_t> st{r >> 1};
  while (!st.empty()) {
    uint32_t id = st.back(); if (uninitMemo[id] >= 0) { st.pop_back(); continue; }
    const FNode& x = n[id]; int ar = arity(x); bool ready = true; int8_t v = x.op == F_UNINIT;
    uint32_t ch[3] = {x.a >> 1, x.b >> 1, x.c >> 1};
    for (int i = 0; i < ar; i++) { if (uninitMemo[ch[i]] < 0) { st.push_back(ch[i]); ready = false; } else v |= uninitMemo[ch[i]]; }
    if (ready) { uninitMemo[id] = v; st.pop_back(); }
  }
  return uninitMemo[r >> 1] == 1;
}
bool FloatDag::depends(Ref r, int stream, int lo, int hi) {
  std::unordered_map<uint32_t,char> seen; std::vector<uint32_t> st{r >> 1};
  while (!st.empty()) {
    uint32_t id = st.back(); st.pop_back(); if (seen[id]) continue; seen[id] = 1;
    const FNode& x = n[id];
    if (x.op == F_X && (int) x.a == stream && (int) x.b >= lo && (int) x.b <= hi) return true;
    int ar = arity(x); if (ar > 0) st.push_back(x.a >> 1); if (ar > 1) st.push_back(x.b >> 1); if (ar > 2) st.push_back(x.c >> 1);
  }
  return false;
}
static const double U32 = 5.9604644775390625e-08, U64 = 1.1102230246251565e-16, TINY = 1e-38;
double FloatDag::magOf(uint32_t id0) {
  if (mag[id0] >= 0) return mag[id0];
  std::vector<uint32_t> st{id0};
  while (!st.empty()) {
    uint32_t id = st.back(); if (mag[id] >= 0) { st.pop_back(); continue; }
    const FNode x = n[id]; int ar = arity(x); bool ready = true; uint32_t ch[3] = {x.a >> 1, x.b >> 1, x.c >> 1};
    for (int i = 0; i < ar; i++) if (mag[ch[i]] < 0) { st.push_back(ch[i]); ready = false; }
    if (!ready) continue;
    double m = 0; const double G = 1 + 1e-6;
    switch (x.op) {
      case F_X: { auto it = streamBox.find((int) x.a); m = it == streamBox.end() ? box : it->second; break; }
      case F_UNINIT: m = box; break; case F_CONST: m = x.k; break;
      case F_ADD: m = (mag[ch[0]] + mag[ch[1]]) * G; break; case F_MULC: m = mag[ch[0]] * x.k * G; break;
      case F_MUL: m = mag[ch[0]] * mag[ch[1]] * G; break; case F_TRUNC: case F_EXT: case F_ABS: m = mag[ch[0]]; break;
      case F_SQRT: m = std::sqrt(mag[ch[0]]); break; case F_FMA: m = (mag[ch[0]] * mag[ch[1]] + mag[ch[2]]) * G; break;
      default: m = 1e30; }
    mag[id] = m; st.pop_back();
    if (m > 6 * box && m < 1e29 && (x.op == F_ADD || x.op == F_MULC)) {   // interval too coarse (recursive filters): use the L1 norm of the linear form
      auto l = linP(id * 2); if (!l->nonlin) { double s = std::fabs(l->k); for (auto& c : l->c) { auto it = streamBox.find((int) (c.first >> 32)); s += std::fabs(c.second) * (it == streamBox.end() ? box : it->second); }
        s = s * 1.01 + 1e-6 * box; if (s < m) mag[id] = s; }
      linMemo.erase(id * 2);
    }
  }
  return mag[id0];
}
std::shared_ptr<Lin> FloatDag::linP(Ref r) {
  auto it = linMemo.find(r); if (it != linMemo.end()) return it->second;
  auto L = std::make_shared<Lin>();
  // reverse accumulation over the cone in decreasing id order
  // (dense adjoints plus a bitmap of pending nodes; both are all-zero again when the loop ends)
  static std::vector<double> adj; static std::vector<uint64_t> pend;
  if (adj.size() < n.size()) { adj.resize(n.size() + n.size() / 2 + 1024, 0.0); pend.resize(adj.size() / 64 + 1, 0); }
  auto set = [&](uint32_t i) { pend[i >> 6] |= 1ull << (i & 63); };
  adj[r >> 1] = (r & 1) ? -1.0 : 1.0; set(r >> 1);
  std::vector<std::pair<uint32_t,double>> errs;
  for (int64_t w = r >> 7; w >= 0; ) {
    if (!pend[w]) { w--; continue; }
    int bit = 63 - __builtin_clzll(pend[w]); uint32_t id = (uint32_t) (w << 6 | bit); pend[w] &= ~(1ull << bit); double g = adj[id]; adj[id] = 0;
    const FNode x = n[id];
    auto push = [&](Ref c, double gg) { if (c & 1) gg = -gg; adj[c >> 1] += gg; set(c >> 1); };
    switch (x.op) {
      case F_X: if (g != 0) L->c.push_back({((uint64_t) x.a << 32) | (uint32_t) ((int) x.b + 0x40000000), g}); break;
      case F_UNINIT: L->uninit = true; L->c.push_back({((uint64_t) 0x7ffffff0 << 32) | x.a, g}); break;
      case F_CONST: L->k += g * x.k; break;
      case F_ADD: push(x.a, g); push(x.b, g); errs.push_back({id, g}); break;
      case F_MULC: { if (x.k != 0) push(x.a, g * x.k); int e; if (std::frexp(x.k, &e) != 0.5) errs.push_back({id, g}); break; }
      case F_EXT: push(x.a, g); break;
      case F_TRUNC: push(x.a, g); errs.push_back({id, g}); break;
      default: L->nonlin = true; L->c.push_back({((uint64_t) 0x7ffffff1 << 32) | id, g}); break;
    }
  }
  std::sort(L->c.begin(), L->c.end());
  linMemo[r] = L;
  double err = 0;
  for (auto& e : errs) { const FNode& x = n[e.first]; double u = x.ty == 1 ? U64 : U32; err += std::fabs(e.second) * (u * magOf(e.first) * 1.01 + TINY); }
  L->err = err * 1.001 + 1e-14 * box;   // second-order slack and the double arithmetic of this accumulation
  return L;
}
Lin FloatDag::lin(Ref r) { return *linP(r); }
bool FloatDag::scaled(Ref a, Ref b, double k, std::unordered_map<uint64_t,bool>& memo, int sa, int sb) {
  // is b exactly k*a, where stream sb carries k times stream sa?
  if ((a ^ b) & 1) return false;
  uint32_t ia = a >> 1, ib = b >> 1; const FNode x = n[ia], y = n[ib];
  uint64_t key = ((uint64_t) ia << 32) | ib; auto it = memo.find(key); if (it != memo.end()) return it->second;
  bool r = false;
  if (sa == sb && y.op == F_MULC && y.k == k && y.a == (ia << 1) && x.op == F_X && !y.ty) r = true;      // k*X itself
  else if (x.op == F_X && y.op == F_X) r = sa != sb && ((int) x.a == sa && (int) y.a == sb && x.b == y.b);
  else if (x.op == F_CONST && y.op == F_CONST) r = x.k == 0 ? y.k == 0 : y.k == x.k * k;
  else if (x.op == y.op && x.ty == y.ty) switch (x.op) {
    case F_ADD: r = (scaled(x.a, y.a, k, memo, sa, sb) && scaled(x.b, y.b, k, memo, sa, sb)) || (scaled(x.a, y.b, k, memo, sa, sb) && scaled(x.b, y.a, k, memo, sa, sb)); break;
    case F_MULC: r = x.k == y.k && scaled(x.a, y.a, k, memo, sa, sb); break;
    case F_TRUNC: case F_EXT: case F_ABS: r = scaled(x.a, y.a, k, memo, sa, sb); break;
    default: r = false; }
  memo[key] = r; return r;
}
double g_amp = 1;
float streamValue(uint32_t seed, int stream, int idx) {
  uint64_t h = hmix(((uint64_t) seed << 40) ^ ((uint64_t) (stream + 1) << 32) ^ (uint32_t) idx);
  int32_t m = (int32_t) (h & 0xffffff) - 0x800000; return (float) ((float) m / 8388608.0f * g_amp);
}
double FloatDag::eval(Ref r, const std::vector<double>*, std::unordered_map<uint32_t,double>& memo, uint32_t seed) {
  std::vector<uint32_t> st{r >> 1};
  auto get = [&](Ref q) { double d = memo[q >> 1]; return q & 1 ? -d : d; };
  while (!st.empty()) {
    uint32_t id = st.back(); if (memo.count(id)) { st.pop_back(); continue; }
    const FNode& x = n[id]; int ar = arity(x); bool ready = true; uint32_t ch[3] = {x.a >> 1, x.b >> 1, x.c >> 1};
    for (int i = 0; i < ar; i++) if (!memo.count(ch[i])) { st.push_back(ch[i]); ready = false; }
    if (!ready) continue;
    double v = 0; bool f = x.ty == 0;
    switch (x.op) {
      case F_X: v = streamValue(seed, x.a, (int) x.b); break; case F_UNINIT: v = NAN; break; case F_CONST: v = x.k; break;
      case F_ADD: v = f ? (double) ((float) get(x.a) + (float) get(x.b)) : get(x.a) + get(x.b); break;
      case F_MULC: v = f ? (double) ((float) get(x.a) * (float) x.k) : get(x.a) * x.k; break;
      case F_MUL: v = f ? (double) ((float) get(x.a) * (float) get(x.b)) : get(x.a) * get(x.b); break;
      case F_DIV: v = f ? (double) ((float) get(x.a) / (float) get(x.b)) : get(x.a) / get(x.b); break;
      case F_SQRT: v = f ? (double) std::sqrt((float) get(x.a)) : std::sqrt(get(x.a)); break;
      case F_TRUNC: v = (double) (float) get(x.a); break; case F_EXT: v = get(x.a); break; case F_ABS: v = std::fabs(get(x.a)); break;
      case F_FMA: v = f ? (double) fmaf((float) get(x.a), (float) get(x.b), (float) get(x.c)) : fma(get(x.a), get(x.b), get(x.c)); break;
      default: v = NAN; }
    memo[id] = v; st.pop_back();
  }
  return get(r);
}
uint32_t IntDag::mk(INode&& x) {
  std::string key; key.reserve(40 + x.t.size() * 12);
  auto put = [&](const void* p, size_t s) { key.append((const char*) p, s); };
  put(&x.op, 1); put(&x.w, 1); put(&x.sub, 1); put(&x.a, 4); put(&x.b, 4); put(&x.c, 4); put(&x.k, 8);
  for (auto& t : x.t) { put(&t.first, 4); put(&t.second, 8); }
  auto it = table.find(key); if (it != table.end()) return it->second;
  uint32_t id = n.size(); n.push_back(std::move(x)); table[key] = id; return id;
}
uint32_t IntDag::var(const std::string& name, int64_t lo, int64_t hi) {
  for (size_t i = 0; i < vars.size(); i++) if (vars[i].name == name) { INode x; x.op = I_VAR; x.w = 64; x.a = i; return mk(std::move(x)); }
  vars.push_back({name, lo, hi}); INode x; x.op = I_VAR; x.w = 64; x.a = vars.size() - 1; return mk(std::move(x));
}
