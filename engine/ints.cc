// symbolic integers: construction, ranges, solver decisions, forking
#include "exec.h"
typedef __int128 i128;
static double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
uint32_t Engine::exprOf(const V& v) {
  if (v.k == V_SINT) return (uint32_t) v.i;
  INode x; x.op = I_LIN; x.w = v.w; x.k = sextw(v.i, v.w); return I.mk(std::move(x));
}
V Engine::fromExpr(uint32_t id, int w) {
  const INode& x = I.n[id];
  if (x.op == I_LIN && x.t.empty()) return mkInt(x.k, w);
  V v; v.k = V_SINT; v.w = w; v.i = id; return v;
}
V Engine::simp(State& s, V v) { if (v.k == V_SINT) { uint64_t o; if (evalC(s, v.i, o)) return mkInt(o, v.w); } return v; }
bool Engine::evalC(State& s, uint32_t e, uint64_t& out) {
  const INode& x = I.n[e];
  switch (x.op) {
    case I_VAR: { auto& r = s.rng[x.a]; if (r.first != r.second) return false; out = r.first; return true; }
    case I_LIN: { uint64_t a = x.k; for (auto& t : x.t) { uint64_t o; if (!evalC(s, t.first, o)) return false; a += o * (uint64_t) t.second; } out = a & maskw(x.w); return true; }
    default: {
      uint64_t a, b; int w = I.n[x.a].w;
      if (!evalC(s, x.a, a)) return false;
      if (x.op == I_ZEXT || x.op == I_TRUNC) { out = a & maskw(x.w); return true; }
      if (x.op == I_SEXT) { out = sextw(a, w) & maskw(x.w); return true; }
      if (!evalC(s, x.b, b)) return false;
      if (x.op == I_CMP) { V r = icmp(s, x.sub, mkInt(a, w), mkInt(b, w), w); out = r.i; return true; }
      V r = ibin(s, x.sub, mkInt(a, x.w), mkInt(b, x.w), x.w); if (r.k != V_INT) return false; out = r.i; return true; } }
}
// exact mathematical range of the linear combination (atoms: variables, or generic nodes as unsigned values)
static Range rlin(Engine& E, State& s, uint32_t e) {
  const INode& x = E.I.n[e]; i128 lo = x.k, hi = x.k;
  for (auto& t : x.t) { Range r = E.I.n[t.first].op == I_VAR ? Range{s.rng[E.I.n[t.first].a].first, s.rng[E.I.n[t.first].a].second, true} : E.urange(s, t.first);
    if (t.second > 0) { lo += r.lo * t.second; hi += r.hi * t.second; } else { lo += r.hi * t.second; hi += r.lo * t.second; } }
  return {lo, hi, true};
}
Range Engine::urange(State& s, uint32_t e) {   // range of the unsigned value at its width; ok: exact image of the math value
  const INode& x = I.n[e]; i128 full = (i128) maskw(x.w);
  switch (x.op) {
    case I_VAR: { auto r = s.rng[x.a]; if (r.first >= 0) return {r.first, r.second, true}; return {0, full, false}; }
    case I_LIN: { Range r = rlin(*this, s, e); if (r.lo >= 0 && r.hi <= full) return r; return {0, full, false}; }
    case I_CMP: return {0, 1, true};
    case I_ZEXT: return urange(s, x.a);
    case I_TRUNC: { Range r = urange(s, x.a); if (r.hi <= full) return r; return {0, full, false}; }
    case I_SEXT: { Range r = urange(s, x.a); if (r.hi <= (i128) (maskw(I.n[x.a].w) >> 1)) return r; return {0, full, false}; }
    case I_BIN: { Range a = urange(s, x.a), b = urange(s, x.b);
      switch (x.sub) { case 28 /*And*/: return {0, std::min(a.hi, b.hi), true};
        case 22 /*URem*/: if (b.lo > 0) return {0, std::min(a.hi, b.hi - 1), true}; break;
        case 19 /*UDiv*/: if (b.lo > 0) return {a.lo / b.hi, a.hi / b.lo, true}; break;
        case 26 /*LShr*/: if (b.lo == b.hi && b.lo < 64) return {a.lo >> (int) b.lo, a.hi >> (int) b.lo, true}; break;
        case 20 /*SDiv*/: case 23 /*SRem*/: { i128 h = maskw(x.w) >> 1; if (a.hi <= h && b.lo > 0 && b.hi <= h) { if (x.sub == 20) return {a.lo / b.hi, a.hi / b.lo, true}; return {0, std::min(a.hi, b.hi - 1), true}; } break; }
        case 27 /*AShr*/: { i128 h = maskw(x.w) >> 1; if (a.hi <= h && b.lo == b.hi && b.lo < 64) return {a.lo >> (int) b.lo, a.hi >> (int) b.lo, true}; break; } 
        case 29 /*Or*/: case 30: { i128 m = 1; while (m <= a.hi || m <= b.hi) m <<= 1; return {0, std::min(full, m - 1), true}; } }
      return {0, full, false}; }
    default: return {0, full, false}; }
}
Range Engine::srange(State& s, uint32_t e) {
  const INode& x = I.n[e]; i128 h = (i128) (maskw(x.w) >> 1);
  if (x.op == I_LIN) { Range r = rlin(*this, s, e); if (r.lo >= -h - 1 && r.hi <= h) return r; return {-h - 1, h, false}; }
  if (x.op == I_VAR) return {s.rng[x.a].first, s.rng[x.a].second, true};
  Range r = urange(s, e); if (r.hi <= h) return {r.lo, r.hi, true}; return {-h - 1, h, false};
}
V Engine::lin2(const V& a, int64_t ca, const V& b, int64_t cb, int w) {
  INode r; r.op = I_LIN; r.w = w; uint64_t k = 0; std::map<uint32_t,int64_t> t;
  auto put = [&](const V& v, int64_t c) {
    if (v.k == V_INT) { k += (uint64_t) sextw(v.i, w) * (uint64_t) c; return; }
    const INode& x = I.n[v.i];
    if (x.op == I_LIN && x.w == w) { k += (uint64_t) x.k * (uint64_t) c; for (auto& y : x.t) t[y.first] = (int64_t) ((uint64_t) t[y.first] + (uint64_t) y.second * (uint64_t) c); }
    else t[v.i] = (int64_t) ((uint64_t) t[v.i] + (uint64_t) c);
  };
  put(a, ca); put(b, cb);
  r.k = sextw(k & maskw(w), w);
  for (auto& y : t) { int64_t c = sextw((uint64_t) y.second & maskw(w), w); if (c) r.t.push_back({y.first, c}); }
  if (r.t.empty()) return mkInt(r.k, w);
  V v; v.k = V_SINT; v.w = w; v.i = I.mk(std::move(r)); return v;
}
V Engine::linK(const V& a, int64_t k, int w) { return lin2(a, k, mkInt(0, w), 0, w); }
V Engine::fbits(State& s, const V& v) {
  if (F.isUninit((Ref) v.i)) return mkUndef(v.w); V c = concFloat(s, v, "bit pattern of a sample inspected: followed for concrete samples only");
  if (c.w == 64) { uint64_t u; memcpy(&u, &c.d, 8); return mkInt(u, 64); } float f = (float) c.d; uint32_t u; memcpy(&u, &f, 4); return mkInt(u, 32); }
V Engine::ibin(State& s, int op, V a, V b, int w) {
  if (a.k == V_SINT) a = simp(s, a); if (b.k == V_SINT) b = simp(s, b);
  if (a.k == V_INT && b.k == V_INT) {
    uint64_t x = a.i & maskw(w), y = b.i & maskw(w); int64_t sx = sextw(x, w), sy = sextw(y, w);
    switch (op) {
      case 13: return mkInt(x + y, w); case 15: return mkInt(x - y, w); case 17: return mkInt(x * y, w);
      case 19: case 22: if (!y) { event(s, "div0", "integer division by zero"); return mkUndef(w); } return mkInt(op == 19 ? x / y : x % y, w);
      case 20: case 23: if (!y) { event(s, "div0", "integer division by zero"); return mkUndef(w); } if (sy == -1) return mkInt(op == 20 ? (uint64_t) -(__int128) sx : 0, w); return mkInt(op == 20 ? sx / sy : sx % sy, w);
      case 25: return y >= (uint64_t) w ? mkUndef(w) : mkInt(x << y, w); case 26: return y >= (uint64_t) w ? mkUndef(w) : mkInt(x >> y, w); case 27: return y >= (uint64_t) w ? mkUndef(w) : mkInt(sx >> y, w);
      case 28: return mkInt(x & y, w); case 29: return mkInt(x | y, w); case 30: return mkInt(x ^ y, w); }
    return mkUndef(w);
  }
  if (a.k == V_UNDEF || b.k == V_UNDEF) {
    if (op == 28 && ((a.k == V_INT && !(a.i & maskw(w))) || (b.k == V_INT && !(b.i & maskw(w))))) return mkInt(0, w);
    return mkUndef(w); }
  // bit tricks on floats
  if (a.k == V_FS && b.k == V_INT && w == (int) a.w) {
    uint64_t sign = 1ull << (w - 1);
    if (op == 30 && (uint64_t) b.i == sign) return F.neg(a);
    if (op == 28 && (uint64_t) b.i == (maskw(w) ^ sign)) return F.un(F_ABS, a, w);
    if (op == 28 && (uint64_t) b.i == maskw(w)) return a; if (op == 28 && b.i == 0) return mkInt(0, w); if ((op == 29 || op == 30) && b.i == 0) return a;
    if (op == 29 && (uint64_t) b.i == sign) return F.neg(F.un(F_ABS, a, w));
    if (op == 28 && (uint64_t) b.i == sign) { V z = fcmp(s, 4, a, mkF(0, w), w); return mkInt(decide(s, z) ? sign : 0, w); }   // sign bit (that of -0 is not tracked)
  }
  if (b.k == V_FS && a.k == V_INT && (op == 28 || op == 29 || op == 30)) return ibin(s, op, b, a, w);
  if (a.k == V_FS || b.k == V_FS) { V x = a.k == V_FS ? fbits(s, a) : a, y = b.k == V_FS ? fbits(s, b) : b; if (x.k != V_FS && y.k != V_FS) return ibin(s, op, x, y, w); return mkUndef(w); }
  // pointers held in integer registers
  if (a.k == V_PTR || a.k == V_PTRS || b.k == V_PTR || b.k == V_PTRS) {
    bool pa = a.k == V_PTR || a.k == V_PTRS, pb = b.k == V_PTR || b.k == V_PTRS;
    auto off = [&](const V& p) { return p.k == V_PTR ? mkInt(p.i, 64) : fromExpr(p.i, 64); };
    auto withOff = [&](const V& p, V o) { if (o.k == V_INT) return mkPtr(p.obj, o.i); V r; r.k = V_PTRS; r.w = 64; r.obj = p.obj; r.i = o.i; return r; };
    if (w == 64 && op == 15 && pa && pb && a.obj == b.obj) return lin2(off(a), 1, off(b), -1, 64);
    if (w == 64 && op == 13 && pa != pb) return withOff(pa ? a : b, lin2(off(pa ? a : b), 1, pa ? b : a, 1, 64));
    if (w == 64 && op == 15 && pa && !pb) return withOff(a, lin2(off(a), 1, b, -1, 64));
    return ibin(s, op, pa ? addrOf(s, a) : a, pb ? addrOf(s, b) : b, w);
  }
  if (a.k == V_PACK || b.k == V_PACK) return mkUndef(w);
  switch (op) {
    case 13: return lin2(a, 1, b, 1, w); case 15: return lin2(a, 1, b, -1, w);
    case 17: if (b.k == V_INT) return linK(a, sextw(b.i, w), w); if (a.k == V_INT) return linK(b, sextw(a.i, w), w); break;
    case 25: if (b.k == V_INT && b.i < w) return linK(a, (int64_t) (1ull << b.i), w); break;
    case 28: if (b.k == V_INT && b.i == (int64_t) maskw(w)) return a; if (b.k == V_INT && b.i == 0) return b;
      if (b.k == V_INT && w == 1) return b.i ? a : b; if (a.k == V_INT && w == 1) return a.i ? b : a; 
      if (b.k == V_INT) { Range r = urange(s, exprOf(a)); uint64_t m = b.i; if (r.ok && (m & (m + 1)) == 0 && r.hi <= (i128) m) return a; } break;
    case 29: if (b.k == V_INT && b.i == 0) return a; break;
    case 30: if (b.k == V_INT && b.i == 0) return a;
      if (w == 1 && b.k == V_INT && b.i == 1) { const INode x = I.n[a.i]; if (x.op == I_CMP) { static const int inv[] = {33,32,37,36,35,34,41,40,39,38}; INode y = x; y.sub = inv[x.sub - 32]; return fromExpr(I.mk(std::move(y)), 1); } } break;
    case 26: if (b.k == V_INT && b.i == 0) return a; break;
    case 19: case 20: if (b.k == V_INT && b.i == 1) return a;
      if (b.k == V_INT && b.i > 1) { // exact division of a linear form
        const INode x = I.n[a.i]; int64_t d = sextw(b.i, w); bool exact = x.op == I_LIN && x.k % d == 0; if (exact) for (auto& t : x.t) if (t.second % d) exact = false;
        Range r = op == 20 ? srange(s, a.i) : urange(s, a.i);
        if (exact && r.ok) { INode y = x; y.k /= d; for (auto& t : y.t) t.second /= d; return fromExpr(I.mk(std::move(y)), w); } }
      break;
  }
  if (b.k == V_SINT && (op == 19 || op == 20 || op == 22 || op == 23)) { V nz = icmp(s, 32, b, mkInt(0, w), w); if (decide(s, nz)) { event(s, "div0", "integer division by zero"); return mkUndef(w); } }
  INode x; x.op = I_BIN; x.w = w; x.sub = op; x.a = exprOf(a); x.b = exprOf(b);
  if (a.k == V_INT) { x.a = exprOf(mkInt(a.i, w)); } if (b.k == V_INT) x.b = exprOf(mkInt(b.i, w));
  return fromExpr(I.mk(std::move(x)), w);
}
// llvm icmp predicates: 32 eq,33 ne,34 ugt,35 uge,36 ult,37 ule,38 sgt,39 sge,40 slt,41 sle
V Engine::icmp(State& s, int pred, V a, V b, int w) {
  if (a.k == V_SINT) a = simp(s, a); if (b.k == V_SINT) b = simp(s, b);
  if (a.k == V_UNDEF || b.k == V_UNDEF) return mkUndef(1);
  bool pa = a.k == V_PTR || a.k == V_PTRS, pb = b.k == V_PTR || b.k == V_PTRS;
  if (pa || pb) {
    auto off = [&](const V& p) { return p.k == V_PTR ? mkInt(p.i, 64) : fromExpr(p.i, 64); };
    if (pa && pb && a.obj == b.obj) { a = off(a); b = off(b); if (pred >= 34 && pred <= 37) pred += 4; w = 64; return icmp(s, pred, a, b, 64); }
    if (pred == 32 || pred == 33) {
      // distinct objects (or null): one-past-the-end equality is not modelled
      if (pa && pb) return mkInt(pred == 33, 1);
      if (pa && b.k == V_INT && b.i == 0 && a.obj) return mkInt(pred == 33, 1);
      if (pb && a.k == V_INT && a.i == 0 && b.obj) return mkInt(pred == 33, 1);
    }
    if (pa) a = addrOf(s, a); if (pb) b = addrOf(s, b); w = 64;
    return icmp(s, pred, a, b, 64);
  }
  if (a.k == V_FS || b.k == V_FS) { V x = a.k == V_FS ? fbits(s, a) : a, y = b.k == V_FS ? fbits(s, b) : b; return icmp(s, pred, x, y, w); }
  if (a.k == V_INT && b.k == V_INT) {
    uint64_t x = a.i & maskw(w), y = b.i & maskw(w); int64_t sx = sextw(x, w), sy = sextw(y, w); bool r = false;
    switch (pred) { case 32: r = x == y; break; case 33: r = x != y; break; case 34: r = x > y; break; case 35: r = x >= y; break; case 36: r = x < y; break; case 37: r = x <= y; break;
      case 38: r = sx > sy; break; case 39: r = sx >= sy; break; case 40: r = sx < sy; break; case 41: r = sx <= sy; break; }
    return mkInt(r, 1);
  }
  if (a.k == V_PACK || b.k == V_PACK) return mkUndef(1);
  uint32_t ea = exprOf(a.k == V_INT ? mkInt(a.i, w) : a), eb = exprOf(b.k == V_INT ? mkInt(b.i, w) : b);
  V d = lin2(a, 1, b, -1, w);
  if (pred == 32 || pred == 33) {
    if (d.k == V_INT) return mkInt((d.i == 0) == (pred == 32), 1);
    Range r = srange(s, d.i); if (r.ok && (r.lo > 0 || r.hi < 0)) return mkInt(pred == 33, 1);
    // normal form: d == 0
    Range u = srange(s, d.i);
    if (u.ok) { const INode x = I.n[d.i]; if (x.op == I_LIN && x.t.size() == 1 && x.t[0].second != 1 && x.t[0].second != -1) { if (x.k % x.t[0].second) return mkInt(pred == 33, 1); } }
  } else {
    bool uns = pred <= 37; Range ra = uns ? urange(s, ea) : srange(s, ea), rb = uns ? urange(s, eb) : srange(s, eb);
    Range r{ra.lo - rb.hi, ra.hi - rb.lo, ra.ok && rb.ok};
    if (ra.ok && rb.ok && d.k == V_SINT) { Range q = rlin(*this, s, d.i); if (q.lo > r.lo) r.lo = q.lo; if (q.hi < r.hi) r.hi = q.hi; }
    else if (ra.ok && rb.ok && d.k == V_INT) { int64_t z = sextw(d.i, w); r.lo = r.hi = z; }
    int p = uns ? pred : pred - 4;
    switch (p) { case 34: if (r.lo > 0) return mkInt(1, 1); if (r.hi <= 0) return mkInt(0, 1); break; case 35: if (r.lo >= 0) return mkInt(1, 1); if (r.hi < 0) return mkInt(0, 1); break;
      case 36: if (r.hi < 0) return mkInt(1, 1); if (r.lo >= 0) return mkInt(0, 1); break; case 37: if (r.hi <= 0) return mkInt(1, 1); if (r.lo > 0) return mkInt(0, 1); break; }
  }
  INode x; x.op = I_CMP; x.w = 1; x.sub = pred; x.a = ea; x.b = eb;
  return fromExpr(I.mk(std::move(x)), 1);
}
z3::expr Engine::zx(uint32_t e) {
  auto it = zmemo.find(e); if (it != zmemo.end()) return *it->second;
  const INode x = I.n[e];
  auto fit = [&](uint32_t id, int w) { z3::expr z = zx(id); int zw = z.get_sort().bv_size(); if (zw == w) return z; if (zw > w) return z.extract(w - 1, 0); return z3::zext(z, w - zw); };
  z3::expr r(ctx);
  switch (x.op) {
    case I_VAR: r = ctx.bv_const(("v" + std::to_string(x.a)).c_str(), 64); break;
    case I_LIN: { r = ctx.bv_val((uint64_t) x.k & maskw(x.w), x.w); for (auto& t : x.t) r = r + ctx.bv_val((uint64_t) t.second & maskw(x.w), x.w) * fit(t.first, x.w); break; }
    case I_ZEXT: { z3::expr a = zx(x.a); r = z3::zext(a, x.w - I.n[x.a].w); break; }
    case I_SEXT: { z3::expr a = zx(x.a); r = z3::sext(a, x.w - I.n[x.a].w); break; }
    case I_TRUNC: { z3::expr a = zx(x.a); r = a.extract(x.w - 1, 0); break; }
    case I_CMP: { z3::expr a = zx(x.a), b = zx(x.b); z3::expr c(ctx);
      switch (x.sub) { case 32: c = a == b; break; case 33: c = a != b; break; case 34: c = z3::ugt(a, b); break; case 35: c = z3::uge(a, b); break; case 36: c = z3::ult(a, b); break; case 37: c = z3::ule(a, b); break;
        case 38: c = a > b; break; case 39: c = a >= b; break; case 40: c = a < b; break; default: c = a <= b; }
      r = z3::ite(c, ctx.bv_val(1, 1), ctx.bv_val(0, 1)); break; }
    case I_BIN: { z3::expr a = zx(x.a), b = zx(x.b);
      switch (x.sub) { case 13: r = a + b; break; case 15: r = a - b; break; case 17: r = a * b; break; case 19: r = z3::udiv(a, b); break; case 20: r = a / b; break; case 22: r = z3::urem(a, b); break; case 23: r = z3::srem(a, b); break;
        case 25: r = z3::shl(a, b); break; case 26: r = z3::lshr(a, b); break; case 27: r = z3::ashr(a, b); break; case 28: r = a & b; break; case 29: r = a | b; break; default: r = a ^ b; }
      break; }
    default: r = ctx.bv_val(0, x.w);
  }
  zmemo[e] = std::make_shared<z3::expr>(r); return r;
}
static void varsOf(IntDag& I, uint32_t e, std::set<uint32_t>& v) {
  const INode& x = I.n[e];
  if (x.op == I_VAR) { v.insert(x.a); return; }
  if (x.op == I_LIN) { for (auto& t : x.t) varsOf(I, t.first, v); return; }
  varsOf(I, x.a, v); if (x.op == I_BIN || x.op == I_CMP) varsOf(I, x.b, v);
}
int Engine::checkInt(State& s, uint32_t cond, bool val, std::vector<int64_t>* model) {
  std::set<uint32_t> vs; varsOf(I, cond, vs); for (auto& c : s.pc) varsOf(I, c.first, vs);
  std::string key; 
  if (!model) { key = std::to_string(cond) + (val ? "+" : "-"); for (auto v : vs) key += "," + std::to_string(v) + ":" + std::to_string(s.rng[v].first) + ":" + std::to_string(s.rng[v].second); for (auto& c : s.pc) key += "|" + std::to_string(c.first * 2 + c.second);
    auto it = intCache.find(key); if (it != intCache.end()) return it->second; }
  double t = nowS(); intQ++;
  z3::solver S(ctx, "QF_BV"); 
  for (auto v : vs) { z3::expr z = ctx.bv_const(("v" + std::to_string(v)).c_str(), 64); S.add(z >= ctx.bv_val(s.rng[v].first, 64)); S.add(z <= ctx.bv_val(s.rng[v].second, 64)); }
  for (auto& c : s.pc) S.add(zx(c.first) == ctx.bv_val(c.second ? 1 : 0, 1));
  S.add(zx(cond) == ctx.bv_val(val ? 1 : 0, 1));
  z3::check_result r = S.check(); solverTime += nowS() - t;
  int res = r == z3::sat ? 1 : r == z3::unsat ? 0 : 2;
  if (res == 1 && model) { model->clear(); z3::model m = S.get_model(); for (size_t i = 0; i < I.vars.size(); i++) { int64_t x = i < s.rng.size() ? s.rng[i].first : I.vars[i].lo; if (vs.count(i)) { z3::expr z = m.eval(ctx.bv_const(("v" + std::to_string(i)).c_str(), 64), true); x = (int64_t) z.get_numeral_uint64(); } model->push_back(x); } }
  if (!model) intCache[key] = res;
  return res;
}
void Engine::constrain(State& s, uint32_t cond, bool val) {
  const INode x = I.n[cond];
  if (x.op == I_CMP) {
    V a = fromExpr(x.a, I.n[x.a].w), b = fromExpr(x.b, I.n[x.b].w); int w = I.n[x.a].w; int p = x.sub;
    static const int inv[] = {33,32,37,36,35,34,41,40,39,38}; if (!val) p = inv[p - 32];
    V d = lin2(a, 1, b, -1, w);
    if (d.k == V_SINT && I.n[d.i].op == I_LIN && I.n[d.i].t.size() == 1 && I.n[I.n[d.i].t[0].first].op == I_VAR) {
      bool uns = p >= 34 && p <= 37; bool eq = p <= 33;
      Range ra = uns ? urange(s, x.a) : srange(s, x.a), rb = uns ? urange(s, x.b) : srange(s, x.b); Range rd = rlin(*this, s, d.i);
      i128 h = (i128) (maskw(w) >> 1);
      if ((!eq && ra.ok && rb.ok) || (eq && rd.lo >= -h - 1 && rd.hi <= h)) {
        uint32_t var = I.n[I.n[d.i].t[0].first].a; int64_t c = I.n[d.i].t[0].second; i128 k = I.n[d.i].k; auto& R = s.rng[var];
        // the difference c*v + k is exact here: p(c*v + k, 0)
        int q = p >= 38 ? p - 4 : p;   // gt ge lt le as 34..37
        auto fdiv = [](i128 n, i128 m) { i128 z = n / m; if (n % m && ((n < 0) != (m < 0))) z--; return z; };
        auto cdiv = [&](i128 n, i128 m) { return -fdiv(-n, m); };
        bool done = true;
        if (q == 32) { if ((-k) % c == 0) { int64_t v = (int64_t) (-k / c); R.first = R.second = v; } else done = false; }
        else if (q == 33) { if ((-k) % c == 0) { i128 v = -k / c; if (v == R.first) R.first++; else if (v == R.second) R.second--; else done = false; } }
        else {
          if (q == 34) { k -= 1; q = 35; } if (q == 36) { k += 1; q = 37; }
          // 35: c*v + k >= 0 ; 37: c*v+k <= 0
          if (q == 37) { c = -c; k = -k; }
          if (c > 0) { i128 v = cdiv(-k, c); if (v > R.first) R.first = (int64_t) v; } else { i128 v = fdiv(k, -c); if (v < R.second) R.second = (int64_t) v; }
        }
        if (done) return;
      }
    }
  }
  for (auto& c : s.pc) if (c.first == cond && c.second == val) return;
  s.pc.push_back({cond, val});
}
bool Engine::mayBe(State& s, V c, bool val, std::vector<int64_t>* model) {
  c = simp(s, c);
  if (c.k == V_INT) return (c.i & 1) == val;
  if (c.k != V_SINT) return false;
  return checkInt(s, c.i, val, model) == 1;
}
bool Engine::decide(State& s, V c) {
  c = simp(s, c);
  if (c.k == V_INT) return c.i & 1;
  if (c.k == V_UNDEF || c.k != V_SINT) { event(s, "uninit_branch", "decision depends on an undetermined value"); return false; }
  uint32_t e = c.i; if (c.w != 1) { V z = icmp(s, 33, c, mkInt(0, c.w), c.w); return decide(s, z); }
  int t = checkInt(s, e, true, nullptr);
  if (t == 0) return false;
  int f = checkInt(s, e, false, nullptr);
  if (f == 0) return true;
  // both possible: fork. The branch with the smaller remaining work (false for <) is not known; clone takes true.
  State* n = clone(s); constrain(*n, e, true); forks++; work.push_back(n);
  constrain(s, e, false);
  return false;
}
int64_t Engine::concretize(State& s, V v) {
  v = simp(s, v);
  if (v.k == V_INT) return sextw(v.i, v.w);
  if (v.k != V_SINT) { event(s, "uninit_addr", "size or address depends on an undetermined value"); return 0; }
  for (int guard = 0; guard < 100000; guard++) {
    Range r = srange(s, v.i); int64_t cand;
    // smallest value first
    V z = mkInt(0, v.w);
    if (r.ok) cand = (int64_t) r.lo; else { std::vector<int64_t> m; INode one; one.op = I_LIN; one.w = 1; one.k = 1; uint32_t o = I.mk(std::move(one)); INode c; c.op = I_CMP; c.w = 1; c.sub = 32; c.a = o; c.b = o; checkInt(s, I.mk(std::move(c)), true, &m); auto save = s.rng; for (size_t i = 0; i < m.size() && i < s.rng.size(); i++) s.rng[i] = {m[i], m[i]}; uint64_t o2 = 0; evalC(s, v.i, o2); s.rng = save; cand = sextw(o2, v.w); }
    V eq = icmp(s, 32, v, mkInt(cand, v.w), v.w);
    eq = simp(s, eq);
    if (eq.k == V_INT) { if (eq.i) return cand; if (!r.ok) throw Abort{"concretize"}; }
    else {
      int t = checkInt(s, eq.i, true, nullptr), f = checkInt(s, eq.i, false, nullptr);
      if (t && f) { State* n = clone(s); constrain(*n, eq.i, false); forks++; work.push_back(n); constrain(s, eq.i, true); return cand; }
      if (t) { constrain(s, eq.i, true); return cand; }
      constrain(s, eq.i, false);
    }
    v = simp(s, v); if (v.k == V_INT) return sextw(v.i, v.w);
  }
  throw Abort{"concretize"};
}
V Engine::cast(State& s, const Inst& in, int op, V a, int sw, int dw, Ty dt) {
  // 38 Trunc 39 ZExt 40 SExt 41 FPToUI 42 FPToSI 43 UIToFP 44 SIToFP 45 FPTrunc 46 FPExt 47 PtrToInt 48 IntToPtr 49 BitCast
  if (a.k == V_SINT) a = simp(s, a);
  switch (op) {
    case 38: if (a.k == V_INT) return mkInt(a.i, dw); if (a.k == V_SINT) { const INode x = I.n[a.i]; INode y; y.op = I_LIN; y.w = dw; bool ok = x.op == I_VAR || x.op == I_LIN;
        if (x.op == I_VAR) y.t.push_back({(uint32_t) a.i, 1});
        else if (x.op == I_LIN) { y.k = sextw((uint64_t) x.k & maskw(dw), dw); for (auto& t : x.t) { if (I.n[t.first].op != I_VAR) ok = false; int64_t c = sextw((uint64_t) t.second & maskw(dw), dw); if (c) y.t.push_back({t.first, c}); } }
        if (ok) { if (y.t.empty()) return mkInt(y.k, dw); return fromExpr(I.mk(std::move(y)), dw); }
        INode z; z.op = I_TRUNC; z.w = dw; z.a = a.i; return fromExpr(I.mk(std::move(z)), dw); }
      if (a.k == V_PTR || a.k == V_PTRS) return cast(s, in, op, addrOf(s, a), 64, dw, dt);
      if (a.k == V_PACK && dw == 32) return mkUndef(dw);
      if (a.k == V_FS) return cast(s, in, op, fbits(s, a), sw, dw, dt);
      return mkUndef(dw);
    case 39: case 40:
      if (a.k == V_INT) return mkInt(op == 39 ? a.i & maskw(sw) : sextw(a.i, sw), dw);
      if (a.k == V_SINT) { Range r = op == 39 ? urange(s, a.i) : srange(s, a.i); const INode x = I.n[a.i];
        if (r.ok && x.op == I_LIN) { bool ok = true; for (auto& t : x.t) if (I.n[t.first].op != I_VAR && I.n[t.first].w > dw) ok = false; if (ok) { INode y = x; y.w = dw; return fromExpr(I.mk(std::move(y)), dw); } }
        INode z; z.op = op == 39 ? I_ZEXT : I_SEXT; z.w = dw; z.a = a.i; return fromExpr(I.mk(std::move(z)), dw); }
      if (a.k == V_FS) return cast(s, in, op, fbits(s, a), sw, dw, dt);
      return mkUndef(dw);
    case 41: case 42:
      if (a.k == V_FC) { if (!std::isfinite(a.d)) return mkUndef(dw); return op == 41 ? mkInt((uint64_t) (a.d < 0 ? (uint64_t) (int64_t) a.d : (uint64_t) a.d), dw) : mkInt((int64_t) a.d, dw); }
      if (a.k == V_FS) { if (F.isUninit((Ref) a.i)) return mkUndef(dw); return cast(s, in, op, concFloat(s, a, "conversion of a sample to an integer: followed for concrete samples only"), sw, dw, dt); }
      return mkUndef(dw);
    case 43: case 44:
      if (a.k == V_INT) { double d = op == 43 ? (double) (uint64_t) (a.i & maskw(sw)) : (double) sextw(a.i, sw); if (dw == 32) d = op == 43 ? (double) (float) (uint64_t) (a.i & maskw(sw)) : (double) (float) sextw(a.i, sw); return mkF(d, dw); }
      if (a.k == V_SINT) { int64_t c = concretize(s, a); return cast(s, in, op, mkInt(c, sw), sw, dw, dt); }
      return mkUndef(dw);
    case 45: if (a.k == V_UNDEF) return mkUndef(dw); return F.un(F_TRUNC, a, 32);
    case 46: if (a.k == V_UNDEF) return mkUndef(dw); return F.un(F_EXT, a, 64);
    case 47: if (dw == 64) return a; return cast(s, in, 38, addrOf(s, a), 64, dw, dt);
    case 48: if (a.k == V_INT && a.i == 0) return mkPtr(0, 0); return toPtr(s, a);
  }
  return mkUndef(dw);
}
