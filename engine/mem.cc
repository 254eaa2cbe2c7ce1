// memory model: objects with exact (possibly symbolic) sizes, per-byte initialisation, symbolic cells
#include "exec.h"
static const uint32_t SLOTMASK = 0xfffff;
Obj* Engine::obj(State& s, uint32_t id, bool write) {
  uint32_t slot = id & SLOTMASK; if (slot >= s.mem.size() || !s.mem[slot]) return nullptr;
  if (slot >= dynBase && s.mem[slot]->gen != (id >> 20)) return nullptr;
  if (write && s.mem[slot].use_count() > 1) s.mem[slot] = std::make_shared<Obj>(*s.mem[slot]);
  return s.mem[slot].get();
}
uint32_t Engine::newObj(State& s, uint8_t kind, uint64_t size, int align, const std::string& name) {
  uint32_t slot;
  if (!s.freeSlots.empty()) { slot = s.freeSlots.back(); s.freeSlots.pop_back(); } else { slot = s.mem.size(); s.mem.push_back(nullptr); s.gens.resize(s.mem.size(), 0); if (slot > SLOTMASK) throw Abort{"too many objects"}; }
  auto o = std::make_shared<Obj>(); o->kind = kind; o->size = size; o->slot = slot; o->gen = s.gens[slot]; o->name = name;
  o->g.resize((size + 3) / 4 + 1); for (auto& g : o->g) { g.k = V_BYTES; g.w = 0; g.i = 0; }
  uint64_t al = align < 64 ? 64 : align; s.nextBase = (s.nextBase + al - 1) / al * al; o->base = s.nextBase;
  s.nextBase += size + 256;
  s.mem[slot] = o; return slot | (o->gen << 20);
}
void Engine::killObj(State& s, uint32_t id) {
  uint32_t slot = id & SLOTMASK; s.mem[slot] = nullptr; s.gens[slot] = (s.gens[slot] + 1) & 0xfff; s.freeSlots.insert(s.freeSlots.begin(), slot);
}
V Engine::addrOf(State& s, const V& p) {
  if (p.obj == 0) return p.k == V_PTR ? mkInt(p.i, 64) : fromExpr(p.i, 64);
  if (p.obj >= funcBase() && p.obj < dynBase) return mkInt(0x1000 + 16 * (uint64_t) p.obj + p.i, 64);
  Obj* o = obj(s, p.obj); V off = p.k == V_PTR ? mkInt(p.i, 64) : fromExpr(p.i, 64);
  if (!o) return mkUndef(64);
  V b = mkInt(o->base, 64); if (o->baseExpr) b = lin2(b, 1, fromExpr(o->baseExpr, 64), 1, 64);
  return lin2(b, 1, off, 1, 64);
}
V Engine::toPtr(State& s, V v) {
  if (v.k == V_PTR || v.k == V_PTRS || v.k == V_UNDEF) return v;
  if (v.k == V_SINT) {
    // base + symbolic rest: attribute it to the unique object whose (possibly symbolic) address range contains the value
    for (size_t i = 1; i < s.mem.size(); i++) if (s.mem[i] && s.mem[i]->kind != OB_FUNC) {
      Obj* o = s.mem[i].get(); V b = mkInt(o->base, 64); if (o->baseExpr) b = lin2(b, 1, fromExpr(o->baseExpr, 64), 1, 64);
      V d = lin2(v, 1, b, -1, 64);
      uint32_t oid = i >= dynBase ? (i | (o->gen << 20)) : i;
      if (d.k == V_INT) { if (sextw(d.i, 64) >= -128 && sextw(d.i, 64) <= (int64_t) o->size + 128) return mkPtr(oid, sextw(d.i, 64)); continue; }
      Range r = srange(s, d.i); if (r.ok && r.lo >= -192 && r.hi <= (__int128) o->size + 192) { V p; p.k = V_PTRS; p.w = 64; p.obj = oid; p.i = d.i; return p; }
    }
    int64_t c = concretize(s, v); v = mkInt(c, 64);
  }
  if (v.k == V_INT) {
    if (v.i == 0) return mkPtr(0, 0);
    for (size_t i = 1; i < s.mem.size(); i++) if (s.mem[i]) { Obj* o = s.mem[i].get(); int64_t be = 0; if (o->baseExpr) { uint64_t e; if (!evalC(s, o->baseExpr, e)) continue; be = e; }
      int64_t d = v.i - (int64_t) (o->base + be); if (d >= -64 && d <= (int64_t) o->size + 64) return mkPtr(i >= dynBase ? (i | (o->gen << 20)) : i, d); }
    return mkPtr(0, v.i);
  }
  return mkUndef(64);
}
bool Engine::access(State& s, V p, uint64_t size, bool write, int align, uint32_t& id, int64_t& off, bool vec) {
  if (p.k == V_INT || p.k == V_SINT) p = toPtr(s, p);
  if (p.k != V_PTR && p.k != V_PTRS) { event(s, "uninit_addr", "access through an undetermined pointer"); return false; }
  if (p.obj == 0) { event(s, "null", write ? "write through a null or invalid pointer" : "read through a null or invalid pointer"); return false; }
  if (p.obj >= funcBase() && p.obj < dynBase) { event(s, "oob_read", "data access to a function"); return false; }
  Obj* o = obj(s, p.obj);
  if (!o) { event(s, "uaf", std::string(write ? "write to" : "read from") + " a freed or out-of-scope object"); return false; }
  if (p.k == V_PTRS) { V c = simp(s, fromExpr(p.i, 64)); 
    if (c.k != V_INT) { int64_t v = concretize(s, c); c = mkInt(v, 64); }
    p = mkPtr(p.obj, sextw(c.i, 64)); o = obj(s, p.obj); }
  off = p.i; id = p.obj;
  const char* kn = o->kind == OB_CALLER ? "caller buffer " : o->kind == OB_HEAP ? "heap object " : o->kind == OB_STACK ? "stack object " : "global ";
  auto desc = [&]() { return std::string(write ? "write of " : "read of ") + std::to_string(size) + " bytes at offset " + std::to_string(off) + " of " + kn + o->name; };
  if (o->sizeExpr) {
    V sz = simp(s, fromExpr(o->sizeExpr, 64));
    if (sz.k == V_INT) { if (off < 0 || off + (int64_t) size > sz.i) { event(s, write ? "oob_write" : "oob_read", desc() + " (size " + std::to_string(sz.i) + ")"); return false; } }
    else {
      if (off < 0) { event(s, write ? "oob_write" : "oob_read", desc()); return false; }
      V in = icmp(s, 41 - 0, mkInt(off + size, 64), sz, 64);   // sle
      if (in.k == V_INT) { if (!in.i) { event(s, write ? "oob_write" : "oob_read", desc()); return false; } }
      else if (in.k == V_SINT) {
        std::vector<int64_t> m; int bad = checkInt(s, in.i, false, &m);
        if (bad) { event(s, write ? "oob_write" : "oob_read", desc() + " (size depends on the block size)", &m); if (!checkInt(s, in.i, true, nullptr)) return false; constrain(s, in.i, true); }
      }
    }
  } else if (off < 0 || off + (int64_t) size > (int64_t) o->size) {
    event(s, write ? "oob_write" : "oob_read", desc() + " (size " + std::to_string(o->size) + ")"); return false; }
  if (align >= 16) {
    V a = addrOf(s, mkPtr(p.obj, off)); V rem = ibin(s, 28, a, mkInt(align - 1, 64), 64); V z = icmp(s, 32, rem, mkInt(0, 64), 64);
    if (z.k == V_INT) { if (!z.i) event(s, "align", "misaligned " + std::to_string(align) + "-byte aligned vector " + desc()); }
    else if (z.k == V_SINT) { std::vector<int64_t> m; if (checkInt(s, z.i, false, &m)) event(s, "align", "misaligned " + std::to_string(align) + "-byte aligned vector " + desc(), &m); }
  }
  if (write) {
    if (o->ro) { event(s, "input_write", desc()); }
    if (o->cst) { event(s, "const_write", desc()); return false; }
    if (o->kind == OB_GLOBAL && !s.guard) { event(s, o->tls ? "tls_write" : "global_write", desc()); }
  }
  return true;
}
uint8_t Engine::byteAt(Obj* o, int64_t off, bool& init, bool& sym) {
  V& g = o->g[off >> 2]; int b = off & 3;
  if (g.k == V_BYTES) { init = (g.w >> b) & 1; sym = false; return (uint8_t) (g.i >> (8 * b)); }
  sym = true; init = true; return 0;
}
static void dropCell(Obj* o, size_t c) {
  V& g = o->g[c];
  if (g.k == V_CONT) { size_t p = c - 1; o->g[p].k = V_BYTES; o->g[p].w = 0; o->g[p].i = 0; o->g[p].fl = 0; }
  else if (g.k != V_BYTES && g.fl == 8 && c + 1 < o->g.size()) { o->g[c + 1].k = V_BYTES; o->g[c + 1].w = 0; o->g[c + 1].i = 0; }
  g.k = V_BYTES; g.w = 0; g.i = 0; g.fl = 0;
}
void Engine::setByte(Obj* o, int64_t off, uint8_t v, bool init) {
  V& g = o->g[off >> 2]; int b = off & 3; if (g.k != V_BYTES) dropCell(o, off >> 2);
  uint64_t m = 0xffull << (8 * b); g.i = (g.i & ~m) | ((uint64_t) v << (8 * b)); if (init) g.w |= 1 << b; else g.w &= ~(1 << b);
}
V Engine::loadLane(State& s, Obj* o, int64_t off, const Lane& l) {
  int nb = l.bytes;
  if ((off & 3) == 0 && nb == 8 && l.t != T_PTR) { // two 4-byte halves, at least one of them symbolic
    V &g = o->g[off >> 2], &h = o->g[(off >> 2) + 1];
    bool gs = g.k != V_BYTES && g.fl == 4, hs = h.k != V_BYTES && h.k != V_CONT && h.fl == 4;
    if ((gs || hs) && (gs || g.k == V_BYTES) && (hs || h.k == V_BYTES)) {
      Lane q{T_F32, 32, 4, 0}; V a = loadLane(s, o, off, q), b = loadLane(s, o, off + 4, q); packs.push_back({a, b}); V v; v.k = V_PACK; v.w = 64; v.i = packs.size() - 1; return v; }
  }
  if ((off & 3) == 0 && nb >= 4) {
    V& g = o->g[off >> 2];
    if (g.k != V_BYTES) {
      if (nb == 4 && g.fl == 4) { V v = g; v.fl = 0; if (l.t == T_F32 && v.k == V_SINT) return mkUndef(32); return v; }
      if (nb == 8 && g.fl == 8) { V v = g; v.fl = 0; return v; }
      if (g.k == V_CONT || g.fl == 8) return mkUndef(l.w);
    } else if (nb == 4) {
      if (g.w != 15) return mkUndef(l.w);
      uint32_t u = (uint32_t) g.i; if (l.t == T_F32) { float f; memcpy(&f, &u, 4); return mkF(f, 32); } return mkInt(u, l.w);
    } else if (nb == 8) {
      V& h = o->g[(off >> 2) + 1];
      if (h.k == V_BYTES) { if (g.w != 15 || h.w != 15) return mkUndef(l.w); uint64_t u = (uint32_t) g.i | ((uint64_t) (uint32_t) h.i << 32);
        if (l.t == T_F64) { double d; memcpy(&d, &u, 8); return mkF(d, 64); } if (l.t == T_PTR) return u ? toPtr(s, mkInt(u, 64)) : mkPtr(0, 0); return mkInt(u, l.w); }
      return mkUndef(l.w);
    }
  }
  uint64_t u = 0; bool all = true;
  for (int i = 0; i < nb && i < 8; i++) { bool in, sy; uint8_t b = byteAt(o, off + i, in, sy); if (!in || sy) all = false; u |= (uint64_t) b << (8 * i); }
  if (!all) return mkUndef(l.w);
  if (l.t == T_F32) { float f; uint32_t x = u; memcpy(&f, &x, 4); return mkF(f, 32); } if (l.t == T_F64) { double d; memcpy(&d, &u, 8); return mkF(d, 64); }
  if (l.t == T_PTR) return u ? toPtr(s, mkInt(u, 64)) : mkPtr(0, 0);
  return mkInt(u, l.w);
}
void Engine::storeLane(State& s, Obj* o, uint32_t id, int64_t off, const Lane& l, V v) {
  int nb = l.bytes;
  if (s.trackDirty && o->kind != OB_CALLER && o->kind != OB_STACK) s.dirty.insert({id, (uint32_t) off});
  o->written = true;
  if (v.k == V_FC || v.k == V_INT || (v.k == V_PTR && v.obj == 0)) {
    uint64_t u; if (v.k == V_FC) { if (l.w == 32 && l.t != T_F64) { float f = (float) v.d; uint32_t x; memcpy(&x, &f, 4); u = x; } else memcpy(&u, &v.d, 8); } else u = v.i & maskw(l.w ? l.w : 64);
    if ((off & 3) == 0 && (nb == 4 || nb == 8)) {
      for (int j = 0; j < nb / 4; j++) { V& g = o->g[(off >> 2) + j]; if (g.k != V_BYTES) dropCell(o, (off >> 2) + j); g.k = V_BYTES; g.w = 15; g.i = (uint32_t) (u >> (32 * j)); g.fl = 0; }
      return; }
    for (int i = 0; i < nb; i++) setByte(o, off + i, i < 8 ? u >> (8 * i) : 0, true);
    return;
  }
  if (v.k == V_PACK && nb == 8) { Lane h{T_F32, 32, 4, 0}; V a = packs[v.i].first, b = packs[v.i].second; storeLane(s, o, id, off, h, a); storeLane(s, o, id, off + 4, h, b); return; }
  if (v.k == V_UNDEF) { for (int i = 0; i < nb; i++) setByte(o, off + i, 0, false); return; }
  if ((off & 3) || (nb != 4 && nb != 8)) { unsupported.insert("unaligned store of a symbolic value"); for (int i = 0; i < nb; i++) setByte(o, off + i, 0, false); return; }
  size_t c = off >> 2;
  for (int j = 0; j < nb / 4; j++) if (o->g[c + j].k != V_BYTES) dropCell(o, c + j);
  o->g[c] = v; o->g[c].fl = nb;
  if (nb == 8) { o->g[c + 1] = V(); o->g[c + 1].k = V_CONT; }
}
void Engine::copyMem(State& s, V d, V src, V n, bool move) {
  int64_t len = concretize(s, n); if (len == 0) return;
  if (len < 0) { event(s, "oob_write", "memory copy of negative (huge) size"); return; }
  uint32_t di, si; int64_t dof, sof; V dd = d, ss = src;
  // resolve symbolic offsets before any effect
  if (!access(s, ss, len, false, 1, si, sof)) { // still mark the destination unknown if possible
    if (access(s, dd, len, true, 1, di, dof)) { Obj* o = obj(s, di, true); for (int64_t i = 0; i < len; i++) setByte(o, dof + i, 0, false); } return; }
  if (!access(s, dd, len, true, 1, di, dof)) return;
  Obj* so = obj(s, si); ObjP keep = s.mem[si & SLOTMASK];
  if (!move && di == si && dof != sof && llabs(dof - sof) < len) event(s, "overlap", "memcpy of overlapping ranges");
  std::vector<V> tmp;
  if ((sof & 3) == 0 && (dof & 3) == 0) {
    size_t cells = len / 4; 
    tmp.assign(keep->g.begin() + sof / 4, keep->g.begin() + sof / 4 + cells);
    std::vector<std::tuple<uint8_t,bool,bool>> tail; for (int64_t i = cells * 4; i < len; i++) { bool in, sy; uint8_t b = byteAt(keep.get(), sof + i, in, sy); tail.push_back({b, in, sy}); }
    keep.reset();
    Obj* o = obj(s, di, true); o->written = true;
    for (size_t i = 0; i < cells; i++) {
      size_t c = dof / 4 + i; if (o->g[c].k != V_BYTES) dropCell(o, c);
      V v = tmp[i];
      if (v.k == V_CONT && i == 0) { v = V(); v.k = V_BYTES; v.w = 0; }
      if (v.k != V_BYTES && v.k != V_CONT && v.fl == 8 && i + 1 == cells) { v = V(); v.k = V_BYTES; v.w = 0; }
      o->g[c] = v;
      if (s.trackDirty && o->kind != OB_CALLER && o->kind != OB_STACK) s.dirty.insert({di, (uint32_t) (c * 4)});
    }
    int64_t i = cells * 4; for (auto& t : tail) { setByte(o, dof + i, std::get<0>(t), std::get<1>(t) && !std::get<2>(t)); i++; }
    return;
  }
  std::vector<std::tuple<uint8_t,bool>> b; for (int64_t i = 0; i < len; i++) { bool in, sy; uint8_t x = byteAt(so, sof + i, in, sy); b.push_back({x, in && !sy}); if (sy) unsupported.insert("unaligned copy of symbolic data"); }
  keep.reset();
  Obj* o = obj(s, di, true); for (int64_t i = 0; i < len; i++) setByte(o, dof + i, std::get<0>(b[i]), std::get<1>(b[i]));
}
void Engine::setMem(State& s, V d, V b, V n) {
  int64_t len = concretize(s, n); if (len == 0) return;
  if (b.k == V_SINT) b = mkInt(concretize(s, b), 8);
  uint32_t id; int64_t off; if (!access(s, d, len, true, 1, id, off)) return;
  Obj* o = obj(s, id, true); o->written = true; uint64_t w = (uint8_t) b.i * 0x01010101u;
  for (int64_t i = 0; i < len;) {
    if (((off + i) & 3) == 0 && len - i >= 4) { size_t c = (off + i) / 4; if (o->g[c].k != V_BYTES) dropCell(o, c); o->g[c].k = V_BYTES; o->g[c].w = b.k == V_INT ? 15 : 0; o->g[c].i = w; o->g[c].fl = 0;
      if (s.trackDirty && o->kind != OB_CALLER && o->kind != OB_STACK) s.dirty.insert({id, (uint32_t) (c * 4)}); i += 4; }
    else { setByte(o, off + i, b.i, b.k == V_INT); i++; }
  }
}
std::string Engine::cstr(State& s, V p) {
  std::string r; if (p.k != V_PTR) return "?"; Obj* o = obj(s, p.obj); if (!o) return "?";
  for (int64_t i = p.i; i < (int64_t) o->size; i++) { bool in, sy; uint8_t b = byteAt(o, i, in, sy); if (!b) break; r += (char) b; }
  return r;
}
