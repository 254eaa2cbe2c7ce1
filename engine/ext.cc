// external functions: harness intrinsics, allocator, libc, C++ runtime
#include "exec.h"
static const std::set<std::string> ioFns = {"printf","fprintf","vfprintf","vprintf","puts","putchar","fputs","fputc","putc","fwrite","write","fflush","fopen","fclose","fread","read","perror","syslog","__printf_chk","__fprintf_chk","_ZNSo5flushEv","_ZNSolsEi","_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc"};
static const std::set<std::string> lockFns = {"pthread_mutex_lock","pthread_mutex_unlock","pthread_mutex_trylock","sem_wait","sem_post","pthread_cond_wait","pthread_cond_signal","pthread_rwlock_rdlock","pthread_rwlock_wrlock","pthread_rwlock_unlock","pthread_once","nanosleep","usleep","sleep","sched_yield","pthread_spin_lock","pthread_spin_unlock","_ZNSt6thread4joinEv","mlock","mmap","munmap","getenv","time","clock","gettimeofday","clock_gettime","syscall","abort_"};
bool Engine::external(State& s, const Inst& in, const std::string& n, std::vector<V>& a, V& ret, bool& has) {
  auto I64 = [&](size_t i) { return concretize(s, a[i]); };
  auto setR = [&](V v) { ret = v; has = true; };
  auto rt = [&](const char* cat, const std::string& m) { if (s.region & 1) event(s, cat, m); };
  // ---------- harness intrinsics
  if (n.compare(0, 3, "vp_") == 0) {
    if (n == "vp_int") { std::string nm = cstr(s, a[0]); int64_t lo = I64(1), hi = I64(2); uint32_t v = I.var(nm, lo, hi); uint32_t idx = I.n[v].a; while (s.rng.size() < I.vars.size()) s.rng.push_back({I.vars[s.rng.size()].lo, I.vars[s.rng.size()].hi}); 
      if (s.fix) { auto f = s.fix->find(nm); int64_t v = f != s.fix->end() ? f->second : lo + (int64_t) ((std::hash<std::string>{}(nm) + devRuns * 0x9e3779b97f4a7c15ull) % ((uint64_t) (hi - lo) + 1)); if (v >= lo && v <= hi) lo = hi = v; }
      if (lo == hi) { s.rng[idx] = {lo, hi}; setR(mkInt(lo, 64)); return true; } V r; r.k = V_SINT; r.w = 64; r.i = v; setR(r); return true; }
    if (n == "vp_assume") { V c = a[0]; if (c.k == V_SINT) { V z = icmp(s, 33, c, mkInt(0, c.w), c.w); if (z.k == V_SINT) { int t = checkInt(s, z.i, true, nullptr); if (t != 1) { s.dead = true; return false; } constrain(s, z.i, true); return true; } c = z; } if (c.k == V_INT && c.i == 0) { s.dead = true; return false; } return true; }
    if (n == "vp_cfg") { auto it = O.cfg.find(cstr(s, a[0])); setR(it == O.cfg.end() ? a[1] : mkInt(it->second, 64)); return true; }
    if (n == "vp_buffer") {
      V sz = simp(s, a[1]), al = simp(s, a[2]); Range r = sz.k == V_INT ? Range{sz.i, sz.i, true} : srange(s, sz.i); if (!r.ok || r.hi > (1 << 26)) throw Abort{"buffer size"};
      uint32_t id = newObj(s, OB_CALLER, (uint64_t) r.hi, 64, cstr(s, a[0])); Obj* o = obj(s, id, true); if (sz.k == V_SINT) o->sizeExpr = sz.i;
      if (al.k == V_SINT) o->baseExpr = al.i; else o->base += al.i; setR(mkPtr(id, 0)); return true; }
    if (n == "vp_release") { if (a[0].k == V_PTR && obj(s, a[0].obj)) killObj(s, a[0].obj); return true; }
    if (n == "vp_fill") { // p, n, stream, start
      int64_t cnt = I64(1), st = I64(2), start = I64(3); uint32_t id; int64_t off; if (cnt <= 0) return true; if (!access(s, a[0], cnt * 4, false, 1, id, off)) return true; Obj* o = obj(s, id, true); Lane l{T_F32, 32, 4, 0};
      for (int64_t i = 0; i < cnt; i++) storeLane(s, o, id, off + 4 * i, l, mkFS(F.x(st, start + i), 32)); return true; }
    if (n == "vp_lit") { setR(mkFS(F.x(I64(0), I64(1)), 32)); return true; }
    if (n == "vp_undef") { int64_t b = I64(1); uint32_t id; int64_t off; if (b <= 0) return true; if (!access(s, a[0], b, false, 1, id, off)) return true; Obj* o = obj(s, id, true); for (int64_t i = 0; i < b; i++) setByte(o, off + i, 0, false); return true; }
    if (n == "vp_readonly") { if (a[0].k == V_PTR) { Obj* o = obj(s, a[0].obj, true); if (o) o->ro = I64(1); } return true; }
    if (n == "vp_wild") { wildStreams.insert((int) I64(0)); return true; }
    if (n == "vp_streambox") { F.streamBox[I64(0)] = a[1].d; return true; }
    if (n == "vp_close") { oClose(s, a[0], a[1], a[2].d, cstr(s, a[3]), I64(4), true); return true; }
    if (n == "vp_near") { oClose(s, a[0], a[1], a[2].d, cstr(s, a[3]), I64(4), false); return true; }
    if (n == "vp_same") { oSame(s, a[0], a[1], cstr(s, a[2]), I64(3), 0, 1, 0, 0); return true; }
    if (n == "vp_negated") { oSame(s, a[0], a[1], cstr(s, a[2]), I64(3), 1, 1, 0, 0); return true; }
    if (n == "vp_scaled") { oSame(s, a[0], a[1], cstr(s, a[5]), I64(6), 2, a[2].d, (int) I64(3), (int) I64(4)); return true; }
    if (n == "vp_indep") { oIndep(s, a[0], (int) I64(1), I64(2), I64(3), cstr(s, a[4]), I64(5)); return true; }
    if (n == "vp_assert") { std::string tag = cstr(s, a[1]); oblig++; tagCount[tag]++; V c = simp(s, a[0]);
      if (c.k == V_UNDEF) { event(s, "uninit_out", "checked value " + tag + " is undetermined"); fail(s, "assert", tag, I64(2), "condition undetermined", nullptr, {}); return true; }
      if (c.k == V_INT) { if (!c.i) fail(s, "assert", tag, I64(2), "condition false", nullptr, {}); else structural++; return true; }
      if (c.k == V_SINT) { V z = icmp(s, 33, c, mkInt(0, c.w), c.w); if (z.k == V_INT) { if (!z.i) fail(s, "assert", tag, I64(2), "condition false", nullptr, {}); return true; } std::vector<int64_t> m; obligDistinct++; int r = checkInt(s, z.i, false, &m); if (r == 1) fail(s, "assert", tag, I64(2), "condition can be false", &m, {}); else if (r == 2) { incomplete = true; incompleteWhy = "solver gave no answer"; } return true; }
      fail(s, "assert", tag, I64(2), "condition depends on samples", nullptr, {}); return true; }
    if (n == "vp_emit") { std::string tag = cstr(s, a[0]); int64_t i = I64(1); if (emitKeys.insert({tag, i}).second) { Emit e; e.tag = tag; e.idx = i; if (a[2].k == V_FS) e.l = F.lin(a[2].i); else if (a[2].k == V_FC) e.l.k = a[2].d; else if (a[2].k == V_UNDEF) e.l.uninit = true; emits.push_back(e); }
      if (s.logOn && s.log.size() < 20000) { LogVal l{}; if (a[2].k == V_FS) l.r = a[2].i; else { l.isConst = true; l.k = a[2].k == V_FC ? a[2].d : NAN; } s.log.push_back(l); } return true; }
    if (n == "vp_emitd") { std::string tag = cstr(s, a[0]); int64_t i = I64(1); if (emitKeys.insert({tag, i}).second) { Emit e; e.tag = tag; e.idx = i; if (a[2].k == V_FC) e.l.k = a[2].d; else e.l.uninit = true; emits.push_back(e); } return true; }
    if (n == "vp_region") { s.region = I64(0); s.stackMax = s.stackUse; return true; }
    if (n == "vp_stack") { setR(mkInt(s.stackMax, 64)); return true; }
    if (n == "vp_io_count") { setR(mkInt(s.ioCount, 64)); return true; }
    if (n == "vp_alloc_count") { setR(mkInt(s.allocCount, 64)); return true; }
    if (n == "vp_room") { V p = a[0]; if (p.k == V_INT) p = toPtr(s, p); Obj* o = p.k == V_PTR ? obj(s, p.obj) : nullptr; setR(mkInt(o && o->kind == OB_HEAP ? (int64_t) o->size - p.i : -1, 64)); return true; }
    if (n == "vp_live") { setR(mkInt(s.liveHeap, 64)); return true; }
    if (n == "vp_fail_alloc") { V v = simp(s, a[0]); if (v.k == V_INT) { s.failAt = v.i < 0 || sextw(v.i, 64) < 0 ? -1 : s.allocCount + v.i; s.failAtE = 0; } else { V t = lin2(v, 1, mkInt(s.allocCount, 64), 1, 64); s.failAtE = t.i; s.failAt = -1; } return true; }
    if (n == "vp_heap_mod") { V v = simp(s, a[0]); if (v.k == V_INT) { s.heapMod = v.i; s.heapModE = 0; } else s.heapModE = v.i; return true; }
    if (n == "vp_track") { s.trackDirty = I64(0); return true; }
    if (n == "vp_havoc") { // replace every float cell of heap objects written while tracking by an arbitrary value; returns their number
      int64_t st = I64(0); int64_t k = 0; Lane l{T_F32, 32, 4, 0}; auto d = s.dirty;
      for (auto& c : d) { Obj* o = obj(s, c.first, true); if (!o) continue; V cur = loadLane(s, o, c.second, l); if (cur.k != V_FS) { if (cur.k == V_FC) { /* concrete sample-like cell */ } else continue; } storeLane(s, o, c.first, c.second, l, mkFS(F.x(st, k++), 32)); }
      setR(mkInt(k, 64)); return true; }
    if (n == "vp_state") { // k-th tracked cell
      int64_t k = I64(0); int64_t j = 0; Lane l{T_F32, 32, 4, 0}; V r = mkUndef(32); for (auto& c : s.dirty) { Obj* o = obj(s, c.first); if (!o) continue; V cur = loadLane(s, o, c.second, l); if (cur.k != V_FS && cur.k != V_FC) continue; if (j++ == k) { r = cur; break; } } setR(r); return true; }
    if (n == "vp_reach") { reach[cstr(s, a[0])]++; return true; }
    if (n == "vp_symbolic") { setR(mkInt(1, 32)); return true; }
    if (n == "vp_concrete") { setR(mkInt(I64(0), 64)); return true; }
    if (n == "vp_fresh") { size_t g = 1 + M.globals.size(); if (I64(0)) { s.savedGlobals.assign(s.mem.begin(), s.mem.begin() + g); std::copy(baseMem.begin(), baseMem.end(), s.mem.begin()); } else { std::copy(s.savedGlobals.begin(), s.savedGlobals.end(), s.mem.begin()); s.savedGlobals.clear(); } return true; }
    if (n == "vp_end") { finish(s); s.dead = true; return false; }
    if (n == "vp_inconclusive") { incomplete = true; incompleteWhy = cstr(s, a[0]); return true; }
    if (n == "vp_opaque") { setR(a[0]); return true; }
    if (n == "vp_rt_lock") { if (s.region & 1) event(s, "rt_lock", "lock while processing"); return true; }
    throw Abort{"unknown intrinsic " + n};
  }
  // ---------- allocator
  auto alloc = [&](V szv, int align, int family, bool nothrow, V* out) -> bool {   // false: threw
    if (s.region & 1) event(s, "rt_alloc", "memory allocation while processing");
    int64_t sz = concretize(s, szv);
    bool failNow = false;
    if (s.failAtE) { V e = icmp(s, 32, fromExpr(s.failAtE, 64), mkInt(s.allocCount, 64), 64); failNow = decide(s, e); } else if (s.failAt >= 0) failNow = s.failAt == s.allocCount;
    s.allocCount++;
    if (sz < 0 || sz > (1ll << 30)) failNow = true;
    if (failNow) { if (nothrow) { *out = mkPtr(0, 0); return true; } V t; t.k = V_INT; t.i = 0; throwExc(s, mkPtr(0, 1), t); return false; }
    uint32_t id = newObj(s, OB_HEAP, sz, align, "#" + std::to_string(s.allocCount) + " of " + where(s, nullptr, nullptr).substr(0, 50)); Obj* o = obj(s, id, true); o->family = family; o->allocIdx = s.allocCount;
    if (align <= 16) { if (s.heapModE) o->baseExpr = s.heapModE; else o->base += s.heapMod; }
    s.liveHeap++; *out = mkPtr(id, 0); return true; };
  auto dealloc = [&](V p, int family) {
    if (s.region & 1) event(s, "rt_alloc", "memory release while processing");
    if (p.k == V_INT) p = toPtr(s, p); if (p.k == V_PTRS) p = mkPtr(p.obj, concretize(s, fromExpr(p.i, 64)));
    if (p.k != V_PTR) { event(s, "uninit_addr", "release of an undetermined pointer"); return; }
    if (p.obj == 0) { if (p.i) event(s, "bad_free", "release of an invalid pointer"); return; }
    Obj* o = obj(s, p.obj); if (!o) { event(s, "double_free", "memory released twice"); return; }
    if (o->kind != OB_HEAP || p.i != 0) { event(s, "bad_free", "release of memory that was not allocated at this address"); return; }
    if (o->family != family) event(s, "mismatched_free", "allocation and release functions do not match");
    s.liveHeap--; killObj(s, p.obj); };
  if (n == "malloc") { V o; alloc(a[0], 16, 0, true, &o); setR(o); return true; }
  if (n == "calloc") { V t = ibin(s, 17, a[0], a[1], 64); V o; alloc(t, 16, 0, true, &o); if (o.k == V_PTR && o.obj) setMem(s, o, mkInt(0, 8), t); setR(o); return true; }
  if (n == "realloc") { int64_t ns = I64(1); V o; alloc(a[1], 16, 0, true, &o); if (o.obj && a[0].k == V_PTR && a[0].obj) { Obj* p = obj(s, a[0].obj); if (p) copyMem(s, o, a[0], mkInt(std::min<uint64_t>(p->size, ns), 64), false); dealloc(a[0], 0); } setR(o); return true; }
  if (n == "aligned_alloc" || n == "memalign") { V o; alloc(a[1], (int) I64(0), 0, true, &o); setR(o); return true; }
  if (n == "posix_memalign") { int64_t al = I64(1); V o; alloc(a[2], (int) al, 0, true, &o); if (o.obj == 0) { setR(mkInt(12, 32)); return true; } uint32_t id; int64_t off; if (access(s, a[0], 8, true, 1, id, off)) { Lane l{T_PTR, 64, 8, 0}; storeLane(s, obj(s, id, true), id, off, l, o); } setR(mkInt(0, 32)); return true; }
  if (n == "_mm_malloc") { V o; alloc(a[0], (int) I64(1), 0, true, &o); setR(o); return true; }
  if (n == "free" || n == "_mm_free") { dealloc(a[0], 0); return true; }
  if (n == "_Znwm" || n == "_Znam") { V o; if (!alloc(a[0], 16, n == "_Znam" ? 2 : 1, false, &o)) return false; setR(o); return true; }
  if (n == "_ZnwmSt11align_val_t" || n == "_ZnamSt11align_val_t") { V o; if (!alloc(a[0], (int) I64(1), n[3] == 'a' ? 2 : 1, false, &o)) return false; setR(o); return true; }
  if (n == "_ZnwmRKSt9nothrow_t" || n == "_ZnamRKSt9nothrow_t") { V o; alloc(a[0], 16, n[3] == 'a' ? 2 : 1, true, &o); setR(o); return true; }
  if (n == "_ZdlPv" || n == "_ZdlPvm" || n == "_ZdlPvSt11align_val_t" || n == "_ZdlPvmSt11align_val_t" || n == "_ZdlPvRKSt9nothrow_t") { dealloc(a[0], 1); return true; }
  if (n == "_ZdaPv" || n == "_ZdaPvm" || n == "_ZdaPvSt11align_val_t" || n == "_ZdaPvRKSt9nothrow_t") { dealloc(a[0], 2); return true; }
  // ---------- C++ runtime
  if (n == "__cxa_allocate_exception") { rt("rt_throw", "exception thrown while processing"); uint32_t id = newObj(s, OB_STACK, std::max<int64_t>(8, I64(0)), 16, "exception"); setR(mkPtr(id, 0)); return true; }
  if (n == "__cxa_free_exception") return true;
  if (n == "__cxa_throw") { throwExc(s, a[0], a[1]); return false; }
  if (n == "__cxa_begin_catch") { s.caught.push_back({s.exc, s.excType}); setR(a[0]); return true; }
  if (n == "__cxa_end_catch") { if (!s.caught.empty()) s.caught.pop_back(); return true; }
  if (n == "__cxa_rethrow") { if (!s.caught.empty()) { auto c = s.caught.back(); throwExc(s, c.first, c.second); return false; } }
  if (n == "_ZSt9terminatev" || n == "__clang_call_terminate" || n == "abort" || n == "exit" || n == "_exit" || n == "llvm.trap" || n == "__cxa_pure_virtual" || n == "__cxa_bad_cast" || n == "__cxa_throw_bad_array_new_length") { if (n == "__cxa_throw_bad_array_new_length") { V t; t.k = V_INT; t.i = 5; throwExc(s, mkPtr(0, 1), t); return false; } event(s, "terminate", "program terminated through " + n); s.dead = true; return false; }
  if (n == "__assert_fail") { event(s, "assert_fail", "assertion failed: " + cstr(s, a[0])); s.dead = true; return false; }
  if (n.compare(0, 9, "_ZSt17__t") == 0 || n.compare(0, 11, "_ZSt20__thr") == 0 || n.compare(0, 11, "_ZSt16__thr") == 0 || n.compare(0, 11, "_ZSt28__thr") == 0 || n.compare(0, 11, "_ZSt19__thr") == 0 || n.compare(0, 11, "_ZSt24__thr") == 0 || n.find("__throw_") != std::string::npos) {
    rt("rt_throw", "exception thrown while processing"); V t; t.k = V_INT; t.i = n.find("bad_alloc") != std::string::npos ? 0 : n.find("length") != std::string::npos ? 1 : n.find("range") != std::string::npos ? 4 : n.find("array_new") != std::string::npos ? 5 : 2; throwExc(s, mkPtr(0, 1), t); return false; }
  if (n.compare(0, 19, "llvm.eh.typeid.for") == 0 || n.compare(0, 18, "llvm.eh.typeid.for") == 0) { setR(mkInt(a[0].k == V_PTR && a[0].obj ? a[0].obj : 100000, 32)); return true; }
  if (n == "__cxa_guard_acquire") { rt("rt_lock", "lock of a function-local static while processing"); uint32_t id; int64_t off; if (!access(s, a[0], 1, false, 1, id, off)) return true; Obj* o = obj(s, id, true); bool i1, i2; uint8_t b = byteAt(o, off, i1, i2); if (b) { setR(mkInt(0, 32)); return true; } s.guard++; setR(mkInt(1, 32)); return true; }
  if (n == "__cxa_guard_release") { uint32_t id; int64_t off; if (access(s, a[0], 1, true, 1, id, off)) setByte(obj(s, id, true), off, 1, true); if (s.guard) s.guard--; return true; }
  if (n == "__cxa_guard_abort") { if (s.guard) s.guard--; return true; }
  if (n == "__cxa_atexit" || n == "__cxa_thread_atexit" || n == "atexit") { setR(mkInt(0, 32)); return true; }
  if (n == "_ZNSt8ios_base4InitC1Ev" || n == "_ZNSt8ios_base4InitD1Ev") return true;
  if (n.compare(0, 4, "_ZNS") == 0 && (n.find("errorC1E") != std::string::npos || n.find("errorC2E") != std::string::npos || n.find("errorD") != std::string::npos || n.find("out_of_rangeC") != std::string::npos || n.find("invalid_argumentC") != std::string::npos || n.find("exceptionD") != std::string::npos || n.find("bad_allocD") != std::string::npos)) return true;   // standard exception objects: contents are not modelled
  // ---------- memory and strings
  if (n.compare(0, 11, "llvm.memcpy") == 0 || n == "memcpy" || n.compare(0, 12, "llvm.memmove") == 0 || n == "memmove") { bool mv = n.find("memmove") != std::string::npos; V d = a[0]; copyMem(s, a[0], a[1], a[2], mv); if (n[0] != 'l') setR(d); return true; }
  if (n.compare(0, 11, "llvm.memset") == 0 || n == "memset") { setMem(s, a[0], a[1], a[2]); if (n[0] != 'l') setR(a[0]); return true; }
  if (n == "strlen") { setR(mkInt(cstr(s, a[0]).size(), 64)); return true; }
  if (n == "strcmp") { int r = cstr(s, a[0]).compare(cstr(s, a[1])); setR(mkInt((int64_t) (r < 0 ? -1 : r > 0), 32)); return true; }
  if (n == "strncmp") { int64_t k = I64(2); int r = cstr(s, a[0]).substr(0, k).compare(cstr(s, a[1]).substr(0, k)); setR(mkInt((int64_t) (r < 0 ? -1 : r > 0), 32)); return true; }
  if (n == "strstr") { std::string x = cstr(s, a[0]); size_t p = x.find(cstr(s, a[1])); setR(p == std::string::npos ? mkPtr(0, 0) : mkPtr(a[0].obj, a[0].i + p)); return true; }
  if (n == "memcmp") { int64_t k = I64(2); uint32_t i1, i2; int64_t o1, o2; if (k <= 0) { setR(mkInt(0, 32)); return true; } if (!access(s, a[0], k, false, 1, i1, o1) || !access(s, a[1], k, false, 1, i2, o2)) { setR(mkInt(0, 32)); return true; }
    int r = 0; for (int64_t i = 0; i < k && !r; i++) { bool a1, a2, b1, b2; uint8_t x = byteAt(obj(s, i1), o1 + i, a1, a2), y = byteAt(obj(s, i2), o2 + i, b1, b2); r = (int) x - y; } setR(mkInt((int64_t) r, 32)); return true; }
  if (n == "memchr") { int64_t c = I64(1) & 255, k = I64(2); uint32_t id; int64_t off; for (int64_t i = 0; i < k; i++) { V q = a[0]; q.i += i; if (!access(s, q, 1, false, 1, id, off)) break; bool i1, i2; if (byteAt(obj(s, id), off, i1, i2) == c) { setR(q); return true; } } setR(mkPtr(0, 0)); return true; }
  // ---------- simple intrinsics
  auto fw = [&]() { return in.mem.empty() ? 64 : (int) in.mem[0].w; };
  auto is = [&](const char* p) { return n.compare(0, strlen(p), p) == 0; };
  if (is("llvm.fabs") || n == "fabs" || n == "fabsf") { int L = in.lanes; std::vector<V> r; for (int i = 0; i < L; i++) r.push_back(a[i].k == V_UNDEF ? a[i] : F.un(F_ABS, a[i], fw())); vecRet = r; return true; }
  if (is("llvm.sqrt") || n == "sqrt" || n == "sqrtf") { int L = in.lanes; std::vector<V> r; for (int i = 0; i < L; i++) r.push_back(a[i].k == V_UNDEF ? a[i] : F.un(F_SQRT, a[i], fw())); vecRet = r; return true; }
  if (is("llvm.umin") || is("llvm.umax") || is("llvm.smin") || is("llvm.smax")) { int p = is("llvm.umin") ? 36 : is("llvm.umax") ? 34 : is("llvm.smin") ? 40 : 38; bool b = decide(s, icmp(s, p, a[0], a[1], in.ty.w)); setR(b ? a[0] : a[1]); return true; }
  if (is("llvm.abs")) { V neg = icmp(s, 40, a[0], mkInt(0, in.ty.w), in.ty.w); bool b = decide(s, neg); setR(b ? ibin(s, 15, mkInt(0, in.ty.w), a[0], in.ty.w) : a[0]); return true; }
  if (is("llvm.minnum") || is("llvm.maxnum") || n == "fminf" || n == "fmaxf" || n == "fmin" || n == "fmax" || is("llvm.x86.sse.min") || is("llvm.x86.sse.max")) { bool mn = n.find("min") != std::string::npos; int L = in.lanes; std::vector<V> r; for (int i = 0; i < L; i++) { V c = fcmp(s, mn ? 4 : 2, a[i], a[L + i], fw()); bool b = decide(s, c); r.push_back(b ? a[i] : a[L + i]); } if (n.find(".ss") != std::string::npos) for (int i = 1; i < L; i++) r[i] = a[i]; vecRet = r; return true; }
  if (is("llvm.threadlocal.address") || is("llvm.launder.invariant") || is("llvm.strip.invariant") || is("llvm.ptr.annotation") || is("llvm.ssa.copy") || is("llvm.arithmetic.fence")) { vecRet = {a.begin(), a.begin() + std::max<size_t>(1, in.lanes)}; return true; }
  if (n == "__cxa_thread_atexit" || n == "__cxa_atexit") { setR(mkInt(0, 32)); return true; }
  if (is("llvm.va_start")) { // all register slots used up, arguments in the overflow area
    Frame& f = s.fr.back(); uint32_t ov = newObj(s, OB_STACK, 8 * std::max<size_t>(1, f.va.size()), 16, "variable arguments"); s.fr.back().allocas.push_back(ov); std::vector<V> va = s.fr.back().va;
    for (size_t i = 0; i < va.size(); i++) { const V& v = va[i]; Lane l{v.k == V_PTR || v.k == V_PTRS ? T_PTR : v.k == V_FC || v.k == V_FS ? T_F64 : T_INT, 64, 8, 0}; if (l.t == T_INT && v.w <= 32) { l.w = 32; l.bytes = 4; } if (v.k != V_UNDEF) storeLane(s, obj(s, ov, true), ov, 8 * i, l, v); }
    uint32_t id; int64_t off; if (!access(s, a[0], 24, true, 1, id, off)) return true; Obj* o = obj(s, id, true); Lane li{T_INT, 32, 4, 0}, lp{T_PTR, 64, 8, 0};
    storeLane(s, o, id, off, li, mkInt(48, 32)); storeLane(s, o, id, off + 4, li, mkInt(176, 32)); storeLane(s, o, id, off + 8, lp, mkPtr(ov, 0)); storeLane(s, o, id, off + 16, lp, mkPtr(0, 0)); return true; }
  if (is("llvm.va_end")) return true;
  if (is("llvm.va_copy")) { copyMem(s, a[0], a[1], mkInt(24, 64), false); return true; }
  if (is("llvm.is.constant")) { setR(mkInt(0, 1)); return true; }
  if (is("llvm.expect")) { setR(a[0]); return true; }
  if (is("llvm.objectsize")) { setR(mkInt(-1, in.ty.w)); return true; }
  if (is("llvm.stacksave")) { Frame& f = s.fr.back(); f.stacksave.push_back({f.allocas.size(), 0}); setR(mkInt(f.stacksave.size() - 1, 64)); return true; }
  if (is("llvm.stackrestore")) { Frame& f = s.fr.back(); if (a[0].k == V_INT && (size_t) a[0].i < f.stacksave.size()) { size_t k = f.stacksave[a[0].i].first; while (f.allocas.size() > k) { Obj* o = obj(s, f.allocas.back()); if (o) { s.stackUse -= o->size; f.stackBytes -= o->size; killObj(s, f.allocas.back()); } f.allocas.pop_back(); } f.stacksave.resize(a[0].i); } return true; }
  if (is("llvm.ptrmask")) { V v = ibin(s, 28, addrOf(s, a[0]), a[1], 64); setR(toPtr(s, v)); return true; }
  if (is("llvm.umul.with.overflow") || is("llvm.uadd.with.overflow") || is("llvm.usub.with.overflow") || is("llvm.sadd.with.overflow") || is("llvm.smul.with.overflow") || is("llvm.ssub.with.overflow")) {
    int w = in.ty.w; int64_t x = I64(0), y = I64(1); __int128 X, Y, Rr; if (n[5] == 'u') { X = (uint64_t) x & maskw(w); Y = (uint64_t) y & maskw(w); } else { X = x; Y = y; } Rr = n.substr(6, 3) == "mul" ? X * Y : n.substr(6, 3) == "add" ? X + Y : X - Y;
    bool ov = n[5] == 'u' ? (Rr < 0 || Rr > (__int128) maskw(w)) : (Rr > (__int128) (maskw(w) >> 1) || Rr < -(__int128) (maskw(w) >> 1) - 1); vecRet = {mkInt((uint64_t) Rr, w), mkInt(ov, 1)}; return true; }
  if (is("llvm.ctpop") || is("llvm.ctlz") || is("llvm.cttz") || is("llvm.bswap")) { uint64_t x = (uint64_t) I64(0) & maskw(in.ty.w); int w = in.ty.w; uint64_t r = 0; if (is("llvm.ctpop")) r = __builtin_popcountll(x); else if (is("llvm.ctlz")) r = x ? __builtin_clzll(x) - (64 - w) : w; else if (is("llvm.cttz")) r = x ? __builtin_ctzll(x) : w; else r = __builtin_bswap64(x) >> (64 - w); setR(mkInt(r, w)); return true; }
  static const std::map<std::string, double (*)(double)> m1 = {{"sin", sin}, {"cos", cos}, {"exp", exp}, {"log", log}, {"tan", tan}, {"floor", floor}, {"ceil", ceil}, {"tanh", tanh}, {"log10", log10}, {"exp2", exp2}, {"log2", log2}, {"round", round}, {"trunc", trunc}, {"rint", rint}, {"asin", asin}, {"acos", acos}, {"atan", atan}};
  { std::string b = n; if (is("llvm.")) { b = n.substr(5); b = b.substr(0, b.find('.')); } else if (b.size() > 1 && b.back() == 'f' && m1.count(b.substr(0, b.size() - 1))) b = b.substr(0, b.size() - 1);
    auto it = m1.find(b); if (it != m1.end() && a.size() >= 1) { int w = fw(); if (a[0].k == V_FC) { double d = it->second(a[0].d); setR(mkF(w == 32 ? (double) (float) d : d, w)); } else if (a[0].k == V_UNDEF) setR(a[0]); else setR(mkFS(F.mk(F_OPAQUE, w == 64, F.toRef(a[0], w), std::hash<std::string>{}(b) & 0xffff, 9, 0), w)); return true; } }
  if (n == "pow" || n == "powf" || is("llvm.pow.")) { int w = fw(); if (a[0].k == V_FC && a[1].k == V_FC) { double d = pow(a[0].d, a[1].d); setR(mkF(w == 32 ? (double) (float) d : d, w)); } else setR(mkFS(F.mk(F_OPAQUE, w == 64, F.toRef(a[0], w), F.toRef(a[1], w), 10, 0), w)); return true; }
  if (n == "rand" || n == "random" || n == "lrand48") { s.rnd = s.rnd * 6364136223846793005ull + 1442695040888963407ull; setR(mkInt((int64_t) (s.rnd >> 33), in.ty.w)); return true; }
  if (n == "srand" || n == "srandom" || n == "srand48") { s.rnd = I64(0); return true; }
  auto word = [&](const V& p, int at, bool wr, uint32_t v) -> uint32_t { uint32_t id; int64_t off; V q = p; q.i += at; if (!access(s, q, 4, wr, 1, id, off)) return v; Lane l{T_INT, 32, 4, 0}; if (wr) { storeLane(s, obj(s, id, true), id, off, l, mkInt(v, 32)); return v; } V r = loadLane(s, obj(s, id), off, l); return r.k == V_INT ? (uint32_t) r.i : v; };
  if (is("llvm.x86.sse.ldmxcsr")) { s.csr = word(a[0], 0, false, s.csr); return true; }
  if (is("llvm.x86.sse.stmxcsr")) { word(a[0], 0, true, s.csr); return true; }
  if (n == "fesetround") { s.csr = (s.csr & ~0x6000u) | ((uint32_t) I64(0) & 0xc00) << 3; setR(mkInt(0, 32)); return true; }
  if (n == "fegetround") { setR(mkInt((s.csr & 0x6000) >> 3, 32)); return true; }
  if (n == "fegetenv" || n == "feholdexcept") { word(a[0], 28, true, s.csr); if (n[2] == 'h') s.csr |= 0x1f80; setR(mkInt(0, 32)); return true; }
  if (n == "fesetenv" || n == "feupdateenv") { s.csr = a[0].k == V_PTR && a[0].obj ? word(a[0], 28, false, s.csr) : 0x1f80; setR(mkInt(0, 32)); return true; }
  if (n == "feenableexcept" || n == "fedisableexcept") { int64_t m = (I64(0) & 0x3d) << 7; if (n[2] == 'e') s.csr &= ~m; else s.csr |= m; setR(mkInt(0, 32)); return true; }
  if (n == "feclearexcept" || n == "feraiseexcept" || n == "fetestexcept") { setR(mkInt(0, 32)); return true; }
  if (is("llvm.x86.sse.sfence") || is("llvm.x86.sse2.")) return true;
  // ---------- I/O and system
  if (ioFns.count(n)) { s.ioCount++; rt("rt_io", "I/O while processing (" + n + ")"); if (in.dst >= 0) setR(in.ty.t == T_PTR ? mkPtr(0, 0) : mkInt(1, in.ty.w)); return true; }
  if (lockFns.count(n)) { rt("rt_lock", "lock or system call while processing (" + n + ")"); if (in.dst >= 0) setR(in.ty.t == T_PTR ? mkPtr(0, 0) : mkInt(0, in.ty.w)); return true; }
  unsupported.insert("external function " + n);
  throw Abort{"unsupported external function " + n};
}
