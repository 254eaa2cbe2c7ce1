// interpreter: instructions, calls, exceptions, harness intrinsics, obligations
#include "exec.h"
static double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
Engine::Engine(::Module& m, const Options& o) : M(m), O(o) {
  t0 = std::chrono::steady_clock::now(); dynBase = 1 + M.globals.size() + M.funcs.size(); F.box = O.box; { auto a = O.cfg.find("amp"); if (a != O.cfg.end()) F.box = std::exp2((double) a->second); g_amp = F.box; }
}
State* Engine::clone(State& s) { static int ids = 1; State* n = new State(s); n->id = ids++; return n; }
std::string Engine::where(State& s, int* line, std::string* stack) {
  std::string fn = "?"; if (line) *line = 0; bool first = true; std::string st;
  for (int i = (int) s.fr.size() - 1; i >= 0; i--) {
    Frame& f = s.fr[i]; Func& F = M.funcs[f.fn]; if (f.bb >= (int) F.bbs.size() || f.pc >= (int) F.bbs[f.bb].size()) continue;
    Inst& in = F.bbs[f.bb][f.pc]; std::string file = in.file >= 0 ? M.files[in.file] : "";
    size_t p = file.rfind('/'); std::string base = p == std::string::npos ? file : file.substr(p + 1);
    if (first) { fn = F.pretty; if (line) *line = in.line; first = false; }
    st += (st.empty() ? "" : " < ") + F.pretty.substr(0, 90) + " (" + base + ":" + std::to_string(in.line) + ")";
    if (st.size() > 900) break;
  }
  if (stack) *stack = st; return fn;
}
std::vector<std::pair<std::string,int64_t>> Engine::modelOf(State& s, std::vector<int64_t>* m) {
  std::vector<std::pair<std::string,int64_t>> r; std::vector<int64_t> mm;
  if (!m) {
    mm.clear();
    if (!s.pc.empty()) { INode one; one.op = I_LIN; one.w = 1; one.k = 0; uint32_t o = I.mk(std::move(one)); INode c; c.op = I_CMP; c.w = 1; c.sub = 32; c.a = o; c.b = o; checkInt(s, I.mk(std::move(c)), true, &mm); }
    if (mm.empty()) for (auto& x : s.rng) mm.push_back(x.first);
    m = &mm; }
  for (size_t i = 0; i < I.vars.size(); i++) r.push_back({I.vars[i].name, i < m->size() ? (*m)[i] : I.vars[i].lo});
  return r;
}
void Engine::event(State& s, const std::string& cat, const std::string& msg, std::vector<int64_t>* model) {
  if (++s.bad > 20000) { s.dead = true; incomplete = true; incompleteWhy = "path abandoned after 20000 violations"; }
  int line; std::string stack; std::string fn = where(s, &line, &stack);
  std::string key = cat + fn + std::to_string(line);
  if (eventKeys.size() > 400 || !eventKeys.insert(key).second) return;
  Event e; e.cat = cat; e.msg = msg; e.func = fn; e.line = line; e.stack = stack; e.model = modelOf(s, model); if (s.mdl) e.xs = xsOf(s); events.push_back(e);
}
void Engine::fail(State& s, const std::string& kind, const std::string& tag, int64_t idx, const std::string& detail, std::vector<int64_t>* model, const std::vector<std::tuple<int,int,double>>& xs, double diff) {
  int c = ++failCount[tag]; if (c > O.failLimit) return;
  Fail f; f.kind = kind; f.tag = tag; f.idx = idx; f.detail = detail; f.model = modelOf(s, model); f.xs = xs; f.path = !s.fc.empty() || (s.mdl && !s.mdl->xs.empty()); if (xs.empty() && s.mdl) f.xs = xsOf(s); f.diff = diff; fails.push_back(f);
}
void Engine::kill(State& s, const std::string& why) { s.dead = true; kills++; }
void Engine::popFrame(State& s) { for (uint32_t a : s.fr.back().allocas) if (obj(s, a)) killObj(s, a); s.stackUse -= s.fr.back().stackBytes; s.fr.pop_back(); }
void Engine::takeEdge(State& s, Frame& f, const Edge& e) {
  if (!e.moves.empty()) { static std::vector<V> tmp; tmp.clear(); for (auto& m : e.moves) tmp.push_back(get(f, m.second)); for (size_t i = 0; i < e.moves.size(); i++) f.r[e.moves[i].first] = tmp[i]; }
  f.bb = e.bb; f.pc = 0;
}
void Engine::doReturn(State& s, std::vector<V>& vals) {
  popFrame(s); if (s.fr.empty()) return;
  Frame& f = s.fr.back(); Inst& ci = M.funcs[f.fn].bbs[f.bb][f.pc];
  if (ci.op == O_CALL && ci.dst >= 0) for (int i = 0; i < ci.lanes && i < (int) vals.size(); i++) f.r[ci.dst + i] = vals[i];
  if (ci.e.size() == 2) takeEdge(s, f, ci.e[0]); else f.pc++;
}
void Engine::call(State& s, int fn, std::vector<V>& args, const Inst* ci) {
  Func& F = M.funcs[fn]; funcsRun.insert(fn);
  if (s.fr.size() > 400) { kill(s, "recursion"); incomplete = true; incompleteWhy = "recursion depth"; return; }
  s.fr.emplace_back(); Frame& f = s.fr.back(); f.fn = fn; f.r.resize(F.nregs); for (int i = 0; i < F.nargs && i < (int) args.size(); i++) f.r[i] = args[i];
  if ((int) args.size() > F.nargs) f.va.assign(args.begin() + F.nargs, args.end());
}
bool Engine::typeMatches(const std::string& thrown, const V& tv, const V& c) {
  if (c.k == V_PTR && c.obj == 0) return true;
  if (c.k != V_PTR || c.obj > M.globals.size()) return false;
  std::string want = M.globals[c.obj - 1].name; if (want == thrown) return true;
  auto base = [&](const std::string& n) -> std::string {
    static const std::map<std::string,std::string> B = {{"_ZTISt9bad_alloc","_ZTISt9exception"},{"_ZTISt20bad_array_new_length","_ZTISt9bad_alloc"},{"_ZTISt12length_error","_ZTISt11logic_error"},{"_ZTISt12out_of_range","_ZTISt11logic_error"},{"_ZTISt16invalid_argument","_ZTISt11logic_error"},{"_ZTISt11logic_error","_ZTISt9exception"},{"_ZTISt13runtime_error","_ZTISt9exception"}};
    auto i = B.find(n); if (i != B.end()) return i->second;
    auto g = M.gidx.find(n); if (g != M.gidx.end()) for (auto& r : M.globals[g->second].relocs) if (r.off == 16 && r.v.obj && r.v.obj <= M.globals.size()) return M.globals[r.v.obj - 1].name;
    return ""; };
  std::string t = thrown; for (int i = 0; i < 8 && !t.empty(); i++) { if (t == want) return true; t = base(t); }
  return false;
}
static std::string typeName(::Module& M, const V& t) { if (t.k == V_PTR && t.obj && t.obj <= M.globals.size()) return M.globals[t.obj - 1].name; return t.k == V_INT ? "" : "?"; }
static const char* builtinTypes[] = {"_ZTISt9bad_alloc", "_ZTISt12length_error", "_ZTISt11logic_error", "_ZTISt17bad_function_call", "_ZTISt12out_of_range", "_ZTISt20bad_array_new_length"};
void Engine::throwExc(State& s, V ptr, V type) {
  s.exc = ptr; s.excType = type; std::string tn = type.k == V_INT ? builtinTypes[type.i] : typeName(M, type);
  while (!s.fr.empty()) {
    Frame& f = s.fr.back(); Inst& ci = M.funcs[f.fn].bbs[f.bb][f.pc];
    if (ci.op == O_CALL && ci.e.size() == 2) {
      const std::vector<Inst>& bb = M.funcs[f.fn].bbs[ci.e[1].bb]; const Inst* lp = nullptr; for (auto& x : bb) if (x.op == O_LANDINGPAD) { lp = &x; break; }
      int sel = 0; bool enter = lp && lp->cleanup;
      if (lp) for (auto& c : lp->clauses) { if (c.first == 1) { enter = true; continue; } V cv = M.funcs[f.fn].consts[~c.second]; if (typeMatches(tn, type, cv)) { sel = cv.obj ? cv.obj : 100000; enter = true; break; } }
      if (enter) { const Inst& L = *lp; takeEdge(s, f, ci.e[1]); while (M.funcs[f.fn].bbs[f.bb][f.pc].op != O_LANDINGPAD) f.pc++; f.r[L.dst] = ptr; f.r[L.dst + 1] = mkInt(sel, 32); f.pc++; return; }
    }
    popFrame(s);
  }
  // no frame left
  int l = 0; Event e; e.cat = "uncaught"; e.msg = "exception " + tn + " left the harness"; e.func = "main"; e.line = 0; e.model = modelOf(s, nullptr); if (eventKeys.insert("uncaught" + tn).second) events.push_back(e);
  s.dead = true;
}
// ---- obligations over samples: is there x in the box, |e_i| <= err, with |sum c_i x_i + k + e| > tol ?
int Engine::lra(const std::vector<std::pair<uint64_t,double>>& c, double k, double err, double tol, State* s, std::vector<std::tuple<int,int,double>>* xs) {
  const bool pathc = false; std::string key;
  if (!pathc) {
    // canonical modulo time shift
    int64_t base = c.empty() ? 0 : (int64_t) (c[0].first & 0xffffffff); char buf[64];
    double er = err == 0 ? 0 : std::pow(2.0, std::ceil(std::log2(err) * 8) / 8); err = er;      // rounded up: still sound
    key.append((const char*) &err, 8); key.append((const char*) &tol, 8); key.append((const char*) &k, 8);
    for (auto& t : c) { uint64_t q = (t.first & 0xffffffff00000000ull) | (uint32_t) ((int64_t) (t.first & 0xffffffff) - base); key.append((const char*) &q, 8); key.append((const char*) &t.second, 8); }
    auto it = lraCache.find(key); if (it != lraCache.end() && (it->second == 0 || !xs)) return it->second;
  }
  double t = nowS(); lraQ++;
  auto rat = [&](double d) { // exact rational
    if (d == 0) return ctx.real_val(0); int e; double m = std::frexp(d, &e); int64_t mi = (int64_t) std::ldexp(m, 53); e -= 53;
    if (e < -1000) return ctx.real_val(0);
    z3::expr v = ctx.real_val(std::to_string(mi).c_str()); 
    if (e) { std::string p; { // 2^|e| in decimal
        std::vector<int> dg{1}; for (int i = 0; i < std::abs(e); i++) { int cy = 0; for (auto& q : dg) { q = q * 2 + cy; cy = q / 10; q %= 10; } if (cy) dg.push_back(cy); } for (int i = dg.size() - 1; i >= 0; i--) p += '0' + dg[i]; }
      z3::expr pw = ctx.real_val(p.c_str()); v = e > 0 ? v * pw : v / pw; }
    return v.simplify(); };
  z3::solver S(ctx, "QF_LRA"); z3::params prm(ctx); prm.set("timeout", 10000u); S.set(prm);
  std::map<uint64_t,z3::expr> xv;
  auto var = [&](uint64_t q) { auto it = xv.find(q); if (it != xv.end()) return it->second; z3::expr z = ctx.real_const(("x" + std::to_string(q)).c_str()); int st = q >> 32; double bx = F.box; if (st == 0x7ffffff1) bx = F.magOf((uint32_t) q); else { auto b = F.streamBox.find(st); if (b != F.streamBox.end()) bx = b->second; } S.add(z <= rat(bx)); S.add(z >= rat(-bx)); xv.emplace(q, z); return z; };
  double gran = tol > 0 ? std::exp2(std::floor(std::log2(tol / 1024 / (c.size() + 1)))) : 0;      // limits rounded up to short numbers (sound: adds at most tol/1024)
  z3::expr_vector terms(ctx); terms.push_back(rat(k));
  // No other constraint mentions the x: z = sum of c*x over a group of terms ranges exactly over [-sum |c|*box, sum |c|*box], so a group is one variable
  struct Grp { z3::expr z; double lim; std::vector<std::pair<uint64_t,double>> c; }; std::vector<Grp> grp;
  if (pathc) for (auto& q : c) terms.push_back(rat(q.second) * var(q.first));
  else { size_t per = (c.size() + 31) / 32; z3::expr lim = rat(0); double units = 0;
    for (size_t i = 0; i < c.size(); i++) { auto& q = c[i];
      if (i % per == 0) { grp.push_back(Grp{ctx.real_const(("z" + std::to_string(i)).c_str()), 0, {}}); lim = rat(0); units = 0; }
      int st = q.first >> 32; double bx = F.box; if (st == 0x7ffffff1) bx = F.magOf((uint32_t) q.first); else { auto b = F.streamBox.find(st); if (b != F.streamBox.end()) bx = b->second; }
      double lm = std::fabs(q.second) * bx; if (gran > 0 && lm / gran < 1e12) units += std::ceil(lm / gran); else lim = lim + rat(std::fabs(q.second)) * rat(bx); grp.back().lim += lm; grp.back().c.push_back({q.first, q.second >= 0 ? bx : -bx});
      if (i % per == per - 1 || i + 1 == c.size()) { z3::expr l = (units > 0 ? lim + rat(units) * rat(gran) : lim).simplify(); S.add(grp.back().z <= l); S.add(grp.back().z >= -l); terms.push_back(grp.back().z); } } }
  z3::expr sum = z3::sum(terms);
  z3::expr e = ctx.real_const("e"); S.add(e <= rat(err)); S.add(e >= rat(-err)); sum = sum + e;
  S.add(sum > rat(tol) || sum < rat(-tol));
  z3::check_result r = S.check(); solverTime += nowS() - t;
  int res = r == z3::sat ? 1 : r == z3::unsat ? 0 : 2;
  if (res == 1 && xs) { z3::model m = S.get_model(); for (auto& q : xv) { int st = q.first >> 32; if (st >= 0x7ffffff0) continue; double dv = 0; z3::expr v = m.eval(q.second, true); dv = v.as_double(); xs->push_back({st, (int) ((int64_t) (q.first & 0xffffffff) - 0x40000000), dv}); } 
    for (auto& g : grp) { double f = m.eval(g.z, true).as_double(); f = g.lim > 0 ? f / g.lim : 0; f = f > 1 ? 1 : f < -1 ? -1 : f; for (auto& q : g.c) { int st = q.first >> 32; if (st < 0x7ffffff0) xs->push_back({st, (int) ((int64_t) (q.first & 0xffffffff) - 0x40000000), f * q.second}); } } }
  if (!pathc) lraCache[key] = res;
  return res;
}
void Engine::oClose(State& s, V a, V b, double tol, const std::string& tag, int64_t idx, bool tight) {
  oblig++; tagCount[tag]++;
  if (s.logOn) { for (V* v : {&a, &b}) { LogVal l{}; if (v->k == V_FS) { l.isConst = false; l.r = v->i; } else { l.isConst = true; l.k = v->k == V_FC ? v->d : NAN; } if (s.log.size() < 20000) s.log.push_back(l); } }
  if (a.k == V_UNDEF || b.k == V_UNDEF) { event(s, "uninit_out", "output " + tag + "[" + std::to_string(idx) + "] was not written or is undetermined"); fail(s, "undef", tag, idx, "value is undetermined (uninitialised memory)", nullptr, {}); return; }
  if (a.k == V_FC && b.k == V_FC) { if (!(std::fabs(a.d - b.d) <= tol)) fail(s, "close", tag, idx, "constants differ", nullptr, {}, std::fabs(a.d - b.d)); else structural++; return; }
  Ref x = F.toRef(a, 32), y = F.toRef(b, 32);
  if (F.isUninit(x) || F.isUninit(y)) { event(s, "uninit_out", "output " + tag + "[" + std::to_string(idx) + "] depends on uninitialised memory"); fail(s, "undef", tag, idx, "value depends on uninitialised memory", nullptr, {}); return; }
  if (x == y) { structural++; return; }
  uint64_t tb; memcpy(&tb, &tol, 8);
  uint64_t pk = (((uint64_t) x << 32) | y) ^ (tb * 0x9e3779b97f4a7c15ull) ^ (uint64_t) tight;
  bool pathc = !s.fc.empty() || s.mdl->wild; int known = -1;
  if (s.mdl->wild) { if (refute(s, a, b, tol, 3, 1)) fail(s, "close", tag, idx, "values differ", nullptr, xsOf(s), 1); return; }
  { auto it = pairCache.find(pk); if (it != pairCache.end()) { known = it->second; if (known == 0) return; } }
  if (pathc && refute(s, a, b, tol, 3, 1)) { fail(s, "close", tag, idx, "values differ on the samples of this path", nullptr, xsOf(s), 1); return; }
  auto la = F.linP(x), lb = F.linP(y); std::vector<std::pair<uint64_t,double>> d; size_t i = 0, j = 0; double slop = 0, l1 = 0;
  auto add = [&](uint64_t q, double v, double sc) { if (v == 0) return; if (std::fabs(v) <= 4e-15 * sc) { slop += std::fabs(v) * F.box; return; } d.push_back({q, v}); l1 += std::fabs(v); };
  while (i < la->c.size() || j < lb->c.size()) {
    if (j >= lb->c.size() || (i < la->c.size() && la->c[i].first < lb->c[j].first)) { add(la->c[i].first, la->c[i].second, 0); i++; }
    else if (i >= la->c.size() || lb->c[j].first < la->c[i].first) { add(lb->c[j].first, -lb->c[j].second, 0); j++; }
    else { add(la->c[i].first, la->c[i].second - lb->c[j].second, std::fabs(la->c[i].second) + std::fabs(lb->c[j].second) + 1); i++; j++; } }
  double err = la->err + lb->err + slop; if (err > maxErr) maxErr = err;
  double k = la->k - lb->k; std::vector<std::tuple<int,int,double>> xs; obligDistinct++;
  int r = 0; const char* kind = "close";
  if (pathc && known == 1) { if (pathUndecided(s, d, k, err, tol, tag, idx)) return; return; }
  if (tight && (!d.empty() || k != 0)) { double lt = 1e-6 * F.box; r = lra(d, k, 0, lt, &s, &xs); if (r == 1) kind = "lin"; }
  if (r == 0) { xs.clear(); r = lra(d, k, err, tol, &s, &xs); }
  if (pathc && r) { pairCache[pk] = r; pathUndecided(s, d, k, err, tol, tag, idx); return; }
  if (r == 1) fail(s, kind, tag, idx, "linear coefficients differ by (L1) " + std::to_string(l1) + ", rounding bound " + std::to_string(err * 1e6) + "e-6", nullptr, xs, l1);
  else if (r == 2) { incomplete = true; incompleteWhy = "solver gave no answer"; }
  pairCache[pk] = r;
}
// an obligation that fails for some samples: does it fail for samples following this path?
bool Engine::pathUndecided(State& s, const std::vector<std::pair<uint64_t,double>>& d, double k, double err, double tol, const std::string& tag, int64_t idx, const char* kind) {
  if (pcTime > O.devTime) { incomplete = true; incompleteWhy = "obligations under conditions on samples: time budget"; return true; }
  std::map<std::pair<int,int>,float> out; int r = pathQuery(s.fc, &d, k, err, tol, s.mdl.get(), nullptr, 2, &out, false);
  if (r == 1) { auto xs = xsOf(s); for (auto& o : out) xs.push_back({o.first.first, o.first.second, o.second}); fail(s, kind, tag, idx, "values differ under conditions on samples", nullptr, xs, 1); }
  else if (r == 2) { incomplete = true; incompleteWhy = "solver gave no answer under conditions on samples"; }
  return true;
}
void Engine::oSame(State& s, V a, V b, const std::string& tag, int64_t idx, int kind, double k, int sa, int sb) {
  oblig++; tagCount[tag]++;
  if (s.logOn) { for (V* v : {&a, &b}) { LogVal l{}; if (v->k == V_FS) { l.isConst = false; l.r = v->i; } else { l.isConst = true; l.k = v->k == V_FC ? v->d : NAN; } if (s.log.size() < 20000) s.log.push_back(l); } }
  if (a.k == V_UNDEF || b.k == V_UNDEF) { event(s, "uninit_out", "output " + tag + "[" + std::to_string(idx) + "] was not written or is undetermined"); fail(s, "undef", tag, idx, "value is undetermined (uninitialised memory)", nullptr, {}); return; }
  if (a.k == V_FC && b.k == V_FC) { double t = kind == 1 ? -a.d : kind == 2 ? a.d * k : a.d; if (!(t == b.d || (std::isnan(t) && std::isnan(b.d)))) fail(s, "same", tag, idx, "constants differ", nullptr, {}, std::fabs(t - b.d)); else structural++; return; }
  Ref x = F.toRef(a, 32), y = F.toRef(b, 32);
  if (F.isUninit(x) || F.isUninit(y)) { event(s, "uninit_out", "output " + tag + "[" + std::to_string(idx) + "] depends on uninitialised memory"); fail(s, "undef", tag, idx, "value depends on uninitialised memory", nullptr, {}); return; }
  if (kind == 1) y ^= 1;
  if (kind != 2 && x == y) { structural++; return; }
  if (kind == 2) { std::unordered_map<uint64_t,bool> memo; if (F.scaled(x, y, k, memo, sa, sb)) { structural++; return; } }
  obligDistinct++; bool pathc = !s.fc.empty() || s.mdl->wild;
  if (pathc && refute(s, a, b, 0, kind, k)) { fail(s, "same", tag, idx, "values differ on the samples of this path", nullptr, xsOf(s), 1); return; }
  if (s.mdl->wild) return;
  // different expressions: decide by linear arithmetic whether they can differ beyond rounding, then bit-precisely
  auto la = F.linP(x), lb = F.linP(y); std::map<uint64_t,double> d; 
  for (auto& c : la->c) { uint64_t q = c.first; if (kind == 2 && (int) (q >> 32) == sa) q = ((uint64_t) sb << 32) | (q & 0xffffffff); d[q] += c.second * (kind == 2 && sa == sb ? k : 1.0); }
  for (auto& c : lb->c) d[c.first] -= c.second;
  std::vector<std::pair<uint64_t,double>> dv; double l1 = 0; for (auto& c : d) if (c.second != 0) { dv.push_back(c); l1 += std::fabs(c.second); }
  double kd = (kind == 2 ? k * la->k : la->k) - lb->k;
  std::vector<std::tuple<int,int,double>> xs; int r = lra(dv, kd, 0, 0, &s, &xs);
  if (r == 1 && pathc) { pathUndecided(s, dv, kd, 0, 0, tag, idx, "same"); return; }
  if (r == 1) { fail(s, "same", tag, idx, "values differ (linear part, L1 " + std::to_string(l1) + ")", nullptr, xs, l1); return; }
  // exact arithmetic agrees: bit-precise floating-point query (once per shape: leaves renamed in order of appearance)
  if (fails.size() < 40 && kind != 2) {
    double t = nowS();
    std::unordered_map<uint32_t,int> num; std::vector<uint32_t> leaves; std::string key = std::to_string(kind) + ":"; size_t cnt = 0;
    std::function<void(Ref)> canon = [&](Ref q) { if (cnt > 400) return; auto it = num.find(q >> 1); if (it != num.end()) { key += '#' + std::to_string(it->second) + (q & 1 ? "-" : "") + ' '; return; } cnt++; const FNode n = F.n[q >> 1]; num.emplace(q >> 1, (int) num.size());
      uint64_t kb; memcpy(&kb, &n.k, 8); key += std::to_string(n.op) + (n.ty ? "d" : "f") + (q & 1 ? "-" : "") + std::to_string(kb) + '(';
      switch (n.op) { case F_X: leaves.push_back(q >> 1); key += wildStreams.count(n.a) ? "w" : "x"; break; case F_UNINIT: case F_CONST: break; case F_ADD: case F_MUL: case F_DIV: canon(n.a); canon(n.b); break; case F_FMA: canon(n.a); canon(n.b); canon(n.c); break; default: canon(n.a); } key += ')'; };
    canon(x); canon(y); int res = 2; std::vector<float> vals; bool cached = false;
    auto hit = fpCache.find(key);
    if (hit != fpCache.end()) { cached = true; res = hit->second.first; vals = hit->second.second; }
    else if (cnt < 400 && fpTime < 60) { fpQ++;
      z3::solver S(ctx); z3::params prm(ctx); prm.set("timeout", (unsigned) (O.fpTimeout * 1000)); S.set(prm);
      std::unordered_map<uint32_t,std::shared_ptr<z3::expr>> memo; std::map<uint32_t,z3::expr> leaf; bool ok = true;
      z3::sort fs = ctx.fpa_sort(8, 24), ds = ctx.fpa_sort(11, 53); z3::expr rne(ctx, Z3_mk_fpa_rne(ctx));
      std::function<z3::expr(uint32_t)> tr = [&](uint32_t id) -> z3::expr {
        auto it = memo.find(id); if (it != memo.end()) return *it->second;
        const FNode n = F.n[id]; auto R = [&](Ref q) { z3::expr e = tr(q >> 1); return q & 1 ? -e : e; }; z3::expr z(ctx);
        auto cst = [&](double v) { return n.ty ? ctx.fpa_val(v) : ctx.fpa_val((float) v); };
        switch (n.op) { case F_X: { z = ctx.constant(("x" + std::to_string(id)).c_str(), fs); leaf.emplace(id, z); if (!wildStreams.count(n.a)) { auto sb = F.streamBox.find(n.a); float bx = sb != F.streamBox.end() ? sb->second : F.box; S.add(z <= ctx.fpa_val(bx) && z >= ctx.fpa_val(-bx)); } break; }
          case F_CONST: z = cst(n.k); break; case F_ADD: z = R(n.a) + R(n.b); break; case F_MULC: z = R(n.a) * cst(n.k); break; case F_MUL: z = R(n.a) * R(n.b); break; case F_DIV: z = R(n.a) / R(n.b); break; case F_ABS: z = z3::abs(R(n.a)); break;
          case F_FMA: z = z3::fma(R(n.a), R(n.b), R(n.c), rne); break; case F_SQRT: z = z3::sqrt(R(n.a), rne); break;
          case F_EXT: z = z3::expr(ctx, Z3_mk_fpa_to_fp_float(ctx, rne, R(n.a), ds)); break; case F_TRUNC: z = z3::expr(ctx, Z3_mk_fpa_to_fp_float(ctx, rne, R(n.a), fs)); break;
          default: ok = false; z = cst(0); }
        memo[id] = std::make_shared<z3::expr>(z); return z; };
      auto top = [&](Ref q) { z3::expr e = tr(q >> 1); return q & 1 ? -e : e; };
      z3::expr ex = top(x), ey = top(y);
      if (ok) { z3::expr nx(ctx, Z3_mk_fpa_is_nan(ctx, ex)), ny(ctx, Z3_mk_fpa_is_nan(ctx, ey)), nan = nx && ny;
        S.add(!z3::expr(ctx, Z3_mk_fpa_eq(ctx, ex, ey)) && !nan); z3::check_result q = S.check(); res = q == z3::sat ? 1 : q == z3::unsat ? 0 : 2;
        if (res == 1) { z3::model m = S.get_model(); for (uint32_t l : leaves) { auto e = leaf.find(l); float v = 0; if (e != leaf.end()) { z3::expr b = m.eval(z3::expr(ctx, Z3_mk_fpa_to_ieee_bv(ctx, e->second)), true).simplify(); uint64_t u = 0; if (Z3_get_numeral_uint64(ctx, b, &u)) { uint32_t w = (uint32_t) u; memcpy(&v, &w, 4); } else v = NAN; } vals.push_back(v); } } }
      fpCache[key] = {res, vals}; }
    if (!cached) { solverTime += nowS() - t; fpTime += nowS() - t; }
    if (res == 0) return;
    if (res == 1) { for (size_t i = 0; i < leaves.size() && i < vals.size(); i++) xs.push_back({(int) F.n[leaves[i]].a, (int) F.n[leaves[i]].b, (double) vals[i]}); fail(s, "samebits", tag, idx, "values differ in rounding", nullptr, xs, 0); return; }
  }
  fail(s, "maybe", tag, idx, "different expressions, bit equality undecided", nullptr, {}, 0);
}
void Engine::oIndep(State& s, V a, int stream, int64_t lo, int64_t hi, const std::string& tag, int64_t idx) {
  oblig++; tagCount[tag]++;
  if (a.k == V_UNDEF) { fail(s, "undef", tag, idx, "value is undetermined", nullptr, {}); return; }
  if (a.k != V_FS) { structural++; return; }
  if (s.mdl->wild && !wildStreams.count(0) && !std::isfinite(cval(s, (Ref) a.i))) { fail(s, "indep", tag, idx, "not finite because of stream " + std::to_string(stream), nullptr, xsOf(s), 0); return; }
  if (F.isUninit(a.i)) { event(s, "uninit_out", "output " + tag + " depends on uninitialised memory"); return; }
  uint64_t pk = std::hash<std::string>{}(std::to_string(a.i) + "/" + std::to_string(stream) + "/" + std::to_string(lo) + "/" + std::to_string(hi)) | 1; auto it = pairCache.find(pk);
  if (it != pairCache.end()) { if (it->second == 0) { structural++; return; } }
  bool dep = F.depends(a.i, stream, (int) lo, (int) hi); pairCache[pk] = dep;
  if (dep) fail(s, "indep", tag, idx, "value can depend on earlier samples of stream " + std::to_string(stream), nullptr, {}, 0); else structural++;
}
void Engine::finish(State& s) {
  paths++;
  if (s.logOn && (int) logs.size() < O.logPaths && s.gen == 0 && !concretised) {
    // values of all checked outputs under pseudo-random samples, evaluated in binary32/binary64, for comparison with a native run
    std::unordered_map<uint32_t,double> memo; uint64_t h = 1469598103934665603ull; uint64_t cnt = 0; std::string first;
    for (auto& l : s.log) { float f = l.isConst ? (float) l.k : (float) F.eval(l.r, nullptr, memo, 1); if (f == 0) f = 0; uint32_t u; memcpy(&u, &f, 4); if (f != f) u = 0x7fc00000; h = (h ^ u) * 1099511628211ull; cnt++; if (cnt <= 400) { char b[16]; snprintf(b, sizeof b, "%08x ", u); first += b; } }
    std::string j = "{\"ints\":{"; bool c = false; for (auto& m : modelOf(s, nullptr)) { j += std::string(c ? "," : "") + jstr(m.first) + ":" + std::to_string(m.second); c = true; }
    j += "},\"count\":" + std::to_string(cnt) + ",\"hash\":\"" + std::to_string(h) + "\",\"first\":\"" + first + "\"}"; logs.push_back(j);
  }
}
void Engine::run() {
  State* s = new State(); s->mem.resize(dynBase); s->gens.resize(dynBase, 0);
  for (size_t g = 0; g < M.globals.size(); g++) {
    ::Global& G = M.globals[g]; auto o = std::make_shared<Obj>(); o->kind = OB_GLOBAL; o->size = G.size; o->name = G.name; o->cst = G.constant; o->tls = G.tls; o->slot = globalObj(g);
    o->base = s->nextBase = (s->nextBase + 63) / 64 * 64; s->nextBase += G.size + 64;
    o->g.resize((G.size + 3) / 4 + 1); for (auto& x : o->g) { x.k = V_BYTES; x.w = 0; x.i = 0; }
    for (size_t i = 0; i < G.size; i++) if (G.init[i] || G.external) setByte(o.get(), i, G.bytes[i], true);
    for (auto& r : G.relocs) { if (r.off % 4) continue; o->g[r.off / 4] = r.v; o->g[r.off / 4].fl = 8; o->g[r.off / 4 + 1] = V(); o->g[r.off / 4 + 1].k = V_CONT; }
    s->mem[globalObj(g)] = o;
  }
  auto it = M.fidx.find(O.entry); if (it == M.fidx.end()) throw Abort{"no entry " + O.entry};
  s->logOn = O.logPaths > 0;
  std::vector<V> none; call(*s, it->second, none, nullptr);
  s->guard = 1; // static initialisers
  for (auto c = M.ctors.rbegin(); c != M.ctors.rend(); ++c) if (!M.funcs[*c].decl) { call(*s, *c, none, nullptr); s->fr.back().allocas.clear(); }
  s->internalDepth = 1;
  nominal = std::make_shared<Model>(); s->mdl = nominal; initState = new State(*s);
  work.push_back(s);
  uint64_t tick = 0;
  while (!work.empty()) {
    State* cur = work.back(); work.pop_back();
    if (paths >= O.maxPaths || nowS() - std::chrono::duration<double>(t0.time_since_epoch()).count() > O.timeLimit) { incomplete = true; incompleteWhy = "time or path budget"; delete cur; for (auto w : work) delete w; work.clear(); break; }
    exec1(cur, tick);
  }
  if (!cands.empty() || devDropped) deviations();
}
void Engine::hang(State& s, const char* why) { incomplete = true; incompleteWhy = why; if (s.steps > 3000000) event(s, "hang", "still running after " + std::to_string(s.steps) + " steps"); }
void Engine::exec1(State* cur, uint64_t& tick) {
  try {
    while (!cur->fr.empty() && !cur->dead) {
      if (cur->internalDepth && cur->fr.size() == 1) { cur->internalDepth = 0; cur->guard = 0; if (baseMem.empty()) baseMem.assign(cur->mem.begin(), cur->mem.begin() + 1 + M.globals.size()); }
      if (!step(*cur)) break;
      if ((++tick & 0xffff) == 0 && nowS() - std::chrono::duration<double>(t0.time_since_epoch()).count() > O.timeLimit) { hang(*cur, "time budget"); break; }
      if (cur->steps > O.maxSteps) { hang(*cur, "step budget"); break; }
    }
    if (!cur->dead && cur->fr.empty()) finish(*cur);
  } catch (Abort& a) { incomplete = true; incompleteWhy = a.why; }
  catch (z3::exception& e) { incomplete = true; incompleteWhy = std::string("solver: ") + e.msg(); }
  delete cur;
}
bool Engine::step(State& s) {
  Frame& f = s.fr.back(); Func& fn = M.funcs[f.fn]; Inst& in = fn.bbs[f.bb][f.pc];
  s.steps++; instrs++;
  V* R = f.r.data(); const V* C = fn.consts.data();
  auto G = [&](int op) -> V { return op < 0 ? C[~op] : R[op]; };
  switch (in.op) {
    case O_COPY: { if (in.lanes == 1) R[in.dst] = G(in.a[0]); else { V t[64]; int n = in.lanes > 64 ? 64 : in.lanes; for (int i = 0; i < n; i++) t[i] = G(in.a[i]); for (int i = 0; i < n; i++) R[in.dst + i] = t[i]; } break; }
    case O_FREEZE: for (int i = 0; i < in.lanes; i++) { V v = G(in.a[i]); if (v.k == V_UNDEF) v = in.ty.t == T_INT ? mkInt(0, in.ty.w) : in.ty.t == T_PTR ? mkPtr(0, 0) : mkF(0, in.ty.w); R[in.dst + i] = v; } break;
    case O_SHUFFLE: { V t[64]; int n = in.a.size() / 2; (void) n; for (int i = 0; i < in.lanes; i++) t[i] = in.k[i] < 0 ? mkUndef(in.ty.w) : G(in.a[in.k[i]]); for (int i = 0; i < in.lanes; i++) R[in.dst + i] = t[i]; break; }
    case O_EXTRACTE: { int64_t i = concretize(s, G(in.a.back())); int n = in.a.size() - 1; f.r[in.dst] = i >= 0 && i < n ? get(s.fr.back(), in.a[i]) : mkUndef(in.ty.w); break; }
    case O_INSERTE: { int64_t i = concretize(s, G(in.a.back())); V t[64]; for (int j = 0; j < in.lanes; j++) t[j] = G(in.a[j]); if (i >= 0 && i < in.lanes) t[i] = G(in.a[in.lanes]); for (int j = 0; j < in.lanes; j++) R[in.dst + j] = t[j]; break; }
    case O_ALLOCA: {
      int64_t n = concretize(s, G(in.a[0])); if (n < 0) n = 0; uint64_t sz = in.size * n;
      if (sz > (64u << 20)) { event(s, "stack", "huge stack allocation of " + std::to_string(sz) + " bytes"); throw Abort{"huge alloca"}; }
      uint32_t id = newObj(s, OB_STACK, sz, in.align, fn.pretty.substr(0, 60) + ":" + std::to_string(in.line));
      f.allocas.push_back(id); f.stackBytes += sz; s.stackUse += sz; if (s.stackUse > s.stackMax) s.stackMax = s.stackUse; R[in.dst] = mkPtr(id, 0); break; }
    case O_LOAD: {
      uint32_t id; int64_t off;
      if (!access(s, G(in.a[0]), in.size, false, in.align, id, off)) { for (int i = 0; i < in.lanes; i++) f.r[in.dst + i] = in.mem[i].t == T_F32 ? mkFS(F.uninit(), 32) : mkUndef(in.mem[i].w); break; }
      Obj* o = obj(s, id);
      for (int i = 0; i < in.lanes; i++) { V v = loadLane(s, o, off + in.mem[i].off, in.mem[i]);
        f.r[in.dst + i] = v; }
      break; }
    case O_STORE: {
      V vs[64]; int n = in.mem.size(); if (n > 64) throw Abort{"wide store"}; for (int i = 0; i < n; i++) { vs[i] = G(in.a[1 + i]); if (vs[i].k == V_SINT && in.mem[i].bytes < 4) vs[i] = mkInt(concretize(s, vs[i]), vs[i].w); else if (vs[i].k == V_SINT) vs[i] = simp(s, vs[i]); }
      uint32_t id; int64_t off; if (!access(s, G(in.a[0]), in.size, true, in.align, id, off)) break;
      Obj* o = obj(s, id, true); for (int i = 0; i < n; i++) storeLane(s, o, id, off + in.mem[i].off, in.mem[i], vs[i]);
      break; }
    case O_GEP: {
      V p = G(in.a[0]); if (p.k == V_INT || p.k == V_SINT) p = toPtr(s, p);
      if (p.k == V_UNDEF) { R[in.dst] = p; break; }
      V off = p.k == V_PTR ? mkInt(p.i + in.size, 64) : lin2(fromExpr(p.i, 64), 1, mkInt(in.size, 64), 1, 64); bool bad = false;
      for (size_t i = 0; i < in.k.size(); i++) {
        V x = G(in.a[1 + i]);
        if (x.k == V_INT && off.k == V_INT) off.i += sextw(x.i, x.w) * in.k[i];
        else if (x.k == V_UNDEF) bad = true;
        else { if (x.w < 64) x = cast(s, in, 40, x, x.w, 64, T_INT); off = lin2(off, 1, x, in.k[i], 64); } }
      if (bad) { R[in.dst] = mkUndef(64); break; }
      if (off.k == V_INT) f.r[in.dst] = mkPtr(p.obj, off.i); else { off = simp(s, off); if (off.k == V_INT) f.r[in.dst] = mkPtr(p.obj, off.i); else { V r; r.k = V_PTRS; r.w = 64; r.obj = p.obj; r.i = off.i; f.r[in.dst] = r; } }
      break; }
    case O_BIN: {
      int n = in.lanes; 
      if (in.ty.t == T_F32 || in.ty.t == T_F64) {
        int w = in.ty.w; V t[64];
        for (int i = 0; i < n; i++) { V a = G(in.a[i]), b = G(in.a[n + i]);
          if (in.sub == 100 || in.sub == 101) { V c = G(in.a[2 * n + i]);
            if (a.k == V_UNDEF) a = mkFS(F.uninit(), w); if (b.k == V_UNDEF) b = mkFS(F.uninit(), w); if (c.k == V_UNDEF) c = mkFS(F.uninit(), w);
            if (in.sub == 100) t[i] = F.add(F.mul(a, b, w), c, w);
            else if (a.k == V_FC && b.k == V_FC && c.k == V_FC) t[i] = mkF(w == 32 ? (double) fmaf(a.d, b.d, c.d) : fma(a.d, b.d, c.d), w);
            else t[i] = mkFS(F.mk(F_FMA, w == 64, F.toRef(a, w), F.toRef(b, w), F.toRef(c, w), 0), w);
            continue; }
          if (a.k == V_UNDEF) a = mkFS(F.uninit(), w); if (b.k == V_UNDEF) b = mkFS(F.uninit(), w);
          switch (in.sub) { case 14: t[i] = F.add(a, b, w); break; case 16: t[i] = F.add(a, F.neg(b), w); break; case 18: t[i] = F.mul(a, b, w); break; case 21: t[i] = F.div(a, b, w); break;
            default: if (a.k == V_FC && b.k == V_FC) t[i] = mkF(w == 32 ? (double) fmodf(a.d, b.d) : fmod(a.d, b.d), w); else t[i] = mkFS(F.mk(F_OPAQUE, w == 64, F.toRef(a, w), F.toRef(b, w), 7, 0), w); } }
        for (int i = 0; i < n; i++) R[in.dst + i] = t[i];
      } else {
        V t[64]; for (int i = 0; i < n; i++) { const V a = G(in.a[i]), b = G(in.a[n + i]);
          if (a.k == V_INT && b.k == V_INT && in.sub == 13) t[i] = mkInt(a.i + b.i, in.ty.w); else t[i] = ibin(s, in.sub, a, b, in.ty.w); }
        for (int i = 0; i < n; i++) f.r[in.dst + i] = t[i]; }
      break; }
    case O_FNEG: { V t[64]; for (int i = 0; i < in.lanes; i++) t[i] = F.neg(G(in.a[i])); for (int i = 0; i < in.lanes; i++) R[in.dst + i] = t[i]; break; }
    case O_ICMP: { V t[64]; int n = in.lanes; for (int i = 0; i < n; i++) t[i] = icmp(s, in.sub, G(in.a[i]), G(in.a[n + i]), in.ty2.w); for (int i = 0; i < n; i++) f.r[in.dst + i] = t[i]; break; }
    case O_FCMP: { V t[64]; int n = in.lanes; for (int i = 0; i < n; i++) t[i] = fcmp(s, in.sub, G(in.a[i]), G(in.a[n + i]), in.ty2.w); for (int i = 0; i < n; i++) f.r[in.dst + i] = t[i]; break; }
    case O_CAST: {
      int ns = in.mem.size();
      if (in.sub == 49) { // bitcast
        if (ns == in.lanes) { for (int i = 0; i < ns; i++) { V v = G(in.a[i]); if (v.k == V_INT && in.ty.t == T_F32) { float x; uint32_t u = v.i; memcpy(&x, &u, 4); v = mkF(x, 32); } else if (v.k == V_INT && in.ty.t == T_F64) { double d; memcpy(&d, &v.i, 8); v = mkF(d, 64); }
              else if (v.k == V_FC && in.ty.t == T_INT) { if (v.w == 32) { float x = v.d; uint32_t u; memcpy(&u, &x, 4); v = mkInt(u, 32); } else { uint64_t u; memcpy(&u, &v.d, 8); v = mkInt(u, 64); } } R[in.dst + i] = v; } break; }
        // different lane sizes: only concrete
        std::vector<uint8_t> b; bool ok = true; std::vector<V> src; for (int i = 0; i < ns; i++) src.push_back(G(in.a[i]));
        for (int i = 0; i < ns; i++) { V v = src[i]; uint64_t u = 0; if (v.k == V_INT) u = v.i; else if (v.k == V_FC) { if (v.w == 32) { float x = v.d; uint32_t q; memcpy(&q, &x, 4); u = q; } else memcpy(&u, &v.d, 8); } else ok = false; if (in.ty2.w == 1) { b.push_back(u & 1); } else for (int j = 0; j < in.ty2.bytes; j++) b.push_back(u >> (8 * j)); }
        if (ok && in.ty2.w == 1) { uint64_t u = 0; for (size_t i = 0; i < b.size(); i++) u |= (uint64_t) b[i] << i; R[in.dst] = mkInt(u, in.ty.w); break; }
        if (ok) { for (int i = 0; i < in.lanes; i++) { uint64_t u = 0; for (int j = 0; j < in.ty.bytes; j++) u |= (uint64_t) b[i * in.ty.bytes + j] << (8 * j); if (in.ty.t == T_F32) { float x; uint32_t q = u; memcpy(&x, &q, 4); R[in.dst + i] = mkF(x, 32); } else if (in.ty.t == T_F64) { double d; memcpy(&d, &u, 8); R[in.dst + i] = mkF(d, 64); } else R[in.dst + i] = mkInt(u, in.ty.w); } break; }
        // two floats <-> one 64-bit lane: keep as a pack in two shadow registers
        if (ns == 2 && in.lanes == 1) { packs.push_back({src[0], src[1]}); V v; v.k = V_PACK; v.w = 64; v.i = packs.size() - 1; R[in.dst] = v; break; }
        if (ns == 1 && in.lanes == 2 && src[0].k == V_PACK) { R[in.dst] = packs[src[0].i].first; R[in.dst + 1] = packs[src[0].i].second; break; }
        if (ns == 4 && in.lanes == 2) { for (int i = 0; i < 2; i++) { packs.push_back({src[2 * i], src[2 * i + 1]}); V v; v.k = V_PACK; v.w = 64; v.i = packs.size() - 1; R[in.dst + i] = v; } break; }
        if (ns == 2 && in.lanes == 4) { for (int i = 0; i < 2; i++) { if (src[i].k == V_PACK) { R[in.dst + 2 * i] = packs[src[i].i].first; R[in.dst + 2 * i + 1] = packs[src[i].i].second; } else if (src[i].k == V_INT || src[i].k == V_FC) { uint64_t u; if (src[i].k == V_INT) u = src[i].i; else memcpy(&u, &src[i].d, 8); for (int j = 0; j < 2; j++) { uint32_t q = u >> (32 * j); float x; memcpy(&x, &q, 4); R[in.dst + 2 * i + j] = in.ty.t == T_F32 ? mkF(x, 32) : mkInt(q, 32); } } else { R[in.dst + 2 * i] = mkUndef(32); R[in.dst + 2 * i + 1] = mkUndef(32); } } break; }
        unsupported.insert("bitcast between symbolic lanes"); for (int i = 0; i < in.lanes; i++) R[in.dst + i] = mkUndef(in.ty.w); break;
      }
      V t[64]; for (int i = 0; i < in.lanes; i++) t[i] = cast(s, in, in.sub, G(in.a[i]), in.ty2.w, in.ty.w, in.ty.t); for (int i = 0; i < in.lanes; i++) f.r[in.dst + i] = t[i]; break; }
    case O_SELECT: {
      int nc = in.k[0];
      if (nc == 1) { V c = G(in.a[0]); bool b = decide(s, c); int base = b ? 1 : 1 + in.lanes; V t[64]; for (int i = 0; i < in.lanes; i++) t[i] = get(s.fr.back(), in.a[base + i]); for (int i = 0; i < in.lanes; i++) f.r[in.dst + i] = t[i]; }
      else { V t[64]; for (int i = 0; i < in.lanes; i++) { bool b = decide(s, G(in.a[i])); t[i] = G(in.a[nc + (b ? 0 : in.lanes) + i]); } for (int i = 0; i < in.lanes; i++) f.r[in.dst + i] = t[i]; }
      break; }
    case O_BR: takeEdge(s, f, in.e[0]); return true;
    case O_CONDBR: { bool b = decide(s, G(in.a[0])); takeEdge(s, f, in.e[b ? 0 : 1]); return true; }
    case O_SWITCH: {
      V v = simp(s, G(in.a[0])); if (v.k == V_UNDEF) { event(s, "uninit_branch", "switch on an undetermined value"); takeEdge(s, f, in.e[0]); return true; }
      if (v.k == V_SINT) { // decide case by case
        for (size_t i = 0; i < in.k.size(); i++) { V eq = icmp(s, 32, v, mkInt(in.k[i], v.w), v.w); if (decide(s, eq)) { takeEdge(s, f, in.e[i + 1]); return true; } }
        takeEdge(s, f, in.e[0]); return true; }
      for (size_t i = 0; i < in.k.size(); i++) if ((uint64_t) in.k[i] == (uint64_t) v.i) { takeEdge(s, f, in.e[i + 1]); return true; }
      takeEdge(s, f, in.e[0]); return true; }
    case O_RET: { std::vector<V> v; for (int a : in.a) v.push_back(G(a)); doReturn(s, v); return true; }
    case O_UNREACHABLE: event(s, "unreachable", "control reached code the compiler may assume unreachable"); s.dead = true; return false;
    case O_RESUME: { V p = G(in.a[0]); V t = s.excType; popFrame(s); if (!s.fr.empty()) throwExc(s, p, t); else throwExc(s, p, t); return true; }
    case O_LANDINGPAD: throw Abort{"landingpad reached normally"};
    case O_FENCE: break;
    case O_ATOMICRMW: case O_CMPXCHG: {
      if (s.region & 1) {} 
      uint32_t id; int64_t off; V ptr = G(in.a[0]); if (!access(s, ptr, in.size, true, 1, id, off)) { for (int i = 0; i < in.retlanes; i++) f.r[in.dst + i] = mkInt(0, 64); break; }
      Obj* o = obj(s, id, true); V old = loadLane(s, o, off, in.mem[0]); V b = G(in.a[1]), nv;
      if (in.op == O_CMPXCHG) { V eq = icmp(s, 32, old, b, in.mem[0].w); bool e = decide(s, eq); if (e) { o = obj(s, id, true); storeLane(s, o, id, off, in.mem[0], G(in.a[2])); } f.r[in.dst] = old; f.r[in.dst + 1] = mkInt(e, 1); break; }
      switch (in.sub) { case 0: nv = b; break; case 1: nv = ibin(s, 13, old, b, in.mem[0].w); break; case 2: nv = ibin(s, 15, old, b, in.mem[0].w); break; case 3: nv = ibin(s, 28, old, b, in.mem[0].w); break; case 5: nv = ibin(s, 29, old, b, in.mem[0].w); break; case 6: nv = ibin(s, 30, old, b, in.mem[0].w); break; default: nv = mkUndef(in.mem[0].w); }
      o = obj(s, id, true); storeLane(s, o, id, off, in.mem[0], nv); if (in.dst >= 0) f.r[in.dst] = old; break; }
    case O_UNSUP: throw Abort{"unsupported instruction: " + in.name};
    case O_CALL: {
      std::vector<V> args; int callee = in.callee; size_t first = 0;
      if (callee < 0) {
        V p = G(in.a[0]); first = 1;
        if (p.k == V_PTR && p.obj >= funcBase() && p.obj < dynBase && p.i == 0) callee = p.obj - funcBase();
        else { event(s, p.k == V_UNDEF ? "uninit_addr" : "null", "call through an invalid function pointer"); s.dead = true; return false; }
      }
      for (size_t i = first; i < in.a.size(); i++) args.push_back(G(in.a[i]));
      Func& cf = M.funcs[callee];
      if (!cf.decl) { call(s, callee, args, &in); return !s.dead; }
      V ret; bool has = false;
      size_t depth = s.fr.size();
      if (!external(s, in, cf.name, args, ret, has)) return !s.dead;   // control transferred (throw, end)
      if (s.dead) return false;
      Frame& g = s.fr.back(); 
      if (in.dst >= 0 && !vecRet.empty()) { for (int i = 0; i < in.lanes; i++) g.r[in.dst + i] = vecRet[i]; }
      else if (in.dst >= 0) { if (!has) ret = mkUndef(in.ty.w); g.r[in.dst] = ret; for (int i = 1; i < in.lanes; i++) g.r[in.dst + i] = mkUndef(32); }
      vecRet.clear();
      if (in.e.size() == 2) { takeEdge(s, g, in.e[0]); return true; }
      g.pc++; return true; }
    default: throw Abort{"unknown op"};
  }
  s.fr.back().pc++;
  return true;
}
