// Comparisons of samples. Every path follows concrete samples (State::mdl: streamValue(1, ...) plus overrides); a comparison takes the side these
// samples take and is recorded as a path condition. The other sides are solved for (z3, reals, path conditions as constraints) and run as further paths.
#include "exec.h"
static double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static bool cmpD(int p, double x, double y) { switch (p) { case 1: return x == y; case 2: return x > y; case 3: return x >= y; case 4: return x < y; case 5: return x <= y; default: return x != y; } }
static uint64_t mixh(uint64_t h) { h ^= h >> 33; h *= 0xff51afd7ed558ccdull; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ull; h ^= h >> 33; return h; }
double Engine::cval(State& s, Ref r) { double d = F.eval(r, nullptr, s.mdl->memo, 1); return d; }
bool Engine::fcHolds(State& s, const FCond& c) { return cmpD(c.pred, cval(s, c.a), cval(s, c.b)) == c.val; }
uint64_t Engine::siteOf(State& s) { uint64_t h = 7; for (auto& f : s.fr) h = mixh(h * 31 + ((uint64_t) f.fn << 40) + ((uint64_t) f.bb << 16) + f.pc); return h; }
static uint64_t staticSite(State& s) { auto& f = s.fr.back(); return mixh(((uint64_t) f.fn << 40) + ((uint64_t) f.bb << 16) + f.pc + 1); }
std::vector<std::tuple<int,int,double>> Engine::xsOf(State& s) { std::vector<std::tuple<int,int,double>> r; for (auto& x : s.mdl->xs) r.push_back({x.first.first, x.first.second, (double) x.second}); return r; }
static bool fib(int c) { int a = 1, b = 2; while (a < c) { int t = a + b; a = b; b = t; } return a == c; }
static bool accept(Engine& E, uint64_t site) { int c = ++E.siteCount[site]; return fib(c) && E.cands.size() < 2000; }
static ModelP withX(FloatDag& F, ModelP base, const std::map<std::pair<int,int>,float>& o) {
  auto m = std::make_shared<Model>(); m->xs = base->xs; for (auto& x : o) m->xs[x.first] = x.second;
  for (auto& x : m->xs) { m->memo[F.x(x.first.first, x.first.second) >> 1] = x.second; if (!std::isfinite(x.second)) m->wild = true; }
  return m;
}
// an input sample the value depends on (the one with most weight if linear)
static bool leafOf(FloatDag& F, Ref r, const std::set<int>* only, std::pair<int,int>& out) {
  std::set<uint32_t> seen; std::vector<uint32_t> st{r >> 1}; auto l = F.linP(r); double best = -1;
  for (auto& c : l->c) { int s = c.first >> 32; if (s >= 0x7ffffff0 || (only && !only->count(s))) continue; if (std::fabs(c.second) > best) { best = std::fabs(c.second); out = {s, (int) ((int64_t) (c.first & 0xffffffff) - 0x40000000)}; } }
  if (best >= 0) return true;
  while (!st.empty()) { uint32_t id = st.back(); st.pop_back(); if (!seen.insert(id).second) continue; const FNode& x = F.n[id];
    switch (x.op) { case F_X: if (!only || only->count(x.a)) { out = {(int) x.a, (int) x.b}; return true; } break; case F_UNINIT: case F_CONST: break; case F_ADD: case F_MUL: case F_DIV: st.push_back(x.a >> 1); st.push_back(x.b >> 1); break; case F_FMA: st.push_back(x.a >> 1); st.push_back(x.b >> 1); st.push_back(x.c >> 1); break; default: st.push_back(x.a >> 1); } }
  return false;
}
static std::vector<std::pair<std::string,int64_t>> pathInts(Engine& E, State& s) { auto m = E.modelOf(s, nullptr); std::vector<std::pair<std::string,int64_t>> r; for (size_t i = 0; i < m.size() && i < s.rng.size(); i++) r.push_back(m[i]); return r; }
void Engine::propose(State& s, const FCond& c) {
  if (s.gen >= 4 || s.mdl->wild) return;
  uint64_t site = siteOf(s); if (!accept(*this, site)) { devDropped++; return; }
  Cand k; k.c = c; k.c.val = !c.val; k.fc = s.fc; k.base = s.mdl; k.ints = pathInts(*this, s); k.site = site; k.stat = staticSite(s); k.gen = s.gen; k.sticky = true; cands.push_back(std::move(k));
}
void Engine::proposeDirect(State& s, Ref r, float val, uint64_t salt, bool any) {
  if (s.gen >= 4 || s.mdl->wild) return;
  uint64_t site = mixh(siteOf(s) + salt); if (!accept(*this, site)) return;
  std::pair<int,int> lf; if (!leafOf(F, r, any ? nullptr : &wildStreams, lf)) return;
  Cand k; k.direct = withX(F, s.mdl, {{lf, val}}); k.base = s.mdl; k.ints = pathInts(*this, s); k.site = site; k.gen = s.gen; k.sticky = false; cands.push_back(std::move(k));
}
V Engine::concFloat(State& s, const V& v, const char* why) {
  double d = cval(s, (Ref) v.i); unsupported.insert(why); concretised = true; int salt = 1;
  for (float f : {0.f, 1.f, 1e-41f, 1e-20f, -1.f}) proposeDirect(s, (Ref) v.i, f, salt++, true);
  if (!wildStreams.empty()) for (float f : {NAN, INFINITY}) proposeDirect(s, (Ref) v.i, f, salt++, false);
  return mkF(d, v.w ? v.w : 32);
}
V Engine::fcmp(State& s, int pred, const V& a0, const V& b0, int w) {
  // predicates: 0 false,1 oeq,2 ogt,3 oge,4 olt,5 ole,6 one,7 ord,8 uno,9 ueq,10 ugt,11 uge,12 ult,13 ule,14 une,15 true
  V a = a0, b = b0;
  if (pred == 0) return mkInt(0, 1); if (pred == 15) return mkInt(1, 1);
  if (a.k == V_UNDEF || b.k == V_UNDEF) return mkUndef(1);
  if (a.k == V_PACK || b.k == V_PACK) { unsupported.insert("comparison of packed samples"); return mkInt(0, 1); }
  auto conc = [&](double x, double y) { bool un = std::isnan(x) || std::isnan(y); if (pred == 7) return !un; if (pred == 8) return un; if (un) return pred >= 8; return cmpD(pred & 7, x, y); };
  if (a.k == V_FC && b.k == V_FC) return mkInt(conc(a.d, b.d), 1);
  Ref x = F.toRef(a, w), y = F.toRef(b, w); int p = pred & 7;
  if (F.isUninit(x) || F.isUninit(y)) { event(s, "uninit_branch", "comparison of an undetermined value"); return mkInt(0, 1); }
  if (s.mdl->wild) return mkInt(conc(cval(s, x), cval(s, y)), 1);
  if (!wildStreams.empty() && s.gen < 2) for (Ref r : {x, y}) { proposeDirect(s, r, NAN, 101 + (r == y), false); proposeDirect(s, r, INFINITY, 103 + (r == y), false); }
  if (pred == 7) return mkInt(1, 1); if (pred == 8) return mkInt(0, 1);   // finite numbers
  if (x == y) return mkInt(p == 1 || p == 3 || p == 5, 1);
  for (auto& c : s.fc) if (c.a == x && c.b == y && c.pred == p) return mkInt(c.val, 1);
  auto la = F.linP(x), lb = F.linP(y); std::map<uint64_t,double> d; for (auto& c : la->c) d[c.first] += c.second; for (auto& c : lb->c) d[c.first] -= c.second;
  double k = la->k - lb->k, e = la->err + lb->err, r = 0; for (auto& c : d) { int st = c.first >> 32; double bx = F.box; if (wildStreams.count(st)) { r = INFINITY; break; } if (st == 0x7ffffff1) bx = F.magOf((uint32_t) c.first); else { auto it = F.streamBox.find(st); if (it != F.streamBox.end()) bx = it->second; } r += std::fabs(c.second) * bx; }
  double lo = k - r - e, hi = k + r + e;
  switch (p) { case 1: if (lo > 0 || hi < 0) return mkInt(0, 1); break; case 6: if (lo > 0 || hi < 0) return mkInt(1, 1); break;
    case 2: if (lo > 0) return mkInt(1, 1); if (hi <= 0) return mkInt(0, 1); break; case 3: if (lo >= 0) return mkInt(1, 1); if (hi < 0) return mkInt(0, 1); break;
    case 4: if (hi < 0) return mkInt(1, 1); if (lo >= 0) return mkInt(0, 1); break; case 5: if (hi <= 0) return mkInt(1, 1); if (lo > 0) return mkInt(0, 1); break; }
  bool v = conc(cval(s, x), cval(s, y)); FCond c{x, y, (uint8_t) p, v};
  if (s.stick && !s.armed && c.a == s.arm.a && c.b == s.arm.b && c.pred == s.arm.pred) s.armed = true;
  if (s.armed && s.stickLeft > 0 && v != s.arm.val && staticSite(s) == s.stick) {
    s.stickLeft--; FCond q = c; q.val = !v; ModelP m = solveFor(s.fc, q, s.mdl); bool ok = m != nullptr;
    if (ok) { ModelP old = s.mdl; s.mdl = m; for (auto& z : s.fc) if (!fcHolds(s, z)) { ok = false; break; } if (!ok) s.mdl = old; }
    if (ok) { v = !v; c.val = v; } }
  propose(s, c);
  s.fc.push_back(c);
  return mkInt(v, 1);
}
// Is there a sample vector (variables outside freeVars keep the values of base) satisfying fc and, if d is given, |sum d*x + k + e| > tol with |e| <= err?
int Engine::pathQuery(const std::vector<FCond>& fc, const std::vector<std::pair<uint64_t,double>>* d, double k, double err, double tol, Model* base, const std::set<uint64_t>* freeVars, double timeout, std::map<std::pair<int,int>,float>* out, bool exactErr) {
  double t = nowS(); pcQ++; lraQ++;
  auto rat = [&](double v) { if (v == 0) return ctx.real_val(0); int e; double m = std::frexp(v, &e); int64_t mi = (int64_t) std::ldexp(m, 53); e -= 53; while (mi && !(mi & 1) && e < 0) { mi >>= 1; e++; } if (e < -1000) return ctx.real_val(0);
    z3::expr r = ctx.real_val(std::to_string(mi).c_str()); if (e) { z3::expr two = ctx.real_val(1); std::string p; std::vector<int> dg{1}; for (int i = 0; i < std::abs(e); i++) { int cy = 0; for (auto& q : dg) { q = q * 2 + cy; cy = q / 10; q %= 10; } if (cy) dg.push_back(cy); } for (int i = (int) dg.size() - 1; i >= 0; i--) p += '0' + dg[i]; z3::expr pw = ctx.real_val(p.c_str()); r = e > 0 ? r * pw : r / pw; } return r.simplify(); };
  z3::solver S(ctx); z3::params prm(ctx); prm.set("timeout", (unsigned) (timeout * 1000)); S.set(prm);
  std::map<uint64_t,z3::expr> xv; std::map<uint32_t,z3::expr> nl; int fresh = 0;
  auto value = [&](int st, int idx) -> double { if (base) { auto i = base->xs.find({st, idx}); if (i != base->xs.end()) return i->second; } return streamValue(1, st, idx); };
  auto boxOf = [&](int st) { if (wildStreams.count(st)) return 3.4e38; auto b = F.streamBox.find(st); return b != F.streamBox.end() ? b->second : F.box; };
  std::function<z3::expr(uint64_t)> var; std::function<z3::expr(Ref)> real; std::function<z3::expr(const std::vector<std::pair<uint64_t,double>>&, double)> sum;
  var = [&](uint64_t q) -> z3::expr {
    auto it = xv.find(q); if (it != xv.end()) return it->second; z3::expr z = ctx.real_const(("x" + std::to_string(q)).c_str()); double bx = boxOf((int) (q >> 32)); S.add(z <= rat(bx)); S.add(z >= rat(-bx)); xv.emplace(q, z); return z; };
  sum = [&](const std::vector<std::pair<uint64_t,double>>& c, double kk) -> z3::expr {
    z3::expr_vector t(ctx);
    for (auto& q : c) { int st = q.first >> 32; if (q.second == 0) continue;
      if (st == 0x7ffffff1) { uint32_t id = (uint32_t) q.first; auto it = nl.find(id);
        if (it == nl.end()) { const FNode n = F.n[id]; z3::expr z = ctx.real_const(("n" + std::to_string(id)).c_str());
          switch (n.op) { case F_ABS: { z3::expr a = real(n.a); z = z3::ite(a >= 0, a, -a); break; } case F_MUL: z = real(n.a) * real(n.b); break; case F_FMA: z = real(n.a) * real(n.b) + real(n.c); break;
            case F_SQRT: { z3::expr a = real(n.a); S.add(z >= 0); S.add(z * z == a); break; } case F_DIV: { z3::expr a = real(n.a), b = real(n.b); S.add(z * b == a); S.add(b != 0); break; }
            default: { double m = F.magOf(id); if (m < 1e29) { S.add(z <= rat(m)); S.add(z >= rat(-m)); } } }
          it = nl.emplace(id, z).first; }
        t.push_back(rat(q.second) * it->second); continue; }
      if (st >= 0x7ffffff0 || (freeVars && !freeVars->count(q.first))) { kk += q.second * (st >= 0x7ffffff0 ? 0 : value(st, (int) ((int64_t) (q.first & 0xffffffff) - 0x40000000))); continue; }
      t.push_back(rat(q.second) * var(q.first)); }
    t.push_back(rat(kk)); return t.size() == 1 ? t[0] : z3::sum(t); };
  real = [&](Ref r) { auto l = F.linP(r); return sum(l->c, l->k); };
  size_t from = fc.size() > 120 ? fc.size() - 120 : 0; z3::expr zero = ctx.real_val(0);
  for (size_t i = from; i < fc.size(); i++) { auto& f = fc[i]; auto la = F.linP(f.a), lb = F.linP(f.b); std::map<uint64_t,double> m; for (auto& q : la->c) m[q.first] += q.second; for (auto& q : lb->c) m[q.first] -= q.second;
    std::vector<std::pair<uint64_t,double>> c; bool any = !freeVars; for (auto& q : m) if (q.second != 0) { c.push_back(q); if (freeVars && (freeVars->count(q.first) || (q.first >> 32) == 0x7ffffff1)) any = true; }
    if (!any) continue;
    z3::expr z = sum(c, la->k - lb->k); double er = exactErr ? 0 : la->err + lb->err; if (er > 0) { z3::expr ee = ctx.real_const(("f" + std::to_string(fresh++)).c_str()); S.add(ee <= rat(er)); S.add(ee >= rat(-er)); z = z + ee; }
    int p = f.pred; if (!f.val) { static const int inv[] = {0, 6, 5, 4, 3, 2, 1}; p = inv[p]; }
    switch (p) { case 1: S.add(z == zero); break; case 2: S.add(z > zero); break; case 3: S.add(z >= zero); break; case 4: S.add(z < zero); break; case 5: S.add(z <= zero); break; case 6: S.add(z != zero); break; } }
  if (d) { z3::expr z = sum(*d, k); if (err > 0) { z3::expr ee = ctx.real_const("e"); S.add(ee <= rat(err)); S.add(ee >= rat(-err)); z = z + ee; } S.add(z > rat(tol) || z < rat(-tol)); }
  z3::check_result r = S.check(); int res = r == z3::sat ? 1 : r == z3::unsat ? 0 : 2;
  if (res == 1 && out) { z3::model m = S.get_model(); for (auto& q : xv) { z3::expr v = m.eval(q.second, true); double dv = 0; try { dv = v.is_algebraic() ? v.as_double() : v.as_double(); } catch (...) { } (*out)[{(int) (q.first >> 32), (int) ((int64_t) (q.first & 0xffffffff) - 0x40000000)}] = (float) dv; } }
  solverTime += nowS() - t; pcTime += nowS() - t; return res;
}
ModelP Engine::solveFor(const std::vector<FCond>& fc, const FCond& c, ModelP base) {
  // variables of the new condition, most weight first
  std::map<uint64_t,double> wgt; std::set<uint32_t> seen;
  std::function<void(Ref)> walk = [&](Ref r) { auto l = F.linP(r); for (auto& q : l->c) { int st = q.first >> 32; if (st < 0x7ffffff0) wgt[q.first] += std::fabs(q.second); else if (st == 0x7ffffff1 && seen.insert((uint32_t) q.first).second) { const FNode& n = F.n[(uint32_t) q.first]; switch (n.op) { case F_MUL: case F_DIV: walk(n.a); walk(n.b); break; case F_FMA: walk(n.a); walk(n.b); walk(n.c); break; default: walk(n.a); } } } };
  walk(c.a); walk(c.b); if (wgt.empty()) return nullptr;
  std::vector<std::pair<double,uint64_t>> o; for (auto& q : wgt) o.push_back({-q.second, q.first}); std::sort(o.begin(), o.end());
  std::vector<FCond> all = fc; all.push_back(c);
  for (size_t n : {(size_t) 1, (size_t) 4, (size_t) 16, o.size()}) {
    if (n > o.size()) n = o.size(); std::set<uint64_t> fr; for (size_t i = 0; i < n; i++) fr.insert(o[i].second);
    for (int rel = 0; rel < 2; rel++) {   // with the path so far, then without it (the new path then departs earlier)
      std::map<std::pair<int,int>,float> out; if (pathQuery(rel ? std::vector<FCond>{c} : all, nullptr, 0, 0, 0, base.get(), &fr, 2, &out, true) != 1) continue;
      ModelP m = withX(F, base, out); State tmp; tmp.mdl = m; if (fcHolds(tmp, c)) return m; }
    if (n == o.size()) break; }
  return nullptr;
}
// concrete refutation of an obligation on the samples this path follows. kind 0 same, 1 negated, 2 scaled, 3 close
bool Engine::refute(State& s, V a, V b, double tol, int kind, double k) {
  auto val = [&](const V& v) { return v.k == V_FC ? v.d : v.k == V_FS ? cval(s, (Ref) v.i) : NAN; };
  double x = val(a), y = val(b); if (kind == 1) x = -x; if (kind == 2) x = (float) (x * k);
  if (std::isnan(x) && std::isnan(y)) return false; if (x == y) return false;
  if (kind == 3) return !(std::fabs(x - y) <= tol); return true;
}
void Engine::deviations() {
  double end = std::min(nowS() + O.devTime, std::chrono::duration<double>(t0.time_since_epoch()).count() + O.timeLimit); uint64_t rng = 88172645463325252ull, tick = 0;
  while (!cands.empty() && (int) devRuns < O.maxDev && nowS() < end && failCount.size() < 6) {
    rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
    // a site run least often so far
    int best = 1 << 30; std::vector<size_t> pick; for (size_t i = 0; i < cands.size(); i++) { int r = siteRuns[cands[i].site] * 4 + cands[i].gen; if (r < best) { best = r; pick.clear(); } if (r == best) pick.push_back(i); }
    size_t i = pick[rng % pick.size()]; Cand c = std::move(cands[i]); cands[i] = std::move(cands.back()); cands.pop_back(); siteRuns[c.site]++;
    ModelP m = c.direct; if (!m) { devSolved++; m = solveFor(c.fc, c.c, c.base); } if (!m) { devInfeasible++; continue; }
    State* st = clone(*initState); st->mdl = m; st->gen = c.gen + 1; st->logOn = false; st->fix = std::make_shared<std::map<std::string,int64_t>>(); for (auto& x : c.ints) (*st->fix)[x.first] = x.second;
    if (c.sticky) { st->stick = c.stat; st->arm = c.c; st->stickLeft = 160; }
    devRuns++; work.push_back(st); int n = 0;
    while (!work.empty()) { State* cur = work.back(); work.pop_back(); if (nowS() > end || n++ > 40) { delete cur; devDropped++; continue; } exec1(cur, tick); }
    if (c.sticky) { c.sticky = false; c.direct = m; cands.push_back(std::move(c)); }
  }
  for (auto& c : cands) if (!c.direct) devDropped++;
  if (devDropped) { incomplete = true; incompleteWhy = "comparison of samples: " + std::to_string(devRuns) + " further outcomes explored, others not"; }
}
