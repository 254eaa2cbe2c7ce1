#include "exec.h"
#include <cstdio>
#include <fstream>
#include <sys/resource.h>
#include <unistd.h>
std::string jstr(const std::string& s) { std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
static std::string num(double d) { if (d != d || std::isinf(d)) return "null"; char b[40]; snprintf(b, 40, "%.17g", d); return b; }
static std::string xnum(double d) { if (d != d) return "NaN"; if (std::isinf(d)) return d > 0 ? "Infinity" : "-Infinity"; return num(d); }
static std::string model(const std::vector<std::pair<std::string,int64_t>>& m) { std::string j = "{"; bool c = false; for (auto& x : m) { j += std::string(c ? "," : "") + jstr(x.first) + ":" + std::to_string(x.second); c = true; } return j + "}"; }
std::string Engine::json() {
  std::string j = "{"; auto kv = [&](const char* k, const std::string& v) { if (j.size() > 1) j += ",\n"; j += jstr(k) + ":" + v; };
  kv("paths", std::to_string(paths)); kv("forks", std::to_string(forks)); kv("instructions", std::to_string(instrs)); kv("int_queries", std::to_string(intQ)); kv("lra_queries", std::to_string(lraQ)); kv("fp_queries", std::to_string(fpQ));
  kv("obligations", std::to_string(oblig)); kv("obligations_distinct", std::to_string(obligDistinct)); kv("obligations_structural", std::to_string(structural)); kv("solver_time", num(solverTime)); kv("float_nodes", std::to_string(F.n.size())); kv("deviation_runs", std::to_string(devRuns)); kv("deviations_infeasible", std::to_string(devInfeasible)); kv("path_queries", std::to_string(pcQ)); kv("max_err", num(maxErr));
  kv("incomplete", incomplete ? jstr(incompleteWhy) : "null"); kv("wall", num(std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count()));
  std::string t = "["; for (auto& u : unsupported) t += (t.size() > 1 ? "," : "") + jstr(u); kv("unsupported", t + "]");
  t = "["; for (int f : funcsRun) { std::string p = M.funcs[f].pretty; if (p.compare(0, 2, "vp") == 0 || p.compare(0, 2, "h_") == 0) continue; if (p.find("PandaResampler") == std::string::npos) continue; t += (t.size() > 1 ? "," : "") + jstr(p.substr(0, 160)); } kv("functions", t + "]");
  t = "{"; for (auto& r : reach) t += std::string(t.size() > 1 ? "," : "") + jstr(r.first) + ":" + std::to_string(r.second); kv("reach", t + "}");
  t = "{"; for (auto& r : tagCount) t += std::string(t.size() > 1 ? "," : "") + jstr(r.first) + ":" + std::to_string(r.second); kv("tags", t + "}");
  t = "["; for (auto& v : I.vars) t += std::string(t.size() > 1 ? "," : "") + "{\"name\":" + jstr(v.name) + ",\"lo\":" + std::to_string(v.lo) + ",\"hi\":" + std::to_string(v.hi) + "}"; kv("vars", t + "]");
  auto xsj = [&](const std::vector<std::tuple<int,int,double>>& xs) { std::string t = "["; for (auto& x : xs) t += std::string(t.size() > 1 ? "," : "") + "[" + std::to_string(std::get<0>(x)) + "," + std::to_string(std::get<1>(x)) + "," + xnum(std::get<2>(x)) + "]"; return t + "]"; };
  t = "["; for (auto& e : events) t += std::string(t.size() > 1 ? ",\n" : "") + "{\"cat\":" + jstr(e.cat) + ",\"msg\":" + jstr(e.msg) + ",\"func\":" + jstr(e.func) + ",\"line\":" + std::to_string(e.line) + ",\"stack\":" + jstr(e.stack) + ",\"model\":" + model(e.model) + ",\"xs\":" + xsj(e.xs) + "}"; kv("events", t + "]");
  t = "["; for (auto& f : fails) { t += std::string(t.size() > 1 ? ",\n" : "") + "{\"kind\":" + jstr(f.kind) + ",\"tag\":" + jstr(f.tag) + ",\"idx\":" + std::to_string(f.idx) + ",\"detail\":" + jstr(f.detail) + ",\"diff\":" + num(f.diff) + ",\"path\":" + (f.path ? "true" : "false") + ",\"model\":" + model(f.model) + ",\"xs\":["; bool c = false; for (auto& x : f.xs) { t += std::string(c ? "," : "") + "[" + std::to_string(std::get<0>(x)) + "," + std::to_string(std::get<1>(x)) + "," + xnum(std::get<2>(x)) + "]"; c = true; } t += "]}"; } kv("fails", t + "]");
  t = "{"; for (auto& r : failCount) t += std::string(t.size() > 1 ? "," : "") + jstr(r.first) + ":" + std::to_string(r.second); kv("fail_counts", t + "}");
  t = "["; for (auto& e : emits) { t += std::string(t.size() > 1 ? ",\n" : "") + "{\"tag\":" + jstr(e.tag) + ",\"idx\":" + std::to_string(e.idx) + ",\"k\":" + num(e.l.k) + ",\"err\":" + num(e.l.err) + ",\"nonlin\":" + (e.l.nonlin ? "true" : "false") + ",\"uninit\":" + (e.l.uninit ? "true" : "false") + ",\"c\":["; bool c = false; for (auto& x : e.l.c) { t += std::string(c ? "," : "") + "[" + std::to_string((int) (x.first >> 32)) + "," + std::to_string((int64_t) (x.first & 0xffffffff) - 0x40000000) + "," + num(x.second) + "]"; c = true; } t += "]}"; } kv("emits", t + "]");
  t = "["; for (auto& l : logs) t += std::string(t.size() > 1 ? ",\n" : "") + l; kv("logs", t + "]");
  return j + "}\n";
}
int main(int argc, char** argv) {
  Options O; std::string bc, out;
  for (int i = 1; i < argc; i++) { std::string a = argv[i];
    auto val = [&](const char* p) { size_t l = strlen(p); return a.compare(0, l, p) == 0 ? argv[i] + l : nullptr; }; const char* v;
    if ((v = val("--time="))) O.timeLimit = atof(v); else if ((v = val("--paths="))) O.maxPaths = atoll(v); else if ((v = val("--out="))) out = v; else if ((v = val("--entry="))) O.entry = v; else if ((v = val("--box="))) O.box = atof(v); else if ((v = val("--logs="))) O.logPaths = atoi(v); else if ((v = val("--dev="))) O.devTime = atof(v); else if ((v = val("--devs="))) O.maxDev = atoi(v); else if ((v = val("--fails="))) O.failLimit = atoi(v);
    else if ((v = val("--mem="))) { rlimit r; r.rlim_cur = r.rlim_max = (rlim_t) atoll(v) << 20; setrlimit(RLIMIT_AS, &r); }
    else if (a.find('=') != std::string::npos) { size_t p = a.find('='); O.cfg[a.substr(0, p)] = atoll(a.c_str() + p + 1); } else bc = a; }
  static ::Module M; std::string err;
  if (!loadModule(bc, M, err)) { fprintf(stderr, "load: %s\n", err.c_str()); return 3; }
  Engine E(M, O); 
  try { E.run(); } catch (Engine::Abort& a) { E.incomplete = true; E.incompleteWhy = a.why; } catch (std::bad_alloc&) { E.incomplete = true; E.incompleteWhy = "memory budget"; for (auto w : E.work) delete w; }
  std::string j = E.json(); if (out.empty()) fputs(j.c_str(), stdout); else { std::ofstream f(out); f << j; }
  fflush(stdout); _exit(0);
}
