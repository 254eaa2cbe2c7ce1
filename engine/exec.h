#pragma once
#include "expr.h"
#include <set>
#include <functional>
#include <chrono>
#include <algorithm>
#include <cmath>
enum OK_ : uint8_t { OB_GLOBAL, OB_FUNC, OB_STACK, OB_HEAP, OB_CALLER };
struct Obj {
  uint8_t kind = 0, family = 0; bool ro = false, cst = false, tls = false, realtime = false; uint32_t gen = 0; uint32_t slot = 0;
  uint64_t size = 0; uint32_t sizeExpr = 0; uint64_t base = 0; uint32_t baseExpr = 0;
  std::vector<V> g; std::string name; int allocIdx = -1;
  bool written = false;
};
typedef std::shared_ptr<Obj> ObjP;
struct Frame { int fn; int bb = 0, pc = 0; std::vector<V> r, va; std::vector<uint32_t> allocas; std::vector<std::pair<size_t,int>> stacksave; uint64_t stackBytes = 0; };
struct FCond { Ref a, b; uint8_t pred; bool val; };
struct Model { std::map<std::pair<int,int>,float> xs; std::unordered_map<uint32_t,double> memo; bool wild = false; };   // concrete samples of a path: overrides of streamValue(1, ...)
typedef std::shared_ptr<Model> ModelP;
struct Cand { FCond c; std::vector<FCond> fc; ModelP base, direct; std::vector<std::pair<std::string,int64_t>> ints; uint64_t site, stat = 0; int gen; bool sticky; };
struct LogVal { Ref r; bool isConst; double k; };
struct State {
  std::vector<Frame> fr;
  std::vector<ObjP> mem; std::vector<uint32_t> freeSlots; std::vector<uint32_t> gens;
  std::vector<std::pair<int64_t,int64_t>> rng;     // per variable
  std::vector<std::pair<uint32_t,bool>> pc;        // path constraints
  std::vector<FCond> fc;
  std::map<uint32_t, uint32_t> dirtyCells;         // (obj<<?) tracking
  std::set<std::pair<uint32_t,uint32_t>> dirty; bool trackDirty = false;
  uint32_t csr = 0x1f80; uint64_t rnd = 1;         // MXCSR, state of rand()
  int region = 0; int guard = 0; int64_t ioCount = 0; int64_t allocCount = 0; int64_t failAt = -1; uint32_t failAtE = 0; int64_t liveHeap = 0;
  uint64_t nextBase = 0x10000000; uint64_t stackUse = 0, stackMax = 0;
  V exc; V excType; std::vector<std::pair<V,V>> caught; int uncaught = 0;
  uint64_t steps = 0; int bad = 0; int fforks = 0; int id = 0;
  std::vector<LogVal> log; uint64_t logCount = 0; bool logOn = false;
  std::vector<std::pair<std::string,int64_t>> notes;
  int heapMod = 0; uint32_t heapModE = 0; bool dead = false; int internalDepth = 0;
  int interference = 0; std::vector<ObjP> savedGlobals;
  ModelP mdl; int gen = 0; uint64_t stick = 0; FCond arm{}; bool armed = false; int stickLeft = 0; std::shared_ptr<std::map<std::string,int64_t>> fix;
};
struct Event { std::string cat, msg, func; int line; std::vector<std::pair<std::string,int64_t>> model; std::string stack; std::vector<std::tuple<int,int,double>> xs; };
struct Fail { std::string kind, tag; int64_t idx; std::vector<std::pair<std::string,int64_t>> model; std::vector<std::tuple<int,int,double>> xs; std::string detail; double diff = 0; bool path = false; };
struct Emit { std::string tag; int64_t idx; Lin l; };
struct Options {
  std::map<std::string,int64_t> cfg; std::string entry = "vp_main"; double timeLimit = 100; uint64_t maxPaths = 1000000; uint64_t maxSteps = 2000000000ull;
  int failLimit = 12; double box = 1.0; std::set<std::string> cats; int logPaths = 2; int loopLimit = 0; double fpTimeout = 5; double devTime = 8; int maxDev = 60;
};
struct Engine {
  ::Module& M; Options O; FloatDag F; IntDag I; z3::context ctx; 
  std::vector<State*> work; std::vector<Event> events; std::set<std::string> eventKeys; std::vector<Fail> fails; std::map<std::string,int> failCount;
  std::vector<Emit> emits; std::set<std::pair<std::string,int64_t>> emitKeys;
  std::map<std::string,uint64_t> reach; std::set<int> funcsRun; std::set<std::string> unsupported; std::map<std::string,uint64_t> tagCount;
  uint64_t paths = 0, forks = 0, instrs = 0, intQ = 0, lraQ = 0, fpQ = 0, oblig = 0, obligDistinct = 0, structural = 0, kills = 0; double solverTime = 0; bool incomplete = false; std::string incompleteWhy;
  double maxErr = 0;
  std::vector<std::string> logs;
  std::chrono::steady_clock::time_point t0;
  Engine(::Module& m, const Options& o);
  // ints
  uint32_t exprOf(const V& v); V fromExpr(uint32_t id, int w); V simp(State& s, V v);
  bool evalC(State& s, uint32_t e, uint64_t& out); Range srange(State& s, uint32_t e); Range urange(State& s, uint32_t e);
  V lin2(const V& a, int64_t ca, const V& b, int64_t cb, int w); V linK(const V& a, int64_t k, int w);
  V ibin(State& s, int op, V a, V b, int w); V icmp(State& s, int pred, V a, V b, int w);
  V cast(State& s, const Inst& in, int op, V a, int sw, int dw, Ty dt);
  z3::expr zx(uint32_t e); std::unordered_map<uint32_t, std::shared_ptr<z3::expr>> zmemo;
  int checkInt(State& s, uint32_t cond, bool val, std::vector<int64_t>* model); std::unordered_map<std::string,int> intCache;
  void constrain(State& s, uint32_t cond, bool val);
  bool decide(State& s, V c); int64_t concretize(State& s, V v); 
  bool mayBe(State& s, V c, bool val, std::vector<int64_t>* model);
  std::vector<std::pair<std::string,int64_t>> modelOf(State& s, std::vector<int64_t>* m);
  // comparisons of samples: each path follows concrete samples (ModelP); the other outcomes are solved for and run later
  ModelP nominal; std::vector<Cand> cands; std::unordered_map<uint64_t,int> siteCount, siteRuns; std::set<int> wildStreams; uint64_t devRuns = 0, devSolved = 0, devInfeasible = 0, devDropped = 0, pcQ = 0; double pcTime = 0; State* initState = nullptr; bool concretised = false;
  double cval(State& s, Ref r); bool fcHolds(State& s, const FCond& c); uint64_t siteOf(State& s); V fbits(State& s, const V& v); V concFloat(State& s, const V& v, const char* why); void propose(State& s, const FCond& c); void proposeDirect(State& s, Ref leafOf, float val, uint64_t salt, bool any);
  int pathQuery(const std::vector<FCond>& fc, const std::vector<std::pair<uint64_t,double>>* d, double k, double err, double tol, Model* base, const std::set<uint64_t>* freeVars, double timeout, std::map<std::pair<int,int>,float>* out, bool exactErr);
  ModelP solveFor(const std::vector<FCond>& fc, const FCond& c, ModelP base); bool refute(State& s, V a, V b, double tol, int kind, double k); void deviations(); bool pathUndecided(State& s, const std::vector<std::pair<uint64_t,double>>& d, double k, double err, double tol, const std::string& tag, int64_t idx, const char* kind = "close"); std::vector<std::tuple<int,int,double>> xsOf(State& s); void exec1(State* cur, uint64_t& tick);
  V fcmp(State& s, int pred, const V& a, const V& b, int w);
  // memory
  Obj* obj(State& s, uint32_t id, bool write = false);
  uint32_t newObj(State& s, uint8_t kind, uint64_t size, int align, const std::string& name);
  void killObj(State& s, uint32_t id);
  V addrOf(State& s, const V& p); V toPtr(State& s, V v);
  bool access(State& s, V p, uint64_t size, bool write, int align, uint32_t& id, int64_t& off, bool vec = false);
  V loadLane(State& s, Obj* o, int64_t off, const Lane& l); void storeLane(State& s, Obj* o, uint32_t id, int64_t off, const Lane& l, V v);
  uint8_t byteAt(Obj* o, int64_t off, bool& init, bool& sym); void setByte(Obj* o, int64_t off, uint8_t b, bool init);
  void copyMem(State& s, V d, V src, V n, bool move); void setMem(State& s, V d, V b, V n);
  std::string cstr(State& s, V p);
  // exec
  void run(); bool step(State& s); void call(State& s, int fn, std::vector<V>& args, const Inst* ci); bool external(State& s, const Inst& in, const std::string& name, std::vector<V>& args, V& ret, bool& hasRet);
  void event(State& s, const std::string& cat, const std::string& msg, std::vector<int64_t>* model = nullptr);
  void fail(State& s, const std::string& kind, const std::string& tag, int64_t idx, const std::string& detail, std::vector<int64_t>* model, const std::vector<std::tuple<int,int,double>>& xs, double diff = 0);
  State* clone(State& s); void throwExc(State& s, V ptr, V type); bool typeMatches(const std::string& thrown, const V& thrownV, const V& c);
  void popFrame(State& s); void finish(State& s); void takeEdge(State& s, Frame& f, const Edge& e); void doReturn(State& s, std::vector<V>& vals);
  void oClose(State& s, V a, V b, double tol, const std::string& tag, int64_t idx, bool tight); void oSame(State& s, V a, V b, const std::string& tag, int64_t idx, int kind, double k, int sa, int sb);
  void oIndep(State& s, V a, int stream, int64_t lo, int64_t hi, const std::string& tag, int64_t idx);
  int lra(const std::vector<std::pair<uint64_t,double>>& c, double k, double err, double tol, State* s, std::vector<std::tuple<int,int,double>>* xs);
  std::unordered_map<std::string,int> lraCache; std::unordered_map<uint64_t,int> pairCache; std::unordered_map<std::string,std::pair<int,std::vector<float>>> fpCache; double fpTime = 0; std::map<std::string,Fail> lraFails;
  V get(Frame& f, int op) { return op < 0 ? M.funcs[f.fn].consts[~op] : f.r[op]; }
  uint32_t funcBase() { return 1 + M.globals.size(); }
  uint32_t dynBase = 0; std::vector<ObjP> baseMem;
  std::string where(State& s, int* line, std::string* stack);
  struct Abort { std::string why; }; void hang(State& s, const char* why);
  void kill(State& s, const std::string& why);
  std::string json(); std::vector<std::pair<V,V>> packs; std::vector<V> vecRet;
};
std::string jstr(const std::string& s);
