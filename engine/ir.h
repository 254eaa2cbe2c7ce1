// Compact internal form of the LLVM IR of the code under test.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <cstring>

enum VK : uint8_t { V_UNDEF, V_INT, V_SINT, V_PTR, V_PTRS, V_FC, V_FS, V_PACK, V_BYTES, V_CONT };
// one scalar value
struct V {
  uint8_t k = V_UNDEF; uint8_t w = 0; uint16_t fl = 0; uint32_t obj = 0;
  union { int64_t i; double d; };
  V() : i(0) {}
};
static inline uint64_t maskw(int w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sextw(uint64_t v, int w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }
static inline V mkInt(uint64_t v, int w) { V r; r.k = V_INT; r.w = w; r.i = v & maskw(w); return r; }
static inline V mkPtr(uint32_t o, int64_t off) { V r; r.k = V_PTR; r.w = 64; r.obj = o; r.i = off; return r; }
static inline V mkF(double d, int w) { V r; r.k = V_FC; r.w = w; r.d = d; return r; }
static inline V mkFS(int64_t ref, int w) { V r; r.k = V_FS; r.w = w; r.i = ref; return r; }
static inline V mkUndef(int w) { V r; r.w = w; return r; }

enum Ty : uint8_t { T_INT, T_F32, T_F64, T_PTR };
struct Lane { Ty t; uint8_t w; uint8_t bytes; uint32_t off; };   // flattened scalar component
typedef std::vector<Lane> Lanes;

enum Op : uint16_t {
  O_ALLOCA, O_LOAD, O_STORE, O_GEP, O_BIN, O_FNEG, O_ICMP, O_FCMP, O_CAST, O_SELECT, O_BR, O_CONDBR, O_SWITCH,
  O_RET, O_CALL, O_SHUFFLE, O_EXTRACT, O_INSERT, O_COPY, O_UNREACHABLE, O_LANDINGPAD, O_RESUME, O_FREEZE, O_UNSUP,
  O_EXTRACTE, O_INSERTE, O_ATOMICRMW, O_CMPXCHG, O_FENCE
};
struct Edge { int bb; std::vector<std::pair<int,int>> moves; };   // dst reg, src operand
struct Inst {
  Op op; uint8_t sub = 0;           // opcode / predicate / cast
  Lane ty{};                        // element type of the operation
  Lane ty2{};                       // source element type (cast), index width..
  int lanes = 1;
  int dst = -1;
  std::vector<int> a;               // operands (flattened); <0: constant
  std::vector<int64_t> k;           // literals: gep scales, shuffle mask, switch values
  Lanes mem;                        // lanes for load/store/alloca
  int64_t size = 0;                 // gep const offset / alloca elem size / store size
  int align = 1;
  std::vector<Edge> e;              // branch edges; call: [normal, unwind]
  int callee = -1;                  // function index or -1 = indirect
  std::string name;                 // intrinsic/external name / unsupported text
  std::vector<std::pair<int,int>> clauses; // landingpad: (kind 0 catch,1 filter; const operand)
  bool cleanup = false;
  int line = 0; int file = -1;
  int retlanes = 0;
};
struct Func {
  std::string name, pretty;
  bool decl = true;
  int nregs = 0, nargs = 0;
  std::vector<int> argLanes;
  std::vector<V> consts;
  std::vector<std::vector<Inst>> bbs;
  std::vector<std::string> files;
  Lanes ret;
};
struct Reloc { uint32_t off; V v; };
struct Global {
  std::string name; uint64_t size = 0; int align = 1; bool constant = false, tls = false, external = false;
  std::vector<uint8_t> bytes; std::vector<uint8_t> init; std::vector<Reloc> relocs;
};
struct Module {
  std::vector<Func> funcs; std::map<std::string,int> fidx;
  std::vector<Global> globals; std::map<std::string,int> gidx;
  std::vector<int> ctors;
  std::vector<std::string> files;
};
// object ids: 0 = null, then globals, then functions, then dynamic
static inline uint32_t globalObj(int g) { return 1 + g; }
bool loadModule(const std::string& path, Module& M, std::string& err);
