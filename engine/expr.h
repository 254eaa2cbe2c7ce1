// Hash-consed symbolic expressions: floats (DAG over stream samples) and integers (linear forms over
// bounded variables plus generic bit-vector nodes), and the solver queries over them.
#pragma once
#include "ir.h"
#include <unordered_map>
#include <z3++.h>
#include <memory>

// ---------------- floats ----------------
enum FOp : uint8_t { F_X, F_UNINIT, F_CONST, F_ADD, F_MUL, F_DIV, F_SQRT, F_TRUNC, F_EXT, F_OPAQUE, F_FMA, F_MULC, F_ABS };
// F_ADD(a,b refs), F_MULC(a, k), F_MUL(a,b) nonlinear, F_X(stream,idx)
struct FNode { uint8_t op, ty; uint8_t pad[2]; uint32_t a, b, c; double k; };
typedef uint32_t Ref;                    // node id * 2 + sign
struct Lin { std::vector<std::pair<uint64_t,double>> c; double k = 0; double err = 0; bool nonlin = false; bool uninit = false; }; // key = stream<<32 | (idx+2^31)

struct FloatDag {
  std::vector<FNode> n; std::vector<double> mag;     // magnitude bound (interval), computed lazily <0: not yet
  std::vector<uint32_t> table; 
  double box = 1.0;
  std::map<int,double> streamBox;                    // per-stream bounds
  uint64_t ops = 0;
  FloatDag() { table.assign(1 << 16, 0); n.push_back(FNode{}); mag.push_back(0); }
  Ref mk(uint8_t op, uint8_t ty, uint32_t a, uint32_t b, uint32_t c, double k);
  Ref x(int stream, int idx) { return mk(F_X, 0, stream, (uint32_t) idx, 0, 0); }
  uint32_t nextUninit = 1;
  Ref uninit() { return mk(F_UNINIT, 0, nextUninit++, 0, 0, 0); }
  Ref constant(double d, int ty) { if (d < 0 ) return mk(F_CONST, ty, 0, 0, 0, -d) ^ 1; return mk(F_CONST, ty, 0, 0, 0, d); }
  V val(const V& v, int ty, Ref& r);                 // to ref
  V add(const V& a, const V& b, int w);              // handles constants
  V mul(const V& a, const V& b, int w);
  V div(const V& a, const V& b, int w);
  V neg(const V& a);
  V un(FOp op, const V& a, int w);
  Ref toRef(const V& v, int w);
  bool isUninit(Ref r);                              // depends on an uninitialised leaf
  std::vector<int8_t> uninitMemo;
  double magOf(uint32_t id);
  Lin lin(Ref r);                                    // linear form and rounding error bound
  std::unordered_map<uint64_t, std::shared_ptr<Lin>> linMemo;
  std::shared_ptr<Lin> linP(Ref r);
  bool depends(Ref r, int stream, int lo, int hi);   // syntactic dependence on stream indices in [lo,hi]
  bool scaled(Ref a, Ref b, double k, std::unordered_map<uint64_t,bool>& memo, int sa, int sb); // b == k*a exactly (k power of two)
  double eval(Ref r, const std::vector<double>* dummy, std::unordered_map<uint32_t,double>& memo, uint32_t seed);
};
extern double g_amp;   // bound of the samples (a power of two)
float streamValue(uint32_t seed, int stream, int idx);

// ---------------- integers ----------------
enum IOp : uint8_t { I_VAR, I_LIN, I_BIN, I_CMP, I_ZEXT, I_SEXT, I_TRUNC, I_ITE, I_ADDR };
struct INode {
  IOp op; uint8_t w; uint8_t sub; uint32_t a = 0, b = 0, c = 0; int64_t k = 0;   // I_LIN: k const + terms
  std::vector<std::pair<uint32_t,int64_t>> t;                                     // (atom node, coef)
};
struct Range { __int128 lo, hi; bool ok; };
struct IVar { std::string name; int64_t lo, hi; };
struct State;
struct IntDag {
  std::vector<INode> n; std::map<std::string,uint32_t> table; std::vector<IVar> vars;
  IntDag() { n.push_back(INode{}); }
  uint32_t mk(INode&& x);
  uint32_t var(const std::string& name, int64_t lo, int64_t hi);
};
