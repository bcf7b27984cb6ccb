// Hash-consed bit-vector / IEEE-float expressions with constant folding.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <vector>
#include <string>
#include <unordered_map>
#include <algorithm>
#include <z3.h>

enum EK : uint8_t {
  KConst, KVar,
  KAdd, KSub, KMul, KUDiv, KSDiv, KURem, KSRem, KAnd, KOr, KXor, KShl, KLShr, KAShr,
  KEq, KUlt, KUle, KSlt, KSle, KIte, KConcat, KExtract, KZExt, KSExt,
  KFAdd, KFSub, KFMul, KFDiv, KFOeq, KFOlt, KFOle, KFUno,
  KFExt, KFTrunc, KSIToFP, KUIToFP, KFPToSI, KFPToUI, KFSqrt, KFRti /* val = mode */
};
struct Expr {
  EK k; uint8_t w; bool taint, fp; uint32_t id;
  uint64_t val;                 // KConst value, KVar index, KExtract low bit, KFRti mode
  const Expr *a, *b, *c;
  mutable std::vector<uint32_t>* vars;   // sorted variable indices
  mutable Z3_ast zv, zb, zf;
  mutable uint64_t epoch, ev;
  uint64_t lo, hi;              // unsigned range
};
typedef const Expr* E;

struct VarInfo { std::string name; uint8_t w; bool uninit; bool uf; };
extern std::vector<VarInfo> VARS;

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sx(uint64_t v, unsigned w) { if (w >= 64) return (int64_t)v; uint64_t m = 1ull << (w - 1); v &= maskw(w); return (int64_t)((v ^ m) - m); }

E mkConst(uint64_t v, unsigned w);
E mkVar(const std::string& name, unsigned w, bool uninit, bool uf = false);
E mkBin(EK k, E a, E b);
E mkIte(E c, E a, E b);
E mkConcat(E hi, E lo);
E mkExtract(E a, unsigned lo, unsigned w);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkUn(EK k, E a, unsigned w, uint64_t val = 0);
static inline E mkNot(E a) { return mkBin(KXor, a, mkConst(1, 1)); }
const std::vector<uint32_t>& varsOf(E e);
uint64_t foldBin(EK k, uint64_t a, uint64_t b, unsigned w);   // w: operand width
uint64_t foldUn(EK k, uint64_t a, unsigned wa, unsigned w, uint64_t val);

typedef std::vector<uint64_t> Model;   // indexed by var; missing => 0
uint64_t evalE(E e, const Model& m);
void newEvalEpoch();
std::string exprStr(E e, int depth = 6);

struct Lower {
  Z3_context c; Z3_sort f32, f64; Z3_ast rne, rtz, rtp, rtn, rna;
  void init();
  Z3_ast bv(E e); Z3_ast bo(E e); Z3_ast fp(E e);
  Z3_ast var(uint32_t idx);
  std::vector<Z3_ast> vcache;
};
