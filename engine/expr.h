// Hash-consed symbolic expressions (bit-vectors and IEEE doubles/floats), evaluator, lowering to Z3.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <unordered_map>
#include <memory>
#include <z3.h>

enum class Op : uint8_t {
  Const, Var,
  Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
  Concat, Extract, ZExt, SExt, Ite, Eq, ULt, ULe, SLt, SLe,
  FAdd, FSub, FMul, FDiv, FNeg, FAbs, FSqrt, FFloor, FCeil, FTrunc, FRem,
  FEq, FLt, FLe, FIsNan,
  BV2F, F2BV, SI2F, UI2F, F2SI, F2UI, FConv
};

struct Expr {
  Op op; bool fp; uint16_t w; uint32_t id;
  Expr* k[3]; uint64_t c;      // c: constant bits / var index / extract low bit
  bool hasFP, hasNL;           // contains floating point / contains non-linear or division fp ops
  std::shared_ptr<std::vector<uint32_t>> vars;
  // evaluator memo
  mutable uint64_t evEpoch = 0; mutable uint64_t evVal = 0;
};

struct VarInfo { std::string name; unsigned w; bool isDouble; };
typedef std::unordered_map<uint32_t, uint64_t> Model; // var index -> bits

namespace ex {
extern std::vector<VarInfo> vars;
Expr* mk(Op op, bool fp, unsigned w, uint64_t c, Expr* a = nullptr, Expr* b = nullptr, Expr* d = nullptr);
Expr* bv(uint64_t v, unsigned w);
Expr* fpc(uint64_t bits, unsigned w);
Expr* var(const std::string& name, unsigned w, bool isDouble = false);
Expr* bin(Op op, Expr* a, Expr* b);
Expr* cmp(Op op, Expr* a, Expr* b);
Expr* fbin(Op op, Expr* a, Expr* b);
Expr* fun(Op op, Expr* a);
Expr* fcmp(Op op, Expr* a, Expr* b);
Expr* not1(Expr* a);
Expr* and1(Expr* a, Expr* b);
Expr* or1(Expr* a, Expr* b);
Expr* ite(Expr* c, Expr* a, Expr* b);
Expr* extract(Expr* a, unsigned lo, unsigned w);
Expr* concat(Expr* hi, Expr* lo);
Expr* zext(Expr* a, unsigned w);
Expr* sext(Expr* a, unsigned w);
Expr* bv2f(Expr* a);
Expr* f2bv(Expr* a);
Expr* conv(Op op, Expr* a, bool fp, unsigned w);
bool isTrue(Expr* e); bool isFalse(Expr* e); inline bool isConst(Expr* e) { return e->op == Op::Const; }
uint64_t eval(Expr* e, const Model& m, uint64_t epoch);
uint64_t newEpoch();
std::string str(Expr* e, int depth = 6);
const std::vector<uint32_t>& varsOf(Expr* e);
inline uint64_t mask(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
}

enum class Mode { Precise = 0, Abstract = 1, Real = 2, Order = 3 }; // Order: doubles as extended reals with a NaN flag, arithmetic opaque up to sound axioms
enum class Res { Unsat, Sat, Unknown };

struct SolverStats { uint64_t queries = 0, order = 0, sat = 0, unsat = 0, unknown = 0, ns = 0, precise = 0, real = 0, maxns = 0; };

struct Solver {
  SolverStats st;
  unsigned rlimit = 0, timeoutMs = 0;
  Solver();
  // one-mode query; m receives a model of the *variables* (for Abstract it may not satisfy the precise semantics)
  Res query(const std::vector<Expr*>& cs, Mode mode, Model* m, const std::vector<std::string>* extraReal = nullptr);
  // full decision procedure: abstract first, then precise
  // confirmed: model verified by concrete evaluation
  Res check(const std::vector<Expr*>& cs, Model* m, bool* modelOk, bool allowPrecise);
  std::string toSmt2(const std::vector<Expr*>& cs, Mode mode);
  std::string cvc5(const std::string& smt2);
};
