#include "expr.h"
#include <cstring>
#include <cmath>
#include <algorithm>
#include <time.h>
#include <signal.h>
#include <sys/time.h>
#include <set>

namespace ex {
std::vector<VarInfo> vars;
static std::unordered_multimap<uint64_t, Expr*> tab;
static std::vector<Expr*> all;

static uint64_t hsh(Op op, bool fp, unsigned w, uint64_t c, Expr* a, Expr* b, Expr* d) {
  uint64_t h = (uint64_t)op * 0x9E3779B97F4A7C15ull + w * 31 + fp;
  auto mix = [&](uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
  mix(c); mix(a ? a->id + 1 : 0); mix(b ? b->id + 1 : 0); mix(d ? d->id + 1 : 0);
  return h;
}
Expr* mk(Op op, bool fp, unsigned w, uint64_t c, Expr* a, Expr* b, Expr* d) {
  uint64_t h = hsh(op, fp, w, c, a, b, d);
  auto r = tab.equal_range(h);
  for (auto it = r.first; it != r.second; ++it) {
    Expr* e = it->second;
    if (e->op == op && e->fp == fp && e->w == w && e->c == c && e->k[0] == a && e->k[1] == b && e->k[2] == d) return e;
  }
  Expr* e = new Expr();
  e->op = op; e->fp = fp; e->w = w; e->c = c; e->k[0] = a; e->k[1] = b; e->k[2] = d; e->id = all.size();
  e->hasFP = fp; e->hasNL = op == Op::FMul || op == Op::FAdd || op == Op::FSub || op == Op::FDiv || op == Op::FRem || op == Op::FSqrt || (op == Op::FConv && a && w < a->w);
  for (auto x : e->k) if (x) { e->hasFP |= x->hasFP; e->hasNL |= x->hasNL; }
  all.push_back(e); tab.emplace(h, e);
  return e;
}
Expr* bv(uint64_t v, unsigned w) { return mk(Op::Const, false, w, v & mask(w)); }
Expr* fpc(uint64_t bits, unsigned w) { return mk(Op::Const, true, w, bits & mask(w)); }
Expr* var(const std::string& name, unsigned w, bool isDouble) {
  vars.push_back({name, w, isDouble});
  return mk(Op::Var, false, w, vars.size() - 1);
}
static inline int64_t sx(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }
static double asD(uint64_t b) { double d; memcpy(&d, &b, 8); return d; }
static uint64_t asB(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }
static float asF(uint64_t b) { float d; uint32_t x = b; memcpy(&d, &x, 4); return d; }
static uint64_t asBF(float d) { uint32_t b; memcpy(&b, &d, 4); return b; }

static uint64_t evalOp(const Expr* e, const uint64_t* v) {
  unsigned w = e->w; unsigned kw = e->k[0] ? e->k[0]->w : 0;
  auto D = [&](int i) { return e->k[i]->w == 64 ? asD(v[i]) : (double)asF(v[i]); };
  auto RD = [&](double d) { return w == 64 ? asB(d) : asBF((float)d); };
  switch (e->op) {
    case Op::Add: return (v[0] + v[1]) & mask(w);
    case Op::Sub: return (v[0] - v[1]) & mask(w);
    case Op::Mul: return (v[0] * v[1]) & mask(w);
    case Op::UDiv: return v[1] ? v[0] / v[1] : mask(w);
    case Op::URem: return v[1] ? v[0] % v[1] : v[0];
    case Op::SDiv: { int64_t a = sx(v[0], w), b = sx(v[1], w); if (!b) return (a < 0 ? 1 : mask(w)) & mask(w); if (b == -1) return (0 - (uint64_t)a) & mask(w); return (uint64_t)(a / b) & mask(w); }
    case Op::SRem: { int64_t a = sx(v[0], w), b = sx(v[1], w); if (!b) return v[0]; if (b == -1) return 0; return (uint64_t)(a % b) & mask(w); }
    case Op::And: return v[0] & v[1];
    case Op::Or: return v[0] | v[1];
    case Op::Xor: return v[0] ^ v[1];
    case Op::Shl: return v[1] >= w ? 0 : (v[0] << v[1]) & mask(w);
    case Op::LShr: return v[1] >= w ? 0 : v[0] >> v[1];
    case Op::AShr: return (uint64_t)(sx(v[0], w) >> (v[1] >= w ? w - 1 : v[1])) & mask(w);
    case Op::Concat: return ((v[0] << e->k[1]->w) | v[1]) & mask(w);
    case Op::Extract: return (v[0] >> e->c) & mask(w);
    case Op::ZExt: return v[0];
    case Op::SExt: return (uint64_t)sx(v[0], kw) & mask(w);
    case Op::Ite: return v[0] ? v[1] : v[2];
    case Op::Eq: return v[0] == v[1];
    case Op::ULt: return v[0] < v[1];
    case Op::ULe: return v[0] <= v[1];
    case Op::SLt: return sx(v[0], kw) < sx(v[1], kw);
    case Op::SLe: return sx(v[0], kw) <= sx(v[1], kw);
    case Op::FAdd: return w == 64 ? asB(asD(v[0]) + asD(v[1])) : asBF(asF(v[0]) + asF(v[1]));
    case Op::FSub: return w == 64 ? asB(asD(v[0]) - asD(v[1])) : asBF(asF(v[0]) - asF(v[1]));
    case Op::FMul: return w == 64 ? asB(asD(v[0]) * asD(v[1])) : asBF(asF(v[0]) * asF(v[1]));
    case Op::FDiv: return w == 64 ? asB(asD(v[0]) / asD(v[1])) : asBF(asF(v[0]) / asF(v[1]));
    case Op::FRem: return RD(std::fmod(D(0), D(1)));
    case Op::FNeg: return v[0] ^ (1ull << (w - 1));
    case Op::FAbs: return v[0] & ~(1ull << (w - 1)) & mask(w);
    case Op::FSqrt: return w == 64 ? asB(std::sqrt(asD(v[0]))) : asBF(std::sqrt(asF(v[0])));
    case Op::FFloor: return RD(std::floor(D(0)));
    case Op::FCeil: return RD(std::ceil(D(0)));
    case Op::FTrunc: return RD(std::trunc(D(0)));
    case Op::FEq: return D(0) == D(1);
    case Op::FLt: return D(0) < D(1);
    case Op::FLe: return D(0) <= D(1);
    case Op::FIsNan: return D(0) != D(0);
    case Op::BV2F: return v[0];
    case Op::F2BV: return v[0];
    case Op::SI2F: return w == 64 ? asB((double)sx(v[0], kw)) : asBF((float)sx(v[0], kw));
    case Op::UI2F: return w == 64 ? asB((double)v[0]) : asBF((float)v[0]);
    case Op::F2SI: { double d = D(0); if (d != d || std::fabs(d) >= 9.3e18) return 0; return (uint64_t)(int64_t)d & mask(w); }
    case Op::F2UI: { double d = D(0); if (d != d || d < 0 || d >= 1.8e19) return 0; return (uint64_t)d & mask(w); }
    case Op::FConv: return RD(D(0));
    default: return 0;
  }
}
static bool isNanBits(uint64_t b, unsigned w) { return w == 64 ? asD(b) != asD(b) : asF(b) != asF(b); }

static Expr* foldMk(Op op, bool fp, unsigned w, uint64_t c, Expr* a, Expr* b = nullptr, Expr* d = nullptr) {
  if (isConst(a) && (!b || isConst(b)) && (!d || isConst(d))) {
    Expr t; t.op = op; t.fp = fp; t.w = w; t.c = c; t.k[0] = a; t.k[1] = b; t.k[2] = d;
    uint64_t v[3] = {a->c, b ? b->c : 0, d ? d->c : 0};
    uint64_t r = evalOp(&t, v);
    return fp ? fpc(r, w) : bv(r, w);
  }
  return mk(op, fp, w, c, a, b, d);
}
bool isTrue(Expr* e) { return e->op == Op::Const && e->c == 1 && e->w == 1; }
bool isFalse(Expr* e) { return e->op == Op::Const && e->c == 0 && e->w == 1; }

Expr* bin(Op op, Expr* a, Expr* b) {
  unsigned w = a->w;
  if (isConst(a) && !isConst(b) && (op == Op::Add || op == Op::Mul || op == Op::And || op == Op::Or || op == Op::Xor)) std::swap(a, b);
  if (isConst(b)) {
    if (b->c == 0 && (op == Op::Add || op == Op::Sub || op == Op::Or || op == Op::Xor || op == Op::Shl || op == Op::LShr || op == Op::AShr)) return a;
    if (b->c == 0 && (op == Op::And || op == Op::Mul)) return b;
    if (b->c == mask(w) && op == Op::And) return a;
    if (b->c == mask(w) && op == Op::Or) return b;
    if (b->c == 1 && (op == Op::Mul || op == Op::UDiv)) return a;
    if (op == Op::Xor && w == 1 && b->c == 1) {
      if (a->op == Op::Xor && isConst(a->k[1]) && a->k[1]->c == 1) return a->k[0];
    }
    if (op == Op::And && a->op == Op::ZExt && (b->c & mask(a->k[0]->w)) == mask(a->k[0]->w)) return a;
    if (op == Op::Add && a->op == Op::Add && isConst(a->k[1])) return bin(Op::Add, a->k[0], bv(a->k[1]->c + b->c, w));
  }
  if (a == b) {
    if (op == Op::Sub || op == Op::Xor) return bv(0, w);
    if (op == Op::And || op == Op::Or) return a;
  }
  return foldMk(op, false, w, 0, a, b);
}
Expr* not1(Expr* a) { return bin(Op::Xor, a, bv(1, 1)); }
Expr* and1(Expr* a, Expr* b) {
  if (isTrue(a)) return b; if (isTrue(b)) return a; if (isFalse(a) || isFalse(b)) return bv(0, 1);
  return bin(Op::And, a, b);
}
Expr* or1(Expr* a, Expr* b) {
  if (isFalse(a)) return b; if (isFalse(b)) return a; if (isTrue(a) || isTrue(b)) return bv(1, 1);
  return bin(Op::Or, a, b);
}
Expr* cmp(Op op, Expr* a, Expr* b) {
  if (a == b) return bv(op == Op::Eq || op == Op::ULe || op == Op::SLe, 1);
  if (op == Op::Eq) {
    if (isConst(a)) std::swap(a, b);
    if (isConst(b)) {
      if (a->w == 1) return b->c ? a : not1(a);
      if (a->op == Op::ZExt) {
        if (b->c & ~mask(a->k[0]->w)) return bv(0, 1);
        return cmp(Op::Eq, a->k[0], bv(b->c, a->k[0]->w));
      }
      if (a->op == Op::SExt) {
        uint64_t t = b->c & mask(a->k[0]->w);
        if (((uint64_t)sx(t, a->k[0]->w) & mask(a->w)) != b->c) return bv(0, 1);
        return cmp(Op::Eq, a->k[0], bv(t, a->k[0]->w));
      }
      if (a->op == Op::Ite && isConst(a->k[1]) && isConst(a->k[2])) {
        bool t = a->k[1]->c == b->c, f = a->k[2]->c == b->c;
        if (t && f) return bv(1, 1); if (!t && !f) return bv(0, 1);
        return t ? a->k[0] : not1(a->k[0]);
      }
      if (a->op == Op::Ite && (isConst(a->k[1]) || isConst(a->k[2])))
        return ite(a->k[0], cmp(Op::Eq, a->k[1], b), cmp(Op::Eq, a->k[2], b));
      if (a->op == Op::Concat) {
        unsigned lw = a->k[1]->w;
        return and1(cmp(Op::Eq, a->k[0], bv(b->c >> lw, a->k[0]->w)), cmp(Op::Eq, a->k[1], bv(b->c, lw)));
      }
      if (a->op == Op::Sub) return cmp(Op::Eq, a->k[0], bin(Op::Add, b, a->k[1]));
      if (a->op == Op::Add && isConst(a->k[1])) return cmp(Op::Eq, a->k[0], bv(b->c - a->k[1]->c, a->w));
    }
  }
  if ((op == Op::ULt || op == Op::ULe) && isConst(b) && a->op == Op::ZExt) {
    if (b->c > mask(a->k[0]->w)) return bv(1, 1);
    return cmp(op, a->k[0], bv(b->c, a->k[0]->w));
  }
  if ((op == Op::SLt || op == Op::SLe) && isConst(b) && a->op == Op::Ite && isConst(a->k[1])) return ite(a->k[0], cmp(op, a->k[1], b), cmp(op, a->k[2], b));
  if ((op == Op::SLt || op == Op::SLe) && isConst(a) && b->op == Op::Ite && isConst(b->k[1])) return ite(b->k[0], cmp(op, a, b->k[1]), cmp(op, a, b->k[2]));
  if ((op == Op::ULt || op == Op::SLt) && isConst(b) && isConst(a)) {}
  return foldMk(op, false, 1, 0, a, b);
}
Expr* fbin(Op op, Expr* a, Expr* b) {
  // exact rewrites under round-to-nearest (up to the sign and payload of a NaN)
  if (op == Op::FSub) return fbin(Op::FAdd, a, fun(Op::FNeg, b));
  if (op == Op::FMul || op == Op::FDiv) {
    if (a->op == Op::FNeg && b->op == Op::FNeg) return fbin(op, a->k[0], b->k[0]);
    if (a->op == Op::FNeg) return fun(Op::FNeg, fbin(op, a->k[0], b));
    if (b->op == Op::FNeg) return fun(Op::FNeg, fbin(op, a, b->k[0]));
    if (!(isConst(a) && isConst(b))) {
      uint64_t sb = 1ull << (a->w - 1);
      if (isConst(a) && (a->c & sb)) return fun(Op::FNeg, fbin(op, fpc(a->c ^ sb, a->w), b));
      if (isConst(b) && (b->c & sb)) return fun(Op::FNeg, fbin(op, a, fpc(b->c ^ sb, a->w)));
    }
  }
  if ((op == Op::FMul || op == Op::FAdd) && a->id > b->id) std::swap(a, b); // commutative (bit-exact up to NaN payload)
  return foldMk(op, true, a->w, 0, a, b);
}
Expr* fun(Op op, Expr* a) {
  if (op == Op::FIsNan) {
    if (a->op == Op::FNeg || a->op == Op::FAbs) a = a->k[0];
    if (a->op == Op::SI2F || a->op == Op::UI2F) return bv(0, 1);
    return foldMk(op, false, 1, 0, a);
  }
  if (op == Op::FNeg && a->op == Op::FNeg) return a->k[0];
  if (op == Op::FAbs && a->op == Op::FAbs) return a;
  return foldMk(op, true, a->w, 0, a);
}
Expr* fcmp(Op op, Expr* a, Expr* b) {
  if (op == Op::FLt && a == b) return bv(0, 1);
  if ((isConst(a) && isNanBits(a->c, a->w)) || (isConst(b) && isNanBits(b->c, b->w))) return bv(0, 1);
  return foldMk(op, false, 1, 0, a, b);
}
Expr* ite(Expr* c, Expr* a, Expr* b) {
  if (isConst(c)) return c->c ? a : b;
  if (a == b) return a;
  if (!a->fp && a->w == 1) {
    if (isTrue(a) && isFalse(b)) return c;
    if (isFalse(a) && isTrue(b)) return not1(c);
    if (isTrue(a)) return or1(c, b);
    if (isFalse(a)) return and1(not1(c), b);
    if (isFalse(b)) return and1(c, a);
    if (isTrue(b)) return or1(not1(c), a);
  }
  if (c->op == Op::Xor && c->w == 1 && isConst(c->k[1]) && c->k[1]->c == 1) return ite(c->k[0], b, a);
  return mk(Op::Ite, a->fp, a->w, 0, c, a, b);
}
Expr* extract(Expr* a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  if (a->op == Op::Extract) return extract(a->k[0], lo + a->c, w);
  if (a->op == Op::Concat) {
    unsigned lw = a->k[1]->w;
    if (lo + w <= lw) return extract(a->k[1], lo, w);
    if (lo >= lw) return extract(a->k[0], lo - lw, w);
  }
  if (a->op == Op::ZExt) {
    unsigned kw = a->k[0]->w;
    if (lo >= kw) return bv(0, w);
    if (lo + w <= kw) return extract(a->k[0], lo, w);
    if (lo == 0 && w > kw) return zext(a->k[0], w);
  }
  if (a->op == Op::SExt && lo == 0) {
    unsigned kw = a->k[0]->w;
    if (w <= kw) return extract(a->k[0], 0, w);
    return sext(a->k[0], w);
  }
  if (a->op == Op::Ite && (isConst(a->k[1]) || isConst(a->k[2]))) return ite(a->k[0], extract(a->k[1], lo, w), extract(a->k[2], lo, w));
  return foldMk(Op::Extract, false, w, lo, a);
}
Expr* concat(Expr* hi, Expr* lo) {
  if (isConst(hi) && hi->c == 0) return zext(lo, hi->w + lo->w);
  if (hi->op == Op::Extract && lo->op == Op::Extract && hi->k[0] == lo->k[0] && hi->c == lo->c + lo->w) return extract(hi->k[0], lo->c, hi->w + lo->w);
  return foldMk(Op::Concat, false, hi->w + lo->w, 0, hi, lo);
}
Expr* zext(Expr* a, unsigned w) {
  if (a->w == w) return a;
  if (a->op == Op::ZExt) return zext(a->k[0], w);
  return foldMk(Op::ZExt, false, w, 0, a);
}
Expr* sext(Expr* a, unsigned w) {
  if (a->w == w) return a;
  return foldMk(Op::SExt, false, w, 0, a);
}
Expr* bv2f(Expr* a) {
  if (a->op == Op::F2BV) return a->k[0];
  if (a->op == Op::Ite) { Expr *x = a->k[1], *y = a->k[2]; if ((x->op == Op::F2BV || isConst(x)) && (y->op == Op::F2BV || isConst(y))) return ite(a->k[0], bv2f(x), bv2f(y)); }
  return foldMk(Op::BV2F, true, a->w, 0, a);
}
Expr* f2bv(Expr* a) {
  if (a->op == Op::BV2F) return a->k[0];
  return foldMk(Op::F2BV, false, a->w, 0, a);
}
Expr* conv(Op op, Expr* a, bool fp, unsigned w) { return foldMk(op, fp, w, 0, a); }

static uint64_t epochCtr = 0;
uint64_t newEpoch() { return ++epochCtr; }
uint64_t eval(Expr* e, const Model& m, uint64_t ep) {
  if (e->op == Op::Const) return e->c;
  if (e->evEpoch == ep) return e->evVal;
  // iterative post-order
  static std::vector<Expr*> st; size_t base = st.size();
  st.push_back(e);
  while (st.size() > base) {
    Expr* x = st.back();
    if (x->op == Op::Const || x->evEpoch == ep) { st.pop_back(); continue; }
    if (x->op == Op::Var) {
      auto it = m.find((uint32_t)x->c);
      x->evVal = it == m.end() ? 0 : (it->second & mask(x->w)); x->evEpoch = ep; st.pop_back(); continue;
    }
    bool ready = true;
    for (auto k : x->k) if (k && k->op != Op::Const && k->evEpoch != ep) { st.push_back(k); ready = false; }
    if (!ready) continue;
    uint64_t v[3] = {0, 0, 0};
    for (int i = 0; i < 3; i++) if (x->k[i]) v[i] = x->k[i]->op == Op::Const ? x->k[i]->c : x->k[i]->evVal;
    x->evVal = evalOp(x, v); x->evEpoch = ep; st.pop_back();
  }
  return e->evVal;
}
const std::vector<uint32_t>& varsOf(Expr* e) {
  if (e->vars) return *e->vars;
  std::set<uint32_t> s;
  std::vector<Expr*> st{e}; std::set<Expr*> seen;
  while (!st.empty()) {
    Expr* x = st.back(); st.pop_back();
    if (!seen.insert(x).second) continue;
    if (x->vars) { s.insert(x->vars->begin(), x->vars->end()); continue; }
    if (x->op == Op::Var) s.insert((uint32_t)x->c);
    for (auto k : x->k) if (k) st.push_back(k);
  }
  e->vars = std::make_shared<std::vector<uint32_t>>(s.begin(), s.end());
  return *e->vars;
}
static const char* opn[] = {"const", "var", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "concat", "extract", "zext", "sext", "ite", "eq", "ult", "ule", "slt", "sle", "fadd", "fsub", "fmul", "fdiv", "fneg", "fabs", "fsqrt", "ffloor", "fceil", "ftrunc", "frem", "feq", "flt", "fle", "fisnan", "bv2f", "f2bv", "si2f", "ui2f", "f2si", "f2ui", "fconv"};
std::string str(Expr* e, int depth) {
  if (e->op == Op::Const) { if (e->fp) return std::to_string(e->w == 64 ? asD(e->c) : asF(e->c)); return std::to_string(e->c); }
  if (e->op == Op::Var) return vars[e->c].name;
  if (depth == 0) return "...";
  std::string s = std::string("(") + opn[(int)e->op];
  if (e->op == Op::Extract) s += "@" + std::to_string(e->c) + ":" + std::to_string(e->w);
  for (auto k : e->k) if (k) s += " " + str(k, depth - 1);
  return s + ")";
}
} // namespace ex

// ------------------------------------------------------------------------------------------------- Z3 lowering
static Z3_context Z;
static bool zerr = false; static std::string zerrMsg;
static void onErr(Z3_context c, Z3_error_code e) { zerr = true; zerrMsg = Z3_get_error_msg(c, e); }

struct Lower {
  Mode mode; bool unsupported = false;
  std::unordered_map<uint32_t, Z3_ast> bvm, bm, side;
  std::vector<Z3_ast>* axioms = nullptr; std::vector<std::pair<uint32_t, Z3_ast>> axStore; // node id -> axiom
  std::unordered_map<uint32_t, std::vector<Z3_ast>> ax;
  Z3_sort bvs(unsigned w) { return Z3_mk_bv_sort(Z, w); }
  Z3_sort fps(unsigned w) { return w == 64 ? Z3_mk_fpa_sort_64(Z) : Z3_mk_fpa_sort_32(Z); }
  Z3_ast rm() { return Z3_mk_fpa_round_nearest_ties_to_even(Z); }
  static Z3_ast inc(Z3_ast a) { Z3_inc_ref(Z, a); return a; }
  Z3_ast bvn(uint64_t v, unsigned w) { return Z3_mk_unsigned_int64(Z, v, bvs(w)); }
  Z3_ast realConst(double d) {
    // exact rational
    int e; double m = std::frexp(d, &e); // d = m*2^e
    int64_t mi = (int64_t)std::ldexp(m, 53); e -= 53;
    while (mi && !(mi & 1)) { mi >>= 1; e++; }
    std::string num = std::to_string(mi);
    Z3_ast a = Z3_mk_numeral(Z, num.c_str(), Z3_mk_real_sort(Z));
    if (e == 0) return a;
    Z3_ast two = Z3_mk_numeral(Z, "2", Z3_mk_real_sort(Z));
    Z3_ast p = Z3_mk_numeral(Z, "1", Z3_mk_real_sort(Z));
    // build power as decimal string via doubling is expensive; use numeral 2^|e| through z3 power then simplify
    Z3_ast ex = Z3_mk_numeral(Z, std::to_string(std::abs(e)).c_str(), Z3_mk_real_sort(Z));
    p = Z3_simplify(Z, Z3_mk_power(Z, two, ex));
    Z3_ast args[2] = {a, p};
    Z3_ast r = e > 0 ? Z3_mk_mul(Z, 2, args) : Z3_mk_div(Z, a, p);
    return Z3_simplify(Z, r);
  }
  Z3_ast boolToBv(Z3_ast b) { return Z3_mk_ite(Z, b, bvn(1, 1), bvn(0, 1)); }
  bool isBoolOp(Expr* e) {
    switch (e->op) { case Op::Eq: case Op::ULt: case Op::ULe: case Op::SLt: case Op::SLe: case Op::FEq: case Op::FLt: case Op::FLe: case Op::FIsNan: return true; default: return false; }
  }
  void post(Expr* root) { // iterative ordering to avoid deep recursion
    std::vector<Expr*> st{root};
    while (!st.empty()) {
      Expr* x = st.back();
      bool bool1 = !x->fp && x->w == 1;
      if (bvm.count(x->id) || bm.count(x->id)) { st.pop_back(); continue; }
      bool ready = true;
      for (auto k : x->k) if (k && !bvm.count(k->id) && !bm.count(k->id)) { st.push_back(k); ready = false; }
      if (!ready) continue;
      st.pop_back();
      if (bool1) bm[x->id] = inc(mkBool(x)); else bvm[x->id] = inc(mkTerm(x));
    }
  }
  Z3_ast B(Expr* e) { return bm.at(e->id); }
  Z3_ast T(Expr* e) { // term (bv / fp / real); bool nodes converted to bv1
    auto it = bvm.find(e->id); if (it != bvm.end()) return it->second;
    Z3_ast a = inc(boolToBv(bm.at(e->id))); bvm[e->id] = a; return a;
  }
  Z3_ast fresh(const char* p, Z3_sort s) { return Z3_mk_fresh_const(Z, p, s); }
  Z3_ast mkBool(Expr* e) {
    bool R = mode == Mode::Real;
    if (mode == Mode::Order) switch (e->op) {
      case Op::FEq: case Op::FLt: case Op::FLe: { Z3_ast a = T(e->k[0]), b = T(e->k[1]); Z3_ast v[3] = {Z3_mk_not(Z, N(e->k[0])), Z3_mk_not(Z, N(e->k[1])), e->op == Op::FEq ? Z3_mk_eq(Z, a, b) : e->op == Op::FLt ? Z3_mk_lt(Z, a, b) : Z3_mk_le(Z, a, b)}; return Z3_mk_and(Z, 3, v); }
      case Op::FIsNan: return N(e->k[0]);
      default: break;
    }
    switch (e->op) {
      case Op::Const: return e->c ? Z3_mk_true(Z) : Z3_mk_false(Z);
      case Op::Var: return Z3_mk_eq(Z, varBv(e), bvn(1, 1));
      case Op::And: { Z3_ast a[2] = {B(e->k[0]), B(e->k[1])}; return Z3_mk_and(Z, 2, a); }
      case Op::Or: { Z3_ast a[2] = {B(e->k[0]), B(e->k[1])}; return Z3_mk_or(Z, 2, a); }
      case Op::Xor: if (ex::isTrue(e->k[1])) return Z3_mk_not(Z, B(e->k[0])); return Z3_mk_xor(Z, B(e->k[0]), B(e->k[1]));
      case Op::Ite: return Z3_mk_ite(Z, B(e->k[0]), B(e->k[1]), B(e->k[2]));
      case Op::Eq: if (e->k[0]->w == 1) return Z3_mk_iff(Z, B(e->k[0]), B(e->k[1])); return Z3_mk_eq(Z, T(e->k[0]), T(e->k[1]));
      case Op::ULt: if (e->k[0]->w == 1) { return Z3_mk_bvult(Z, T(e->k[0]), T(e->k[1])); } return Z3_mk_bvult(Z, T(e->k[0]), T(e->k[1]));
      case Op::ULe: return Z3_mk_bvule(Z, T(e->k[0]), T(e->k[1]));
      case Op::SLt: return Z3_mk_bvslt(Z, T(e->k[0]), T(e->k[1]));
      case Op::SLe: return Z3_mk_bvsle(Z, T(e->k[0]), T(e->k[1]));
      case Op::FEq: return R ? Z3_mk_eq(Z, T(e->k[0]), T(e->k[1])) : Z3_mk_fpa_eq(Z, T(e->k[0]), T(e->k[1]));
      case Op::FLt: return R ? Z3_mk_lt(Z, T(e->k[0]), T(e->k[1])) : Z3_mk_fpa_lt(Z, T(e->k[0]), T(e->k[1]));
      case Op::FLe: return R ? Z3_mk_le(Z, T(e->k[0]), T(e->k[1])) : Z3_mk_fpa_leq(Z, T(e->k[0]), T(e->k[1]));
      case Op::FIsNan: return R ? Z3_mk_false(Z) : Z3_mk_fpa_is_nan(Z, T(e->k[0]));
      default: return Z3_mk_eq(Z, mkTerm(e), bvn(1, 1));
    }
  }
  Z3_ast varBv(Expr* e) {
    std::string n = "v" + std::to_string(e->c);
    return Z3_mk_const(Z, Z3_mk_string_symbol(Z, n.c_str()), bvs(e->w));
  }
  void addAx(Expr* e, Z3_ast a) { ax[e->id].push_back(inc(a)); }
  std::unordered_map<uint32_t, Z3_ast> nanm; std::set<uint32_t> fpVars;
  Z3_ast N(Expr* e) { return nanm.at(e->id); }
  Z3_ast rnum(const char* s) { return Z3_mk_numeral(Z, s, Z3_mk_real_sort(Z)); }
  Z3_ast INFV() { static Z3_ast a = nullptr; if (!a) { a = inc(realConst(std::ldexp(1.0, 1023))); Z3_ast m[2] = {a, rnum("2")}; a = inc(Z3_simplify(Z, Z3_mk_mul(Z, 2, m))); } return a; }
  Z3_ast rneg(Z3_ast a) { return Z3_mk_unary_minus(Z, a); }
  Z3_ast ofresh(Expr* e, Z3_ast nan) { // an opaque extended real
    Z3_ast z = fresh("o", Z3_mk_real_sort(Z)); Z3_ast v[2] = {Z3_mk_le(Z, rneg(INFV()), z), Z3_mk_le(Z, z, INFV())}; addAx(e, Z3_mk_and(Z, 2, v));
    nanm[e->id] = inc(nan ? nan : Z3_mk_fresh_const(Z, "on", Z3_mk_bool_sort(Z))); return z;
  }
  Z3_ast mkOrder(Expr* e) {
    Z3_ast F = Z3_mk_false(Z), o = rnum("0");
    auto Or = [&](std::vector<Z3_ast> v) { return Z3_mk_or(Z, v.size(), v.data()); };
    auto And = [&](std::vector<Z3_ast> v) { return Z3_mk_and(Z, v.size(), v.data()); };
    auto Not = [&](Z3_ast a) { return Z3_mk_not(Z, a); };
    auto le = [&](Z3_ast a, Z3_ast b) { return Z3_mk_le(Z, a, b); };
    auto lt = [&](Z3_ast a, Z3_ast b) { return Z3_mk_lt(Z, a, b); };
    auto eq = [&](Z3_ast a, Z3_ast b) { return Z3_mk_eq(Z, a, b); };
    auto imp = [&](Z3_ast a, Z3_ast b) { addAx(e, Z3_mk_implies(Z, a, b)); };
    auto isInf = [&](Z3_ast a) { return Or({eq(a, INFV()), eq(a, rneg(INFV()))}); };
    auto abs = [&](Z3_ast a) { return Z3_mk_ite(Z, lt(a, o), rneg(a), a); };
    auto bound = [&](Z3_ast a, int k) { Z3_ast c = realConst(std::ldexp(1.0, k)); return And({le(rneg(c), a), le(a, c)}); };
    switch (e->op) {
      case Op::Const: { double d = e->w == 64 ? ex::asD(e->c) : ex::asF(e->c); if (d != d) { nanm[e->id] = inc(Z3_mk_true(Z)); return o; } nanm[e->id] = inc(F); if (std::isinf(d)) return d > 0 ? INFV() : rneg(INFV()); return realConst(d); }
      case Op::BV2F: if (e->k[0]->op == Op::Var && e->w == 64) {
          fpVars.insert(e->k[0]->c); std::string n = "o" + std::to_string(e->k[0]->c), m = n + "n";
          Z3_ast z = Z3_mk_const(Z, Z3_mk_string_symbol(Z, n.c_str()), Z3_mk_real_sort(Z)); nanm[e->id] = inc(Z3_mk_const(Z, Z3_mk_string_symbol(Z, m.c_str()), Z3_mk_bool_sort(Z)));
          addAx(e, le(rneg(INFV()), z)); addAx(e, le(z, INFV())); return z; }
        return ofresh(e, nullptr);
      case Op::Ite: nanm[e->id] = inc(Z3_mk_ite(Z, B(e->k[0]), N(e->k[1]), N(e->k[2]))); return Z3_mk_ite(Z, B(e->k[0]), T(e->k[1]), T(e->k[2]));
      case Op::FNeg: nanm[e->id] = N(e->k[0]); return rneg(T(e->k[0]));
      case Op::FAbs: nanm[e->id] = N(e->k[0]); return abs(T(e->k[0]));
      case Op::SI2F: case Op::UI2F: return ofresh(e, F);
      case Op::FConv: if (e->w > e->k[0]->w) { nanm[e->id] = N(e->k[0]); return T(e->k[0]); } return ofresh(e, N(e->k[0]));
      case Op::FAdd: {
        Z3_ast x = T(e->k[0]), y = T(e->k[1]); Z3_ast nn = Or({N(e->k[0]), N(e->k[1]), And({isInf(x), eq(y, rneg(x))})}); Z3_ast z = ofresh(e, nn), ok = Not(N(e));
        imp(And({ok, bound(x, 1000), bound(y, 1000)}), bound(z, 1001));
        for (int i = 0; i < 2; i++) {
          imp(And({ok, le(o, y)}), le(x, z)); imp(And({ok, le(y, o)}), le(z, x)); imp(And({ok, isInf(x)}), eq(z, x)); imp(And({ok, eq(x, o)}), eq(z, y));
          imp(ok, Z3_mk_iff(Z, le(rneg(y), x), le(o, z))); imp(ok, Z3_mk_iff(Z, le(x, rneg(y)), le(z, o)));
          std::swap(x, y);
        }
        return z;
      }
      case Op::FMul: case Op::FDiv: {
        bool div = e->op == Op::FDiv; Z3_ast x = T(e->k[0]), y = T(e->k[1]); Z3_ast zx = eq(x, o), zy = eq(y, o), ix = isInf(x), iy = isInf(y), one = rnum("1");
        Z3_ast nn = Or({N(e->k[0]), N(e->k[1]), div ? And({ix, iy}) : And({ix, zy}), div ? And({zx, zy}) : And({zx, iy})}); Z3_ast z = ofresh(e, nn), ok = Not(N(e));
        imp(And({ok, Or({And({lt(o, x), lt(o, y)}), And({lt(x, o), lt(y, o)})})}), le(o, z)); imp(And({ok, Or({And({lt(o, x), lt(y, o)}), And({lt(x, o), lt(o, y)})})}), le(z, o));
        if (!div) {
          imp(And({ok, bound(x, 500), bound(y, 500)}), bound(z, 1000));
          imp(And({ok, Or({zx, zy})}), eq(z, o)); imp(And({ok, Or({ix, iy})}), isInf(z));
          imp(And({ok, le(abs(x), one)}), le(abs(z), abs(y))); imp(And({ok, le(one, abs(x))}), le(abs(y), abs(z))); imp(And({ok, le(abs(y), one)}), le(abs(z), abs(x))); imp(And({ok, le(one, abs(y))}), le(abs(x), abs(z)));
        } else { imp(And({ok, Or({zx, iy})}), eq(z, o)); imp(And({ok, Or({ix, And({zy, Not(zx)})})}), isInf(z)); }
        return z;
      }
      default: return ofresh(e, nullptr);
    }
  }
  void pairOrder(Expr* p, Expr* q, std::vector<Z3_ast>& out) {
    auto Or = [&](std::vector<Z3_ast> v) { return Z3_mk_or(Z, v.size(), v.data()); };
    auto And = [&](std::vector<Z3_ast> v) { return Z3_mk_and(Z, v.size(), v.data()); };
    auto le = [&](Z3_ast a, Z3_ast b) { return Z3_mk_le(Z, a, b); };
    Z3_ast zp = T(p), zq = T(q), any = Or({N(p), N(q)}), o = rnum("0");
    if (p->op == Op::FAdd) for (int i = 0; i < 2; i++) {
      Z3_ast x = T(p->k[0]), y = T(p->k[1]), u = T(q->k[i]), v = T(q->k[1 - i]);
      out.push_back(Or({any, Z3_mk_not(Z, And({le(x, u), le(y, v)})), le(zp, zq)})); out.push_back(Or({any, Z3_mk_not(Z, And({le(u, x), le(v, y)})), le(zq, zp)}));
    } else if (p->op == Op::FMul) for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) if (p->k[i] == q->k[j]) {
      Z3_ast s = T(p->k[i]), y = T(p->k[1 - i]), v = T(q->k[1 - j]);
      auto add = [&](Z3_ast a, Z3_ast b, Z3_ast c) { out.push_back(Or({any, Z3_mk_not(Z, And({a, b})), c})); };
      add(le(o, s), le(y, v), le(zp, zq)); add(le(o, s), le(v, y), le(zq, zp)); add(le(s, o), le(y, v), le(zq, zp)); add(le(s, o), le(v, y), le(zp, zq));
    }
  }
  Z3_ast mkTerm(Expr* e) {
    if (mode == Mode::Order) { if (e->fp) return mkOrder(e); if (e->op == Op::F2BV || e->op == Op::F2SI || e->op == Op::F2UI) return fresh("ob", bvs(e->w)); }
    bool R = mode == Mode::Real;
    Z3_sort RS = R ? Z3_mk_real_sort(Z) : nullptr;
    switch (e->op) {
      case Op::Const:
        if (!e->fp) return bvn(e->c, e->w);
        if (R) { double d = e->w == 64 ? ex::asD(e->c) : ex::asF(e->c); if (!std::isfinite(d)) { unsupported = true; return fresh("nonfinite", RS); } return realConst(d); }
        return Z3_mk_fpa_to_fp_bv(Z, bvn(e->c, e->w), fps(e->w));
      case Op::Var: return varBv(e);
      case Op::Add: return Z3_mk_bvadd(Z, T(e->k[0]), T(e->k[1]));
      case Op::Sub: return Z3_mk_bvsub(Z, T(e->k[0]), T(e->k[1]));
      case Op::Mul: return Z3_mk_bvmul(Z, T(e->k[0]), T(e->k[1]));
      case Op::UDiv: return Z3_mk_bvudiv(Z, T(e->k[0]), T(e->k[1]));
      case Op::SDiv: return Z3_mk_bvsdiv(Z, T(e->k[0]), T(e->k[1]));
      case Op::URem: return Z3_mk_bvurem(Z, T(e->k[0]), T(e->k[1]));
      case Op::SRem: return Z3_mk_bvsrem(Z, T(e->k[0]), T(e->k[1]));
      case Op::And: return Z3_mk_bvand(Z, T(e->k[0]), T(e->k[1]));
      case Op::Or: return Z3_mk_bvor(Z, T(e->k[0]), T(e->k[1]));
      case Op::Xor: return Z3_mk_bvxor(Z, T(e->k[0]), T(e->k[1]));
      case Op::Shl: return Z3_mk_bvshl(Z, T(e->k[0]), T(e->k[1]));
      case Op::LShr: return Z3_mk_bvlshr(Z, T(e->k[0]), T(e->k[1]));
      case Op::AShr: return Z3_mk_bvashr(Z, T(e->k[0]), T(e->k[1]));
      case Op::Concat: return Z3_mk_concat(Z, T(e->k[0]), T(e->k[1]));
      case Op::Extract: return Z3_mk_extract(Z, e->c + e->w - 1, e->c, T(e->k[0]));
      case Op::ZExt: return Z3_mk_zero_ext(Z, e->w - e->k[0]->w, T(e->k[0]));
      case Op::SExt: return Z3_mk_sign_ext(Z, e->w - e->k[0]->w, T(e->k[0]));
      case Op::Ite: return Z3_mk_ite(Z, B(e->k[0]), T(e->k[1]), T(e->k[2]));
      case Op::FAdd: { if (R) { Z3_ast a[2] = {T(e->k[0]), T(e->k[1])}; return Z3_mk_add(Z, 2, a); }
        if (mode == Mode::Abstract) { Z3_ast z = fresh("a", fps(e->w)); addAx1(e, z, T(e->k[0]), T(e->k[1])); return z; }
        return Z3_mk_fpa_add(Z, rm(), T(e->k[0]), T(e->k[1])); }
      case Op::FSub: { if (R) { Z3_ast a[2] = {T(e->k[0]), T(e->k[1])}; return Z3_mk_sub(Z, 2, a); } return Z3_mk_fpa_sub(Z, rm(), T(e->k[0]), T(e->k[1])); }
      case Op::FMul: {
        if (R) { Z3_ast a[2] = {T(e->k[0]), T(e->k[1])}; return Z3_mk_mul(Z, 2, a); }
        if (mode == Mode::Precise) return Z3_mk_fpa_mul(Z, rm(), T(e->k[0]), T(e->k[1]));
        Z3_ast z = fresh("m", fps(e->w)), x = T(e->k[0]), y = T(e->k[1]);
        mulAx(e, z, x, y, false); return z;
      }
      case Op::FDiv: {
        if (R) return Z3_mk_div(Z, T(e->k[0]), T(e->k[1]));
        if (mode == Mode::Precise) return Z3_mk_fpa_div(Z, rm(), T(e->k[0]), T(e->k[1]));
        Z3_ast z = fresh("d", fps(e->w)), x = T(e->k[0]), y = T(e->k[1]);
        mulAx(e, z, x, y, true); return z;
      }
      case Op::FRem: if (R) { unsupported = true; return fresh("rem", RS); } if (mode == Mode::Abstract) return fresh("rem", fps(e->w)); return fresh("rem", fps(e->w));
      case Op::FNeg: return R ? Z3_mk_unary_minus(Z, T(e->k[0])) : Z3_mk_fpa_neg(Z, T(e->k[0]));
      case Op::FAbs: if (R) { Z3_ast x = T(e->k[0]); return Z3_mk_ite(Z, Z3_mk_lt(Z, x, Z3_mk_numeral(Z, "0", RS)), Z3_mk_unary_minus(Z, x), x); } return Z3_mk_fpa_abs(Z, T(e->k[0]));
      case Op::FSqrt: if (R) { unsupported = true; return fresh("sqrt", RS); } if (mode == Mode::Abstract) return fresh("sqrt", fps(e->w)); return Z3_mk_fpa_sqrt(Z, rm(), T(e->k[0]));
      case Op::FFloor: if (R) { unsupported = true; return fresh("fl", RS); } return Z3_mk_fpa_round_to_integral(Z, Z3_mk_fpa_round_toward_negative(Z), T(e->k[0]));
      case Op::FCeil: if (R) { unsupported = true; return fresh("ce", RS); } return Z3_mk_fpa_round_to_integral(Z, Z3_mk_fpa_round_toward_positive(Z), T(e->k[0]));
      case Op::FTrunc: if (R) { unsupported = true; return fresh("tr", RS); } return Z3_mk_fpa_round_to_integral(Z, Z3_mk_fpa_round_toward_zero(Z), T(e->k[0]));
      case Op::BV2F:
        if (R) {
          if (e->k[0]->op == Op::Var) { std::string n = "r" + std::to_string(e->k[0]->c); return Z3_mk_const(Z, Z3_mk_string_symbol(Z, n.c_str()), RS); }
          unsupported = true; return fresh("bits", RS);
        }
        return Z3_mk_fpa_to_fp_bv(Z, T(e->k[0]), fps(e->w));
      case Op::F2BV: if (R) { unsupported = true; return fresh("fbits", bvs(e->w)); } return Z3_mk_fpa_to_ieee_bv(Z, T(e->k[0]));
      case Op::SI2F: if (R) return Z3_mk_int2real(Z, Z3_mk_bv2int(Z, T(e->k[0]), true)); return Z3_mk_fpa_to_fp_signed(Z, rm(), T(e->k[0]), fps(e->w));
      case Op::UI2F: if (R) return Z3_mk_int2real(Z, Z3_mk_bv2int(Z, T(e->k[0]), false)); return Z3_mk_fpa_to_fp_unsigned(Z, rm(), T(e->k[0]), fps(e->w));
      case Op::F2SI: if (R) { unsupported = true; return fresh("si", bvs(e->w)); } return Z3_mk_fpa_to_sbv(Z, Z3_mk_fpa_round_toward_zero(Z), T(e->k[0]), e->w);
      case Op::F2UI: if (R) { unsupported = true; return fresh("ui", bvs(e->w)); } return Z3_mk_fpa_to_ubv(Z, Z3_mk_fpa_round_toward_zero(Z), T(e->k[0]), e->w);
      case Op::FConv:
        if (R && e->w < e->k[0]->w) { // narrowing loses precision: any value within a relative error of 2^-23
          Z3_ast x = T(e->k[0]), z = fresh("narrow", RS); Z3_ast ea[2] = {x, Z3_mk_numeral(Z, "1/8388608", RS)}; Z3_ast er = Z3_mk_mul(Z, 2, ea), d0[2] = {z, x}, d = Z3_mk_sub(Z, 2, d0);
          Z3_ast z0 = Z3_mk_numeral(Z, "0", RS), aer = Z3_mk_ite(Z, Z3_mk_lt(Z, er, z0), Z3_mk_unary_minus(Z, er), er);
          addAx(e, Z3_mk_le(Z, d, aer)); addAx(e, Z3_mk_le(Z, Z3_mk_unary_minus(Z, aer), d)); return z; }
        if (R) return T(e->k[0]); return Z3_mk_fpa_to_fp_float(Z, rm(), T(e->k[0]), fps(e->w));
      default: return boolToBv(mkBool(e));
    }
  }
  // sound axioms about IEEE addition
  void addAx1(Expr* e, Z3_ast z, Z3_ast x, Z3_ast y) {
    auto nan = [&](Z3_ast a) { return Z3_mk_fpa_is_nan(Z, a); };
    auto inf = [&](Z3_ast a) { return Z3_mk_fpa_is_infinite(Z, a); };
    auto neg = [&](Z3_ast a) { return Z3_mk_fpa_is_negative(Z, a); };
    auto Or = [&](std::vector<Z3_ast> v) { return Z3_mk_or(Z, v.size(), v.data()); };
    auto And = [&](std::vector<Z3_ast> v) { return Z3_mk_and(Z, v.size(), v.data()); };
    auto Not = [&](Z3_ast a) { return Z3_mk_not(Z, a); };
    auto le = [&](Z3_ast a, Z3_ast b) { return Z3_mk_fpa_leq(Z, a, b); };
    auto imp = [&](Z3_ast a, Z3_ast b) { addAx(e, Z3_mk_implies(Z, a, b)); };
    Z3_ast o = Z3_mk_fpa_zero(Z, fps(e->w), false);
    addAx(e, Z3_mk_iff(Z, nan(z), Or({nan(x), nan(y), And({inf(x), inf(y), Z3_mk_xor(Z, neg(x), neg(y))})})));
    for (int i = 0; i < 2; i++) {
      imp(And({Not(nan(z)), le(o, y)}), le(x, z)); imp(And({Not(nan(z)), le(y, o)}), le(z, x));
      imp(And({Not(nan(z)), inf(x)}), Z3_mk_fpa_eq(Z, z, x)); imp(And({Not(nan(z)), Z3_mk_fpa_is_zero(Z, x)}), Z3_mk_fpa_eq(Z, z, y));
      imp(And({Not(nan(z)), le(o, x), le(y, o)}), Z3_mk_iff(Z, le(Z3_mk_fpa_neg(Z, y), x), le(o, z)));
      std::swap(x, y);
    }
    imp(Z3_mk_fpa_eq(Z, y, Z3_mk_fpa_neg(Z, x)), Or({nan(z), Z3_mk_fpa_is_zero(Z, z)}));
  }
  // sound monotonicity axioms between two nodes of the same operation
  void pairAx(Expr* p, Expr* q, std::vector<Z3_ast>& out) {
    auto Or = [&](std::vector<Z3_ast> v) { return Z3_mk_or(Z, v.size(), v.data()); };
    auto And = [&](std::vector<Z3_ast> v) { return Z3_mk_and(Z, v.size(), v.data()); };
    auto le = [&](Z3_ast a, Z3_ast b) { return Z3_mk_fpa_leq(Z, a, b); };
    auto nan = [&](Z3_ast a) { return Z3_mk_fpa_is_nan(Z, a); };
    Z3_ast zp = T(p), zq = T(q), any = Or({nan(zp), nan(zq)}); Z3_ast o = Z3_mk_fpa_zero(Z, fps(p->w), false);
    if (p->op == Op::FAdd) {
      for (int i = 0; i < 2; i++) {
        Z3_ast x = T(p->k[0]), y = T(p->k[1]), u = T(q->k[i]), v = T(q->k[1 - i]);
        out.push_back(Z3_mk_implies(Z, And({le(x, u), le(y, v)}), Or({any, le(zp, zq)})));
        out.push_back(Z3_mk_implies(Z, And({le(u, x), le(v, y)}), Or({any, le(zq, zp)})));
      }
    } else if (p->op == Op::FMul) {
      for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) if (p->k[i] == q->k[j]) {
        Z3_ast s = T(p->k[i]), y = T(p->k[1 - i]), v = T(q->k[1 - j]);
        out.push_back(Z3_mk_implies(Z, And({le(o, s), le(y, v)}), Or({any, le(zp, zq)}))); out.push_back(Z3_mk_implies(Z, And({le(o, s), le(v, y)}), Or({any, le(zq, zp)})));
        out.push_back(Z3_mk_implies(Z, And({le(s, o), le(y, v)}), Or({any, le(zq, zp)}))); out.push_back(Z3_mk_implies(Z, And({le(s, o), le(v, y)}), Or({any, le(zp, zq)})));
      }
    }
  }
  // sound axioms about IEEE multiplication/division used instead of the precise circuits
  void mulAx(Expr* e, Z3_ast z, Z3_ast x, Z3_ast y, bool div) {
    auto nan = [&](Z3_ast a) { return Z3_mk_fpa_is_nan(Z, a); };
    auto inf = [&](Z3_ast a) { return Z3_mk_fpa_is_infinite(Z, a); };
    auto zero = [&](Z3_ast a) { return Z3_mk_fpa_is_zero(Z, a); };
    auto neg = [&](Z3_ast a) { return Z3_mk_fpa_is_negative(Z, a); };
    auto Or = [&](std::vector<Z3_ast> v) { return Z3_mk_or(Z, v.size(), v.data()); };
    auto And = [&](std::vector<Z3_ast> v) { return Z3_mk_and(Z, v.size(), v.data()); };
    auto Not = [&](Z3_ast a) { return Z3_mk_not(Z, a); };
    Z3_sort s = fps(e->w); Z3_ast one = Z3_mk_fpa_numeral_double(Z, 1.0, s);
    auto abs = [&](Z3_ast a) { return Z3_mk_fpa_abs(Z, a); };
    if (!div) {
      addAx(e, Z3_mk_iff(Z, nan(z), Or({nan(x), nan(y), And({inf(x), zero(y)}), And({zero(x), inf(y)})})));
      addAx(e, Z3_mk_implies(Z, Not(nan(z)), Z3_mk_iff(Z, neg(z), Z3_mk_xor(Z, neg(x), neg(y)))));
      addAx(e, Z3_mk_implies(Z, And({Not(nan(z)), Or({zero(x), zero(y)})}), zero(z)));
      addAx(e, Z3_mk_implies(Z, And({Not(nan(z)), Or({inf(x), inf(y)})}), inf(z)));
      addAx(e, Z3_mk_implies(Z, And({Not(nan(z)), Z3_mk_fpa_leq(Z, abs(x), one)}), Z3_mk_fpa_leq(Z, abs(z), abs(y))));
      addAx(e, Z3_mk_implies(Z, And({Not(nan(z)), Z3_mk_fpa_leq(Z, abs(y), one)}), Z3_mk_fpa_leq(Z, abs(z), abs(x))));
      addAx(e, Z3_mk_implies(Z, And({Not(nan(z)), Z3_mk_fpa_geq(Z, abs(x), one)}), Z3_mk_fpa_geq(Z, abs(z), abs(y))));
      addAx(e, Z3_mk_implies(Z, And({Not(nan(z)), Z3_mk_fpa_geq(Z, abs(y), one)}), Z3_mk_fpa_geq(Z, abs(z), abs(x))));
    } else {
      addAx(e, Z3_mk_iff(Z, nan(z), Or({nan(x), nan(y), And({inf(x), inf(y)}), And({zero(x), zero(y)})})));
      addAx(e, Z3_mk_implies(Z, Not(nan(z)), Z3_mk_iff(Z, neg(z), Z3_mk_xor(Z, neg(x), neg(y)))));
      addAx(e, Z3_mk_implies(Z, And({Not(nan(z)), Or({zero(x), inf(y)})}), zero(z)));
      addAx(e, Z3_mk_implies(Z, And({Not(nan(z)), Or({inf(x), zero(y)})}), inf(z)));
    }
  }
};

static Lower* low[4];
static void onAlarm(int) { Z3_interrupt(Z); }

Solver::Solver() {
  Z3_config cfg = Z3_mk_config();
  Z3_set_param_value(cfg, "model", "true");
  Z = Z3_mk_context(cfg); // terms stay alive (they are cached per expression) Z3_del_config(cfg);
  Z3_set_error_handler(Z, onErr);
  for (int i = 0; i < 4; i++) { low[i] = new Lower(); low[i]->mode = (Mode)i; }
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onAlarm; sa.sa_flags = SA_RESTART; sigaction(SIGALRM, &sa, nullptr);
}

static void collectIds(Expr* e, std::set<uint32_t>& seen, std::vector<Expr*>& nl) {
  std::vector<Expr*> st{e};
  while (!st.empty()) {
    Expr* x = st.back(); st.pop_back();
    if (!x->hasNL || !seen.insert(x->id).second) continue;
    if (x->op == Op::FMul || x->op == Op::FDiv || x->op == Op::FConv || x->op == Op::FAdd) nl.push_back(x);
    for (auto k : x->k) if (k) st.push_back(k);
  }
}

static void collectFP(Expr* e, std::set<uint32_t>& seen, std::vector<Expr*>& nl) {
  std::vector<Expr*> st{e};
  while (!st.empty()) {
    Expr* x = st.back(); st.pop_back();
    if (!x->hasFP || !seen.insert(x->id).second) continue;
    if (x->fp) nl.push_back(x);
    for (auto k : x->k) if (k) st.push_back(k);
  }
}
static Z3_solver mkSolver(const char* tactics[], int n) {
  Z3_tactic t = nullptr;
  for (int i = n - 1; i >= 0; i--) {
    Z3_tactic x = Z3_mk_tactic(Z, tactics[i]); Z3_tactic_inc_ref(Z, x);
    if (!t) t = x; else { t = Z3_tactic_and_then(Z, x, t); Z3_tactic_inc_ref(Z, t); }
  }
  Z3_solver s = Z3_mk_solver_from_tactic(Z, t); Z3_solver_inc_ref(Z, s);
  return s;
}

Res Solver::query(const std::vector<Expr*>& cs, Mode mode, Model* m, const std::vector<std::string>* extra) {
  struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
  st.queries++; if (mode == Mode::Precise) st.precise++; if (mode == Mode::Real) st.real++;
  Lower& L = *low[(int)mode];
  bool fp = false; for (auto c : cs) fp |= c->hasFP;
  Z3_solver s;
  if (mode == Mode::Order) { st.order++; s = Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z, s); }
  else if (mode == Mode::Real) { s = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_NRA")); Z3_solver_inc_ref(Z, s); }
  else if (!fp) { static const char* t[] = {"simplify", "propagate-values", "solve-eqs", "bit-blast", "sat"}; s = mkSolver(t, 5); }
  else { static const char* t[] = {"simplify", "propagate-values", "fpa2bv", "simplify", "propagate-values", "solve-eqs", "bit-blast", "simplify", "sat"}; s = mkSolver(t, 9); }
  Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p);
  if (rlimit) Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "rlimit"), rlimit);
  Z3_solver_set_params(Z, s, p);
  std::set<uint32_t> seen; std::vector<Expr*> nl; std::set<uint32_t> vs;
  zerr = false; bool unsup = false;
  for (auto c : cs) {
    L.unsupported = false;
    L.post(c);
    if (mode == Mode::Real && L.unsupported) { unsup = true; }
    Z3_solver_assert(Z, s, L.B(c));
    if (mode == Mode::Order) collectFP(c, seen, nl); else if (mode != Mode::Precise) collectIds(c, seen, nl);
    for (auto v : ex::varsOf(c)) vs.insert(v);
  }
  if (mode != Mode::Precise) for (auto n : nl) for (auto a : L.ax[n->id]) Z3_solver_assert(Z, s, a);
  if (mode == Mode::Order) { std::vector<Expr*> ar; for (auto n : nl) if (n->op == Op::FAdd || n->op == Op::FMul) ar.push_back(n); std::vector<Z3_ast> pa; if (ar.size() <= 60) for (size_t i = 0; i < ar.size(); i++) for (size_t j = 0; j < i; j++) if (ar[i]->op == ar[j]->op && ar[i]->w == ar[j]->w) L.pairOrder(ar[i], ar[j], pa); for (auto a : pa) Z3_solver_assert(Z, s, a); }
  if (mode == Mode::Abstract && nl.size() <= 40) { std::vector<Z3_ast> pa; for (size_t i = 0; i < nl.size(); i++) for (size_t j = 0; j < i; j++) if (nl[i]->op == nl[j]->op && nl[i]->w == nl[j]->w) L.pairAx(nl[i], nl[j], pa); for (auto a : pa) Z3_solver_assert(Z, s, a); }
  if (extra && mode == Mode::Real) {
    // extra: real box constraints "lo hi" applied to every real variable
    for (auto v : vs) if (ex::vars[v].isDouble) {
      std::string n = "r" + std::to_string(v);
      Z3_ast r = Z3_mk_const(Z, Z3_mk_string_symbol(Z, n.c_str()), Z3_mk_real_sort(Z));
      Z3_ast lo = Z3_mk_numeral(Z, (*extra)[0].c_str(), Z3_mk_real_sort(Z)), hi = Z3_mk_numeral(Z, (*extra)[1].c_str(), Z3_mk_real_sort(Z));
      Z3_ast zero = Z3_mk_numeral(Z, "0", Z3_mk_real_sort(Z));
      Z3_ast nlo = Z3_mk_unary_minus(Z, lo), nhi = Z3_mk_unary_minus(Z, hi);
      Z3_ast pos[2] = {Z3_mk_le(Z, lo, r), Z3_mk_le(Z, r, hi)}, neg[2] = {Z3_mk_le(Z, nhi, r), Z3_mk_le(Z, r, nlo)};
      Z3_ast o[3] = {Z3_mk_and(Z, 2, pos), Z3_mk_and(Z, 2, neg), Z3_mk_eq(Z, r, zero)};
      Z3_solver_assert(Z, s, Z3_mk_or(Z, 3, o));
    }
  }
  if (timeoutMs) { struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = timeoutMs / 1000; it.it_value.tv_usec = (timeoutMs % 1000) * 1000; setitimer(ITIMER_REAL, &it, nullptr); }
  Z3_lbool r = zerr ? Z3_L_UNDEF : Z3_solver_check(Z, s);
  if (timeoutMs) { struct itimerval it; memset(&it, 0, sizeof it); setitimer(ITIMER_REAL, &it, nullptr); }
  if (zerr) { static int n = 0; if (n++ < 3) fprintf(stderr, "z3 error: %s\n", zerrMsg.c_str()); r = Z3_L_UNDEF; }
  if (unsup && r == Z3_L_TRUE) r = Z3_L_UNDEF; // (unsat under weakened constraints stays unsat)
  if (r == Z3_L_TRUE && m) {
    m->clear();
    Z3_model mod = Z3_solver_get_model(Z, s); Z3_model_inc_ref(Z, mod);
    for (auto v : vs) {
      if (mode == Mode::Real && ex::vars[v].isDouble) {
        std::string n = "r" + std::to_string(v);
        Z3_ast r = Z3_mk_const(Z, Z3_mk_string_symbol(Z, n.c_str()), Z3_mk_real_sort(Z)), out;
        double d = 0;
        if (Z3_model_eval(Z, mod, r, true, &out)) {
          if (Z3_get_ast_kind(Z, out) == Z3_NUMERAL_AST) d = Z3_get_numeral_double(Z, out);
          else { const char* ds = Z3_get_numeral_decimal_string(Z, out, 17); if (ds) d = atof(ds); }
        }
        uint64_t b; memcpy(&b, &d, 8); (*m)[v] = b;
        continue;
      }
      if (mode == Mode::Order && L.fpVars.count(v)) {
        std::string n = "o" + std::to_string(v), nn = n + "n"; Z3_ast out; double d = 0;
        if (Z3_model_eval(Z, mod, Z3_mk_const(Z, Z3_mk_string_symbol(Z, nn.c_str()), Z3_mk_bool_sort(Z)), true, &out) && Z3_get_bool_value(Z, out) == Z3_L_TRUE) d = std::nan("");
        else if (Z3_model_eval(Z, mod, Z3_mk_const(Z, Z3_mk_string_symbol(Z, n.c_str()), Z3_mk_real_sort(Z)), true, &out) && Z3_get_ast_kind(Z, out) == Z3_NUMERAL_AST) d = Z3_get_numeral_double(Z, out);
        uint64_t b; memcpy(&b, &d, 8); (*m)[v] = b; continue;
      }
      std::string n = "v" + std::to_string(v);
      Z3_ast c = Z3_mk_const(Z, Z3_mk_string_symbol(Z, n.c_str()), Z3_mk_bv_sort(Z, ex::vars[v].w)), out;
      uint64_t val = 0;
      if (Z3_model_eval(Z, mod, c, true, &out)) Z3_get_numeral_uint64(Z, out, &val);
      (*m)[v] = val;
    }
    Z3_model_dec_ref(Z, mod);
  }
  Z3_params_dec_ref(Z, p);
  Z3_solver_dec_ref(Z, s);
  clock_gettime(CLOCK_MONOTONIC, &t1);
  uint64_t ns = (t1.tv_sec - t0.tv_sec) * 1000000000ull + t1.tv_nsec - t0.tv_nsec;
  st.ns += ns; if (ns > st.maxns) st.maxns = ns;
  if (ns > 1000000000ull && getenv("VP_QLOG")) { fprintf(stderr, "QLOG %.1fs mode %d result %d constraints %zu nl %zu last %s\n", ns / 1e9, (int)mode, (int)r, cs.size(), nl.size(), ex::str(cs.back(), 8).substr(0, 300).c_str()); }
  if (r == Z3_L_TRUE) { st.sat++; return Res::Sat; }
  if (r == Z3_L_FALSE) { st.unsat++; return Res::Unsat; }
  st.unknown++; return Res::Unknown;
}

// pure bit-vector queries: one incremental solver per process (inherited across forks), constraints activated by assumption literals
static Z3_solver incS = nullptr; static std::unordered_map<uint32_t, Z3_ast> incLit;
static Res incQuery(Solver& S, const std::vector<Expr*>& cs, Model* m) {
  struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0); S.st.queries++;
  Lower& L = *low[(int)Mode::Precise];
  if (!incS) { incS = Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z, incS); }
  std::vector<Z3_ast> as; std::set<uint32_t> vs; zerr = false;
  for (auto c : cs) {
    auto it = incLit.find(c->id);
    if (it == incLit.end()) {
      L.post(c); Z3_ast p = Z3_mk_fresh_const(Z, "p", Z3_mk_bool_sort(Z)); Z3_inc_ref(Z, p);
      Z3_solver_assert(Z, incS, Z3_mk_implies(Z, p, L.B(c))); it = incLit.emplace(c->id, p).first;
    }
    as.push_back(it->second); for (auto v : ex::varsOf(c)) vs.insert(v);
  }
  if (S.timeoutMs) { struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = S.timeoutMs / 1000; it.it_value.tv_usec = (S.timeoutMs % 1000) * 1000; setitimer(ITIMER_REAL, &it, nullptr); }
  Z3_lbool r = zerr ? Z3_L_UNDEF : Z3_solver_check_assumptions(Z, incS, as.size(), as.data());
  if (S.timeoutMs) { struct itimerval it; memset(&it, 0, sizeof it); setitimer(ITIMER_REAL, &it, nullptr); }
  if (zerr) r = Z3_L_UNDEF;
  if (r == Z3_L_TRUE && m) {
    m->clear(); Z3_model mod = Z3_solver_get_model(Z, incS); Z3_model_inc_ref(Z, mod);
    for (auto v : vs) { std::string n = "v" + std::to_string(v); Z3_ast c = Z3_mk_const(Z, Z3_mk_string_symbol(Z, n.c_str()), Z3_mk_bv_sort(Z, ex::vars[v].w)), out; uint64_t val = 0; if (Z3_model_eval(Z, mod, c, true, &out)) Z3_get_numeral_uint64(Z, out, &val); (*m)[v] = val; }
    Z3_model_dec_ref(Z, mod);
  }
  clock_gettime(CLOCK_MONOTONIC, &t1); uint64_t ns = (t1.tv_sec - t0.tv_sec) * 1000000000ull + t1.tv_nsec - t0.tv_nsec; S.st.ns += ns; if (ns > S.st.maxns) S.st.maxns = ns;
  if (r == Z3_L_TRUE) { S.st.sat++; return Res::Sat; } if (r == Z3_L_FALSE) { S.st.unsat++; return Res::Unsat; } S.st.unknown++; return Res::Unknown;
}

Res Solver::check(const std::vector<Expr*>& cs, Model* m, bool* modelOk, bool allowPrecise) {
  bool nl = false; for (auto c : cs) { if (ex::isFalse(c)) return Res::Unsat; nl |= c->hasNL; }
  Model tmp; if (!m) m = &tmp; bool dummy; if (!modelOk) modelOk = &dummy;
  auto verify = [&]() { uint64_t ep = ex::newEpoch(); for (auto c : cs) if (!ex::eval(c, *m, ep)) return false; return true; };
  if (!nl) {
    bool small = true; for (auto c : cs) { if (c->hasFP) { small = false; break; } for (auto v : ex::varsOf(c)) if (ex::vars[v].w > 16) { small = false; break; } if (!small) break; }
    if (small) { unsigned t = timeoutMs; timeoutMs = std::min(t, 2000u); Res r = incQuery(*this, cs, m); timeoutMs = t; if (r == Res::Sat) { *modelOk = verify(); if (*modelOk) return r; } if (r == Res::Unsat) return r; }
  }
  bool fp = false; for (auto c : cs) fp |= c->hasFP;
  Res r; *modelOk = false;
  if (fp) {
    unsigned t = timeoutMs; timeoutMs = std::min(t ? t : 4000u, 4000u); r = query(cs, Mode::Order, m); timeoutMs = t;
    if (r == Res::Unsat) return r;
    if (r == Res::Sat) { *modelOk = verify(); if (*modelOk) return r; }
    if (nl) { // a model over the reals is often one over the doubles
      Model keep = *m, rm; unsigned t = timeoutMs; timeoutMs = std::min(t ? t : 1000u, 1000u); std::vector<std::string> box{"1/8", "8"};
      Res rr = query(cs, Mode::Real, &rm, &box); timeoutMs = t;
      if (rr == Res::Sat) { *m = rm; if (verify()) { *modelOk = true; return Res::Sat; } *m = keep; }
      if (!allowPrecise) return r;
    }
  }
  Model pm; Res r2 = query(cs, Mode::Precise, &pm);
  if (r2 == Res::Sat) { *m = pm; *modelOk = verify(); return r2; }
  return r2;
}

std::string Solver::toSmt2(const std::vector<Expr*>& cs, Mode mode) {
  Lower& L = *low[(int)mode];
  Z3_solver s = Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z, s);
  std::set<uint32_t> seen; std::vector<Expr*> nl;
  for (auto c : cs) { L.post(c); Z3_solver_assert(Z, s, L.B(c)); if (mode == Mode::Abstract) collectIds(c, seen, nl); }
  if (mode == Mode::Abstract) for (auto n : nl) for (auto a : L.ax[n->id]) Z3_solver_assert(Z, s, a);
  std::string r = Z3_solver_to_string(Z, s);
  Z3_solver_dec_ref(Z, s);
  return r;
}
