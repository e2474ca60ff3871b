// Symbolic executor for LLVM IR (LLVM 18 bitcode) with Z3 as decision procedure.
// Paths are separate OS processes (fork); memory is host memory in a private arena with a byte shadow.
#include "expr.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/ADT/SmallString.h>
#include <cxxabi.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <unordered_map>
#include <functional>
#include <algorithm>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <semaphore.h>
#include <signal.h>
#include <unistd.h>
#include <time.h>
#include <fcntl.h>
#include <errno.h>
using namespace llvm;

// ------------------------------------------------------------------ options
static std::string optIn, optOut = ".", optEntry = "vp_main", optSrc = "/repo/";
static int optJobs = 8; static double optTime = 60; static unsigned optQTime = 8000, optATime = 20000; static uint64_t optInstr = 200000000ull;
static int optMaxViol = 6; static bool optVerbose = false;

// ------------------------------------------------------------------ shared state between path processes
enum { MAXSLOT = 16384, MAXLABEL = 512, MAXNOTE = 64 };
struct Shared {
  volatile int lock;
  volatile int freeTokens;
  volatile int nWait; int waitStack[MAXSLOT]; sem_t sems[MAXSLOT]; int freeSlots[MAXSLOT]; volatile int nFreeSlots;
  volatile int live; volatile int stop; volatile int incomplete; volatile int overflow;
  volatile uint64_t paths, assumedAway, infeasible, instrs, forks, queries, qsat, qunsat, qunknown, qns, qprecise, qreal, qmaxns, asserts, assertsSym, assertsProved, undecided, cacheHits, budgetExceeded, crashed, realProved, ended, decided;
  volatile uint64_t inputs;
  volatile int nLabels; char labels[MAXLABEL][96]; volatile uint64_t labelCount[MAXLABEL];
  volatile int nViol; volatile int nErr; char errs[MAXNOTE][400];
  volatile int nNote; char notes[MAXNOTE][400];
  volatile uint64_t violHash[256]; volatile int nViolHash;
};
static Shared* S;
static uint8_t* cov; static size_t covN;
static double nowS() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static double deadline;
static void lockS() { while (__sync_lock_test_and_set(&S->lock, 1)) usleep(50); }
static void unlockS() { __sync_lock_release(&S->lock); }
#define INC(f, v) __sync_fetch_and_add(&S->f, (v))

static uint64_t instrCount = 0, instrFlushed = 0;
static Solver* SV;
static SolverStats lastSt;
static void flushStats() {
  INC(instrs, instrCount - instrFlushed); instrFlushed = instrCount;
  SolverStats& a = SV->st;
  INC(queries, a.queries - lastSt.queries); INC(qsat, a.sat - lastSt.sat); INC(qunsat, a.unsat - lastSt.unsat); INC(qunknown, a.unknown - lastSt.unknown);
  INC(qns, a.ns - lastSt.ns); INC(qprecise, a.precise - lastSt.precise); INC(qreal, a.real - lastSt.real);
  if (a.maxns > S->qmaxns) S->qmaxns = a.maxns;
  lastSt = a;
}
static void releaseToken() {
  lockS();
  if (S->nWait > 0) { int s = S->waitStack[--S->nWait]; unlockS(); sem_post(&S->sems[s]); }
  else { S->freeTokens++; unlockS(); }
}
static int mySlot = -1;
static void die(int code) __attribute__((noreturn));
static void die(int code) { flushStats(); INC(live, -1); releaseToken(); _exit(code); }
static void acquireToken() {
  lockS();
  if (S->freeTokens > 0) { S->freeTokens--; unlockS(); return; }
  if (S->nFreeSlots == 0) { S->overflow = 1; unlockS(); INC(live, -1); S->incomplete = 1; _exit(0); }
  int s = S->freeSlots[--S->nFreeSlots];
  S->waitStack[S->nWait++] = s; unlockS();
  while (sem_wait(&S->sems[s]) != 0 && errno == EINTR) {}
  lockS(); S->freeSlots[S->nFreeSlots++] = s; unlockS();
}
static void onCrash(int sig) {
  static int in = 0; if (in++) _exit(3);
  char b[200]; int n = snprintf(b, sizeof b, "engine crash: signal %d\n", sig); if (write(2, b, n)) {}
  INC(crashed, 1);
  int i = __sync_fetch_and_add(&S->nErr, 1); if (i < MAXNOTE) snprintf(S->errs[i], 400, "engine process crashed with signal %d", sig);
  INC(live, -1); releaseToken(); _exit(3);
}
[[noreturn]] static void engineError(const std::string& m);
static void note(const std::string& m) {
  lockS();
  for (int i = 0; i < S->nNote && i < MAXNOTE; i++) if (!strncmp(S->notes[i], m.c_str(), 399)) { unlockS(); return; }
  int i = S->nNote; if (i < MAXNOTE) { snprintf(S->notes[i], 400, "%s", m.c_str()); S->nNote = i + 1; }
  unlockS();
}

// ------------------------------------------------------------------ values / memory
struct Val { Expr* e; uint64_t lo; };
static inline Val C(uint64_t v) { return {nullptr, v}; }
static Val X(Expr* e) { if (e->op == Op::Const) return {nullptr, e->c}; return {e, 0}; }
static inline uint64_t mk(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static Expr* asBV(const Val& v, unsigned w) { if (!v.e) return ex::bv(v.lo, w); if (v.e->fp) return ex::f2bv(v.e); return v.e; }
static Expr* asFP(const Val& v, unsigned w) { if (!v.e) return ex::fpc(v.lo, w); if (!v.e->fp) return ex::bv2f(v.e); return v.e; }

static const uint64_t ARENA = 0x200000000000ull, ASIZE = 16ull << 30, SHADOW = 0x280000000000ull;
static const uint64_t HEAP0 = ARENA + (1ull << 20), STACK0 = ARENA + (8ull << 30), TSTACK = 64ull << 20, FUNC0 = ARENA + (12ull << 30);
enum { UNADDR = 0, CONC = 1, SYM = 2, UNINIT = 3, FREED = 4 };
static inline uint8_t* sh(uint64_t a) { return (uint8_t*)(a - ARENA + SHADOW); }
static inline bool inArena(uint64_t a, uint64_t n) { return a >= ARENA && n <= ASIZE && a - ARENA <= ASIZE - n; }
struct SymB { Expr* e; uint32_t i; };
static std::unordered_map<uint64_t, SymB> symMem;
static uint64_t heapTop = HEAP0;
struct Alloc { uint64_t size; uint8_t kind; uint8_t live; };  // kind: 0 global 1 malloc 2 new 3 new[] 4 exception
static std::map<uint64_t, Alloc> allocs;

[[noreturn]] static void violation(const std::string& kind, const std::string& msg);

static uint64_t allocate(uint64_t size, int kind, uint64_t align = 16, int state = UNINIT) {
  if (align < 16) align = 16;
  heapTop = (heapTop + 32 + align - 1) / align * align;
  uint64_t a = heapTop; heapTop += std::max<uint64_t>(size, 1);
  if (heapTop > STACK0) engineError("arena exhausted");
  memset(sh(a), state, size);
  allocs[a] = {size, (uint8_t)kind, 1};
  return a;
}
static std::string describe(uint64_t a) {
  char b[200];
  if (a < 4096) { snprintf(b, sizeof b, "null pointer (address %llu)", (unsigned long long)a); return b; }
  auto it = allocs.upper_bound(a);
  if (it != allocs.begin()) { --it;
    if (a - it->first <= it->second.size + 64) { snprintf(b, sizeof b, "offset %llu of a %s block of %llu bytes", (unsigned long long)(a - it->first), it->second.live ? "live" : "freed", (unsigned long long)it->second.size); return b; } }
  if (a >= STACK0 && a < FUNC0) return "stack memory out of scope or out of bounds";
  snprintf(b, sizeof b, "invalid address 0x%llx", (unsigned long long)a); return b;
}
static void checkAccess(uint64_t a, uint64_t n, const char* what) {
  if (!n) return;
  if (!inArena(a, n)) violation("memory", std::string(what) + " through " + describe(a));
  uint8_t* s = sh(a);
  for (uint64_t i = 0; i < n; i++) if (s[i] == UNADDR || s[i] == FREED)
    violation("memory", std::string(what) + (s[i] == FREED ? " of freed memory: " : " out of bounds: ") + describe(a + i));
}
static int uninitCtr = 0;
static Expr* freshUninit(unsigned w) { return ex::var("uninit#" + std::to_string(uninitCtr++), w); }
static void writeConc(uint64_t a, const void* p, uint64_t n) { checkAccess(a, n, "write"); memcpy((void*)a, p, n); uint8_t* s = sh(a); for (uint64_t i = 0; i < n; i++) { if (s[i] == SYM) symMem.erase(a + i); s[i] = CONC; } }
static Expr* byteAt(uint64_t a) {
  uint8_t s = *sh(a);
  if (s == SYM) { SymB& b = symMem[a]; return ex::extract(b.e, b.i * 8, 8); }
  if (s == UNINIT) { Expr* e = freshUninit(8); symMem[a] = {e, 0}; *sh(a) = SYM; return e; }
  return ex::bv(*(uint8_t*)a, 8);
}
static Val loadMem(uint64_t a, unsigned n, unsigned w, bool fp) {
  if (!inArena(a, n)) violation("memory", "read through " + describe(a));
  uint8_t* s = sh(a);
  bool all = true;
  if (n == 8) { uint64_t q; memcpy(&q, s, 8); all = q == 0x0101010101010101ull; }
  else for (unsigned i = 0; i < n; i++) if (s[i] != CONC) { all = false; break; }
  if (all) { uint64_t v = 0; memcpy(&v, (void*)a, n); return C(v & mk(w)); }
  checkAccess(a, n, "read");
  bool un = true; for (unsigned i = 0; i < n; i++) un &= s[i] == UNINIT;
  if (un) { Expr* e = freshUninit(n * 8); for (unsigned i = 0; i < n; i++) { symMem[a + i] = {e, i}; s[i] = SYM; } }
  Expr* r = nullptr;
  if (s[0] == SYM) {
    SymB& b = symMem[a]; bool same = true;
    for (unsigned i = 1; i < n && same; i++) { if (s[i] != SYM) { same = false; break; } SymB& q = symMem[a + i]; same = q.e == b.e && q.i == b.i + i; }
    if (same) r = ex::extract(b.e, b.i * 8, n * 8);
  }
  if (!r) { for (unsigned i = 0; i < n; i++) { Expr* q = byteAt(a + i); r = r ? ex::concat(q, r) : q; } }
  if (w < n * 8) r = ex::extract(r, 0, w);
  if (fp) r = ex::bv2f(r);
  return X(r);
}
static void storeMem(uint64_t a, unsigned n, unsigned w, const Val& v) {
  if (!inArena(a, n)) violation("memory", "write through " + describe(a));
  uint8_t* s = sh(a);
  bool all = true;
  if (n == 8) { uint64_t q; memcpy(&q, s, 8); all = q == 0x0101010101010101ull; }
  else for (unsigned i = 0; i < n; i++) if (s[i] != CONC) { all = false; break; }
  if (!all) checkAccess(a, n, "write");
  if (!v.e) {
    memcpy((void*)a, &v.lo, n);
    if (!all) for (unsigned i = 0; i < n; i++) { if (s[i] == SYM) symMem.erase(a + i); s[i] = CONC; }
    return;
  }
  Expr* e = asBV(v, w); if (w < n * 8) e = ex::zext(e, n * 8);
  for (unsigned i = 0; i < n; i++) { symMem[a + i] = {e, i}; s[i] = SYM; }
}
static void copyMem(uint64_t d, uint64_t src, uint64_t n) {
  if (!n || d == src) return;
  checkAccess(src, n, "read"); checkAccess(d, n, "write");
  uint8_t *a = sh(src), *b = sh(d);
  bool any = false; for (uint64_t i = 0; i < n && !any; i++) any = a[i] == SYM || b[i] == SYM;
  if (any) {
    std::vector<SymB> tmp(n);
    for (uint64_t i = 0; i < n; i++) if (a[i] == SYM) tmp[i] = symMem[src + i];
    std::vector<uint8_t> sa(a, a + n);
    for (uint64_t i = 0; i < n; i++) { if (sa[i] == SYM) symMem[d + i] = tmp[i]; else if (b[i] == SYM) symMem.erase(d + i); }
  }
  memmove((void*)d, (void*)src, n); memmove(b, a, n);
}
static void forget(uint64_t a, uint64_t n, uint8_t st) { uint8_t* s = sh(a); for (uint64_t i = 0; i < n; i++) { if (s[i] == SYM) symMem.erase(a + i); s[i] = st; } }

// ------------------------------------------------------------------ decoded program
typedef int32_t Opnd; // >=0 register, <0 constant pool
struct DFunc; struct DBlock;
struct LPClause { bool isCatch; std::vector<uint64_t> ti; };
struct DInst {
  unsigned opc = 0; unsigned sub = 0; uint16_t w = 0, w2 = 0; bool fp = false, fp2 = false, isPtr = false;
  int32_t dst = -1; int32_t nslots = 1;
  std::vector<Opnd> ops;             // slot operands
  DBlock *b0 = nullptr, *b1 = nullptr; // successors / invoke dests
  std::vector<std::pair<uint64_t, DBlock*>> cases;
  int64_t off = 0; std::vector<std::pair<Opnd, std::pair<int64_t, unsigned>>> idx; // gep: scale,width
  std::vector<std::pair<uint64_t, std::pair<unsigned, bool>>> lay; // load/store slot layout: offset,(width,fp)
  DFunc* callee = nullptr; std::vector<int> argSlots; std::vector<uint64_t> byval;
  std::vector<LPClause> clauses; bool cleanup = false;
  unsigned line = 0; DBlock* parent = nullptr;
  Type* retTy = nullptr;
};
struct DPhi { int32_t dst; int n; std::map<DBlock*, std::vector<Opnd>> in; };
struct DBlock { DFunc* f; std::vector<DPhi> phis; std::vector<DInst> ins; uint32_t cov; };
struct Frame;
typedef void (*Builtin)(DInst* I, std::vector<Val>& a, Val* out);
struct DFunc {
  Function* F; std::string name; std::vector<DBlock*> blocks; int nregs = 0; int nargs = 0; std::vector<int> argSlots;
  uint64_t addr = 0; Builtin bi = nullptr; bool hasBody = false; std::string srcFile; unsigned srcLine = 0; std::string pretty;
  struct Al { int32_t dst; uint64_t size, align; }; 
};
static Module* M; static const DataLayout* DL;
static std::unordered_map<const Function*, DFunc*> funcs; static std::unordered_map<uint64_t, DFunc*> funcByAddr; static std::map<std::string, DFunc*> funcByName;
static std::unordered_map<const GlobalVariable*, uint64_t> gaddr; static std::map<std::string, uint64_t> gByName;
static std::vector<Val> pool;
static std::vector<DBlock*> allBlocks;

struct Frame { DFunc* f; DBlock* bb; uint32_t ip; Val* regs; uint64_t sp; bool ignoreRet; int excDepth; };
struct Exc { uint64_t obj; uint64_t ti; uint64_t dtor; int handlers; bool rethrown; };
struct Caught { uint64_t obj; };
struct Thread { std::vector<Frame> st; Val* regBase; Val* regTop; uint64_t sp, spBase; int id; bool done; int resumer; std::vector<uint64_t> caught; std::map<uint64_t, Exc> excs; uint64_t inflight = 0; };
static std::vector<Thread*> threads; static Thread* T;
static std::map<uint64_t, Exc> excs;

// ------------------------------------------------------------------ path state
static std::vector<Expr*> pc; static Model model; static bool modelOk = true;
struct Input { std::string name; uint32_t var; int64_t base; bool isD; unsigned w; bool conc; uint64_t cv; };
static std::vector<Input> inputs;
static std::map<std::vector<uint32_t>, int> qcache;

static std::string jesc(const std::string& s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; }
static std::string backtrace() {
  std::string s;
  for (int i = (int)T->st.size() - 1; i >= 0; i--) {
    Frame& f = T->st[i]; unsigned line = f.ip < f.bb->ins.size() ? f.bb->ins[f.ip].line : 0;
    s += "  " + f.f->pretty + " (" + f.f->srcFile + ":" + std::to_string(line) + ")\n";
    if (s.size() > 6000) break;
  }
  return s;
}
static void engineError(const std::string& m) {
  std::string t = m; if (T && !T->st.empty()) t += "\n" + backtrace();
  fprintf(stderr, "ENGINE-ERROR: %s\n", t.c_str());
  lockS(); bool dup = false; for (int i = 0; i < S->nErr && i < MAXNOTE; i++) dup |= !strncmp(S->errs[i], m.c_str(), 399);
  if (!dup && S->nErr < MAXNOTE) { snprintf(S->errs[S->nErr], 400, "%s", m.c_str()); S->nErr = S->nErr + 1; }
  unlockS();
  S->incomplete = 1;
  die(2);
}
static std::vector<Expr*> slice(Expr* cond) {
  // constraints transitively sharing variables with cond
  std::set<uint32_t> vs(ex::varsOf(cond).begin(), ex::varsOf(cond).end());
  std::vector<char> in(pc.size(), 0); bool ch = true; std::vector<Expr*> r;
  while (ch) { ch = false;
    for (size_t i = 0; i < pc.size(); i++) if (!in[i]) {
      bool hit = false; for (auto v : ex::varsOf(pc[i])) if (vs.count(v)) { hit = true; break; }
      if (hit) { in[i] = 1; ch = true; for (auto v : ex::varsOf(pc[i])) vs.insert(v); }
    } }
  for (size_t i = 0; i < pc.size(); i++) if (in[i]) r.push_back(pc[i]);
  return r;
}
static void checkTime() { if (S->stop) die(0); if (nowS() > deadline) { S->incomplete = 1; S->stop = 1; die(0); } }
// is pc && c satisfiable?  On Sat fills nm (merged over current model) and ok.
static Res feasible(Expr* c, Model& nm, bool& ok, bool precise, unsigned tmo) {
  checkTime();
  std::vector<Expr*> q = slice(c); q.push_back(c);
  std::vector<uint32_t> key; for (auto e : q) key.push_back(e->id); std::sort(key.begin(), key.end());
  auto it = qcache.find(key);
  if (it != qcache.end() && it->second == 0) { INC(cacheHits, 1); return Res::Unsat; }
  SV->timeoutMs = tmo; double left = (deadline - nowS()) * 1000; if (left < 50) left = 50; if (SV->timeoutMs > left) SV->timeoutMs = (unsigned)left;
  Model m; ok = false;
  Res r = SV->check(q, &m, &ok, precise);
  if (r == Res::Unsat) qcache[key] = 0;
  if (r == Res::Sat) { nm = model; for (auto& p : m) nm[p.first] = p.second; ok = ok && modelOk; }
  return r;
}
static void addPc(Expr* c) {
  if (c->op == Op::And && c->w == 1) { addPc(c->k[0]); addPc(c->k[1]); return; }
  if (!ex::isTrue(c)) pc.push_back(c);
}
// repair an unverified model by a precise query over the whole path condition; returns false if infeasible
static bool ensureModel() {
  if (modelOk) return true;
  uint64_t ep = ex::newEpoch(); bool good = true; for (auto c : pc) if (!ex::eval(c, model, ep)) { good = false; break; }
  if (good) { modelOk = true; return true; }
  SV->timeoutMs = optATime; Model m; bool ok;
  Res r = SV->check(pc, &m, &ok, true);
  if (r == Res::Unsat) return false;
  if (r == Res::Sat) { model = m; modelOk = ok; }
  return true;
}
static void writeInputs(FILE* f, const Model& m);
static void endPath() {
  uint64_t n = INC(paths, 1) + 1;
  if ((n & (n - 1)) == 0 && n <= 4096 && ensureModel() && modelOk) { // sample paths, replayed natively by the driver to validate the encoding
    std::string fn = optOut + "/sample-" + std::to_string(n) + ".txt"; FILE* f = fopen((fn + ".tmp").c_str(), "w");
    if (f) { fprintf(f, "kind sample\nmsg none\n"); writeInputs(f, model); fclose(f); rename((fn + ".tmp").c_str(), fn.c_str()); }
  }
  die(0);
}
static bool doFork() { // true in child
  INC(forks, 1); INC(live, 1);
  flushStats();
  pid_t p = fork();
  if (p < 0) { INC(live, -1); S->incomplete = 1; int i = __sync_fetch_and_add(&S->nErr, 1); if (i < MAXNOTE) snprintf(S->errs[i], 400, "fork failed: %s", strerror(errno)); die(0); }
  if (p == 0) { return true; } // child continues with the parent's token
  acquireToken(); checkTime();
  return false;
}
static bool decide(Expr* c) {
  if (ex::isTrue(c)) return true; if (ex::isFalse(c)) return false;
  INC(decided, 1);
  Model nm; bool ok; const bool precise = !c->hasNL; // keeping a path that is infeasible over the doubles costs time, not soundness
  if (modelOk) {
    uint64_t ep = ex::newEpoch(); bool v = ex::eval(c, model, ep);
    Expr* o = v ? ex::not1(c) : c;
    Res r = feasible(o, nm, ok, precise, optQTime);
    if (r == Res::Unsat) return v;
    if (doFork()) { addPc(o); if (r == Res::Sat) { model = nm; modelOk = ok; } else modelOk = false; return !v; }
    addPc(v ? c : ex::not1(c)); return v;
  }
  Model nt; bool okt;
  Res rt = feasible(c, nt, okt, precise, optQTime), rf = feasible(ex::not1(c), nm, ok, precise, optQTime);
  if (rt == Res::Unsat && rf == Res::Unsat) { INC(infeasible, 1); die(0); }
  if (rf == Res::Unsat) { addPc(c); return true; }
  if (rt == Res::Unsat) { addPc(ex::not1(c)); return false; }
  if (doFork()) { addPc(ex::not1(c)); if (rf == Res::Sat) { model = nm; modelOk = false; } return false; }
  addPc(c); if (rt == Res::Sat) model = nt; return true;
}
static uint64_t concretize(Expr* e) {
  if (e->op == Op::Const) return e->c;
  if (e->fp) e = ex::f2bv(e);
  for (int i = 0; i < 4096; i++) {
    if (!ensureModel()) { INC(infeasible, 1); die(0); }
    uint64_t v = ex::eval(e, model, ex::newEpoch());
    if (decide(ex::cmp(Op::Eq, e, ex::bv(v, e->w)))) return v;
  }
  engineError("too many values in concretization");
}
static inline uint64_t cv(const Val& v) { return v.e ? concretize(v.e) : v.lo; }

static void writeInputs(FILE* f, const Model& m) {
  for (auto& in : inputs) {
    uint64_t raw = 0; if (in.conc) raw = in.cv; else { auto it = m.find(in.var); if (it != m.end()) raw = it->second & mk(in.w); }
    if (in.isD) { double d; memcpy(&d, &raw, 8); fprintf(f, "in %s d %016llx %.17g\n", in.name.c_str(), (unsigned long long)raw, d); }
    else fprintf(f, "in %s i %lld\n", in.name.c_str(), (long long)((int64_t)raw + in.base));
  }
}
static void reportViolation(const std::string& kind, const std::string& msg, const Model& m) {
  std::string bt = backtrace();
  std::string key = kind + msg; for (size_t i = T->st.size(); i-- > 0 && i + 6 > T->st.size();) key += T->st[i].f->name + std::to_string(T->st[i].ip);
  uint64_t h = std::hash<std::string>()(key);
  lockS();
  int cnt = 0; for (int i = 0; i < S->nViolHash; i++) cnt += S->violHash[i] == h;
  if (cnt >= 2 || S->nViol >= 64) { unlockS(); return; }
  if (S->nViolHash < 256) { S->violHash[S->nViolHash] = h; S->nViolHash = S->nViolHash + 1; }
  int n = S->nViol; S->nViol = n + 1; unlockS();
  std::string fn = optOut + "/cand-" + std::to_string(n) + ".tmp", fin = optOut + "/cand-" + std::to_string(n) + ".txt";
  FILE* f = fopen(fn.c_str(), "w"); if (!f) return;
  fprintf(f, "kind %s\nmsg %s\n", kind.c_str(), jesc(msg).c_str());
  writeInputs(f, m);
  fprintf(f, "stack\n%s", bt.c_str());
  fclose(f); rename(fn.c_str(), fin.c_str());
  int nv; lockS(); nv = S->nViolHash; unlockS();
  if (nv >= optMaxViol) S->stop = 1;
}
static void violation(const std::string& kind, const std::string& msg) {
  if (!ensureModel()) { INC(infeasible, 1); die(0); }
  if (!modelOk) { INC(undecided, 1); note("undecided: " + kind + ": " + msg + " (path feasibility not decided by the solver)"); }
  reportViolation(kind, msg, model);
  INC(paths, 1); die(0);
}

// ------------------------------------------------------------------ decoding
static unsigned tw(Type* t) { if (t->isPointerTy()) return 64; if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isDoubleTy()) return 64; if (t->isFloatTy()) return 32; return 0; }
static int nslots(Type* t) {
  if (t->isVoidTy()) return 0;
  if (auto* s = dyn_cast<StructType>(t)) { int n = 0; for (auto* e : s->elements()) n += nslots(e); return n; }
  if (auto* a = dyn_cast<ArrayType>(t)) return a->getNumElements() * nslots(a->getElementType());
  if (auto* v = dyn_cast<FixedVectorType>(t)) return v->getNumElements();
  return 1;
}
static void layout(Type* t, uint64_t off, std::vector<std::pair<uint64_t, std::pair<unsigned, bool>>>& out) {
  if (auto* s = dyn_cast<StructType>(t)) { auto* L = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) layout(s->getElementType(i), off + L->getElementOffset(i), out); return; }
  if (auto* a = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(a->getElementType()); for (uint64_t i = 0; i < a->getNumElements(); i++) layout(a->getElementType(), off + i * es, out); return; }
  if (auto* v = dyn_cast<FixedVectorType>(t)) { uint64_t es = DL->getTypeStoreSize(v->getElementType()); for (unsigned i = 0; i < v->getNumElements(); i++) layout(v->getElementType(), off + i * es, out); return; }
  unsigned w = tw(t); if (!w || w > 64) { out.push_back({off, {0, false}}); return; }
  out.push_back({off, {w, t->isFloatingPointTy()}});
}
static uint64_t globalAddr(const GlobalVariable* g);
static DFunc* getFunc(const Function* F);
static void evalConst(const Constant* c, std::vector<Val>& out);
static uint64_t constAddr(const Constant* c) { std::vector<Val> v; evalConst(c, v); return v.at(0).lo; }
static std::string unsupportedConst;
static void evalConst(const Constant* c, std::vector<Val>& out) {
  Type* t = c->getType();
  if (auto* ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) out.push_back(C(ci->getValue().extractBitsAsZExtValue(64, 0))); else out.push_back(C(ci->getZExtValue())); return; }
  if (auto* cf = dyn_cast<ConstantFP>(c)) { if (t->isDoubleTy() || t->isFloatTy()) out.push_back(C(cf->getValueAPF().bitcastToAPInt().getZExtValue())); else out.push_back(C(0)); return; }
  if (isa<ConstantPointerNull>(c)) { out.push_back(C(0)); return; }
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { for (int i = 0; i < nslots(t); i++) out.push_back(C(0)); return; }
  if (auto* g = dyn_cast<GlobalVariable>(c)) { out.push_back(C(globalAddr(g))); return; }
  if (auto* f = dyn_cast<Function>(c)) { out.push_back(C(getFunc(f)->addr)); return; }
  if (auto* a = dyn_cast<GlobalAlias>(c)) { evalConst(a->getAliasee(), out); return; }
  if (auto* d = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < d->getNumElements(); i++) evalConst(d->getElementAsConstant(i), out); return; }
  if (isa<ConstantStruct>(c) || isa<ConstantArray>(c) || isa<ConstantVector>(c)) { for (auto& o : c->operands()) evalConst(cast<Constant>(o), out); return; }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: { APInt off(64, 0); if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) break; out.push_back(C(constAddr(ce->getOperand(0)) + off.getSExtValue())); return; }
      case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::PtrToInt: case Instruction::IntToPtr: { evalConst(ce->getOperand(0), out); out.back().lo &= mk(tw(t)); return; }
      case Instruction::Add: out.push_back(C((constAddr(ce->getOperand(0)) + constAddr(ce->getOperand(1))) & mk(tw(t)))); return;
      case Instruction::Sub: out.push_back(C((constAddr(ce->getOperand(0)) - constAddr(ce->getOperand(1))) & mk(tw(t)))); return;
      case Instruction::Trunc: out.push_back(C(constAddr(ce->getOperand(0)) & mk(tw(t)))); return;
      case Instruction::ICmp: { uint64_t a = constAddr(ce->getOperand(0)), b = constAddr(ce->getOperand(1)); bool r = false; switch (ce->getPredicate()) { case CmpInst::ICMP_EQ: r = a == b; break; case CmpInst::ICMP_NE: r = a != b; break; case CmpInst::ICMP_ULT: r = a < b; break; case CmpInst::ICMP_UGT: r = a > b; break; default: break; } out.push_back(C(r)); return; }
      default: break;
    }
  }
  std::string s; raw_string_ostream os(s); c->print(os); unsupportedConst = s;
  for (int i = 0; i < std::max(1, nslots(t)); i++) out.push_back(C(0));
}
static void writeConst(uint64_t a, const Constant* c) {
  Type* t = c->getType();
  if (isa<UndefValue>(c)) return;
  if (isa<ConstantAggregateZero>(c)) { memset((void*)a, 0, DL->getTypeAllocSize(t)); return; }
  if (auto* s = dyn_cast<ConstantStruct>(c)) { auto* L = DL->getStructLayout(s->getType()); for (unsigned i = 0; i < s->getNumOperands(); i++) writeConst(a + L->getElementOffset(i), s->getOperand(i)); return; }
  if (auto* d = dyn_cast<ConstantDataSequential>(c)) { StringRef r = d->getRawDataValues(); memcpy((void*)a, r.data(), r.size()); return; }
  if (isa<ConstantArray>(c)) { uint64_t es = DL->getTypeAllocSize(cast<ArrayType>(t)->getElementType()); for (unsigned i = 0; i < c->getNumOperands(); i++) writeConst(a + i * es, cast<Constant>(c->getOperand(i))); return; }
  std::vector<Val> v; evalConst(c, v);
  uint64_t n = DL->getTypeStoreSize(t); memcpy((void*)a, &v[0].lo, std::min<uint64_t>(n, 8));
}
static uint64_t globalAddr(const GlobalVariable* g) {
  auto it = gaddr.find(g); if (it != gaddr.end()) return it->second;
  uint64_t sz = g->getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(g->getValueType()) : 8;
  if (g->isDeclaration() && sz < 128) sz = 128;
  uint64_t a = allocate(sz, 0, g->getAlign() ? g->getAlign()->value() : 16, CONC);
  gaddr[g] = a; gByName[g->getName().str()] = a;
  if (g->isDeclaration() && g->getName().starts_with("_ZTI")) { // typeinfo of a library type (int, const char*, ...): opaque, identified by its name
    std::string n = g->getName().str().substr(4); uint64_t s = allocate(n.size() + 1, 0, 1, CONC); memcpy((void*)s, n.c_str(), n.size() + 1);
    uint64_t dummyVt = 64; memcpy((void*)a, &dummyVt, 8); memcpy((void*)(a + 8), &s, 8);
  }
  return a;
}
static std::map<std::string, Builtin>& builtins();
static void unsupportedCall(DInst*, std::vector<Val>&, Val*);
static uint64_t nextFunc = FUNC0;
static std::string demangle(const std::string& n) { int st; char* d = abi::__cxa_demangle(n.c_str(), nullptr, nullptr, &st); std::string r = st == 0 && d ? d : n; free(d); return r; }
static DFunc* getFunc(const Function* F) {
  auto it = funcs.find(F); if (it != funcs.end()) return it->second;
  DFunc* d = new DFunc(); d->F = const_cast<Function*>(F); d->name = F->getName().str(); d->hasBody = !F->isDeclaration();
  d->addr = nextFunc; nextFunc += 16; funcs[F] = d; funcByAddr[d->addr] = d; funcByName[d->name] = d;
  d->pretty = demangle(d->name);
  if (auto* sp = F->getSubprogram()) { d->srcFile = sp->getFilename().str(); if (d->srcFile.empty() || d->srcFile[0] != '/') d->srcFile = sp->getDirectory().str() + "/" + d->srcFile; d->srcLine = sp->getLine(); }
  auto b = builtins().find(d->name);
  if (b != builtins().end() && !(d->hasBody && d->name.compare(0, 13, "pthread_mutex") == 0)) d->bi = b->second; // builtins override bodies
  else if (!d->hasBody) d->bi = unsupportedCall;
  return d;
}
static void decode(DFunc* d) {
  Function* F = d->F; if (!d->hasBody || d->bi) return;
  std::unordered_map<const Value*, int> reg; int n = 0;
  for (auto& A : F->args()) { reg[&A] = n; d->argSlots.push_back(nslots(A.getType())); n += nslots(A.getType()); }
  d->nargs = n;
  std::unordered_map<const BasicBlock*, DBlock*> bm;
  for (auto& B : *F) { DBlock* b = new DBlock(); b->f = d; b->cov = allBlocks.size(); allBlocks.push_back(b); bm[&B] = b; d->blocks.push_back(b); }
  for (auto& B : *F) for (auto& I : B) if (!I.getType()->isVoidTy()) { reg[&I] = n; n += nslots(I.getType()); }
  d->nregs = n;
  auto opn = [&](const Value* v, std::vector<Opnd>& out) {
    if (auto* c = dyn_cast<Constant>(v)) { std::vector<Val> vs; evalConst(c, vs); for (auto& x : vs) { pool.push_back(x); out.push_back(-(int32_t)pool.size()); } return; }
    if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v) || isa<BasicBlock>(v)) { pool.push_back(C(0)); out.push_back(-(int32_t)pool.size()); return; }
    int r = reg.at(v); int k = nslots(v->getType()); for (int i = 0; i < k; i++) out.push_back(r + i);
  };
  for (auto& B : *F) {
    DBlock* b = bm[&B];
    for (auto& I : B) {
      if (auto* P = dyn_cast<PHINode>(&I)) {
        DPhi p; p.dst = reg[P]; p.n = nslots(P->getType());
        for (unsigned i = 0; i < P->getNumIncomingValues(); i++) { std::vector<Opnd> o; opn(P->getIncomingValue(i), o); p.in[bm[P->getIncomingBlock(i)]] = o; }
        b->phis.push_back(p); continue;
      }
      if (I.isDebugOrPseudoInst()) continue;
      DInst D; D.opc = I.getOpcode(); D.parent = b; if (auto& dl = I.getDebugLoc()) D.line = dl.getLine();
      Type* t = I.getType(); D.w = tw(t); D.fp = t->isFloatingPointTy(); D.isPtr = t->isPointerTy(); if (!t->isVoidTy()) { D.dst = reg[&I]; D.nslots = nslots(t); } else D.nslots = 0;
      switch (I.getOpcode()) {
        case Instruction::Br: { auto* x = cast<BranchInst>(&I); if (x->isConditional()) { opn(x->getCondition(), D.ops); D.b1 = bm[x->getSuccessor(1)]; } D.b0 = bm[x->getSuccessor(0)]; break; }
        case Instruction::Switch: { auto* x = cast<SwitchInst>(&I); opn(x->getCondition(), D.ops); D.w = tw(x->getCondition()->getType()); D.b0 = bm[x->getDefaultDest()]; for (auto& c : x->cases()) D.cases.push_back({c.getCaseValue()->getZExtValue(), bm[c.getCaseSuccessor()]}); break; }
        case Instruction::GetElementPtr: {
          auto* x = cast<GetElementPtrInst>(&I); opn(x->getPointerOperand(), D.ops);
          for (auto gi = gep_type_begin(x), ge = gep_type_end(x); gi != ge; ++gi) {
            if (StructType* st = gi.getStructTypeOrNull()) { D.off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(gi.getOperand())->getZExtValue()); continue; }
            int64_t sc = DL->getTypeAllocSize(gi.getIndexedType());
            if (auto* ci = dyn_cast<ConstantInt>(gi.getOperand())) { D.off += ci->getSExtValue() * sc; continue; }
            std::vector<Opnd> o; opn(gi.getOperand(), o); D.idx.push_back({o[0], {sc, tw(gi.getOperand()->getType())}});
          }
          break; }
        case Instruction::Alloca: { auto* x = cast<AllocaInst>(&I); D.off = DL->getTypeAllocSize(x->getAllocatedType()); D.w2 = x->getAlign().value() > 32768 ? 32768 : x->getAlign().value(); opn(x->getArraySize(), D.ops); break; }
        case Instruction::Load: opn(I.getOperand(0), D.ops); layout(t, 0, D.lay); break;
        case Instruction::Store: opn(I.getOperand(1), D.ops); opn(I.getOperand(0), D.ops); layout(I.getOperand(0)->getType(), 0, D.lay); break;
        case Instruction::ICmp: case Instruction::FCmp: { auto* x = cast<CmpInst>(&I); D.sub = x->getPredicate(); D.w = tw(x->getOperand(0)->getType()); opn(x->getOperand(0), D.ops); opn(x->getOperand(1), D.ops); break; }
        case Instruction::ExtractValue: { auto* x = cast<ExtractValueInst>(&I); opn(x->getAggregateOperand(), D.ops); Type* ty = x->getAggregateOperand()->getType(); int o = 0; for (unsigned k : x->indices()) { if (auto* s = dyn_cast<StructType>(ty)) { for (unsigned i = 0; i < k; i++) o += nslots(s->getElementType(i)); ty = s->getElementType(k); } else { ty = cast<ArrayType>(ty)->getElementType(); o += k * nslots(ty); } } D.off = o; break; }
        case Instruction::InsertValue: { auto* x = cast<InsertValueInst>(&I); opn(x->getAggregateOperand(), D.ops); D.sub = D.ops.size(); opn(x->getInsertedValueOperand(), D.ops); Type* ty = x->getAggregateOperand()->getType(); int o = 0; for (unsigned k : x->indices()) { if (auto* s = dyn_cast<StructType>(ty)) { for (unsigned i = 0; i < k; i++) o += nslots(s->getElementType(i)); ty = s->getElementType(k); } else { ty = cast<ArrayType>(ty)->getElementType(); o += k * nslots(ty); } } D.off = o; break; }
        case Instruction::ShuffleVector: { auto* x = cast<ShuffleVectorInst>(&I); opn(x->getOperand(0), D.ops); opn(x->getOperand(1), D.ops); for (int m : x->getShuffleMask()) D.argSlots.push_back(m); break; }
        case Instruction::LandingPad: { auto* x = cast<LandingPadInst>(&I); D.cleanup = x->isCleanup(); for (unsigned i = 0; i < x->getNumClauses(); i++) { LPClause c; c.isCatch = x->isCatch(i); std::vector<Val> v; evalConst(x->getClause(i), v); for (auto& q : v) c.ti.push_back(q.lo); if (!c.isCatch && isa<ConstantAggregateZero>(x->getClause(i))) c.ti.clear(); D.clauses.push_back(c); } break; }
        case Instruction::Call: case Instruction::Invoke: {
          auto* x = cast<CallBase>(&I);
          if (x->isInlineAsm()) { D.callee = nullptr; D.sub = 1; break; }
          const Value* cv = x->getCalledOperand()->stripPointerCasts();
          if (auto* ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliasee()->stripPointerCasts();
          if (auto* f = dyn_cast<Function>(cv)) D.callee = getFunc(f); else opn(cv, D.ops);
          int base = D.callee ? 0 : 1; (void)base;
          for (unsigned i = 0; i < x->arg_size(); i++) { size_t s0 = D.ops.size(); opn(x->getArgOperand(i), D.ops); D.argSlots.push_back(D.ops.size() - s0); D.byval.push_back(x->isByValArgument(i) ? (uint64_t)DL->getTypeAllocSize(x->getParamByValType(i)) : 0);
            if (D.callee && D.callee->bi && i < 3) { } }
          if (x->arg_size()) { D.w2 = tw(x->getArgOperand(0)->getType()); D.fp2 = x->getArgOperand(0)->getType()->isFloatingPointTy(); }
          if (auto* iv = dyn_cast<InvokeInst>(x)) { D.b0 = bm[iv->getNormalDest()]; D.b1 = bm[iv->getUnwindDest()]; }
          break; }
        default: {
          for (auto& o : I.operands()) opn(o.get(), D.ops);
          if (I.getNumOperands()) { D.w2 = tw(I.getOperand(0)->getType()); D.fp2 = I.getOperand(0)->getType()->isFloatingPointTy(); }
          if (auto* rm = dyn_cast<AtomicRMWInst>(&I)) D.sub = rm->getOperation();
        }
      }
      D.retTy = t;
      b->ins.push_back(std::move(D));
    }
  }
}

// ------------------------------------------------------------------ execution
static inline Val get(Frame& f, Opnd o) { return o >= 0 ? f.regs[o] : pool[-o - 1]; }
static void cover(DBlock* b) { if (!cov[b->cov]) cov[b->cov] = 1; }
static void jump(Frame& f, DBlock* to) {
  DBlock* from = f.bb;
  if (!to->phis.empty()) {
    static std::vector<Val> tmp; tmp.clear();
    for (auto& p : to->phis) { auto& o = p.in[from]; for (int i = 0; i < p.n; i++) tmp.push_back(get(f, o[i])); }
    size_t k = 0; for (auto& p : to->phis) for (int i = 0; i < p.n; i++) f.regs[p.dst + i] = tmp[k++];
  }
  f.bb = to; f.ip = 0; cover(to);
}
static uint64_t stackAlloc(uint64_t n, uint64_t al) {
  if (al < 16) al = 16;
  T->sp = (T->sp + 32 + al - 1) / al * al; uint64_t a = T->sp; T->sp += n;
  if (T->sp > T->spBase + TSTACK) violation("memory", "stack overflow");
  memset(sh(a), UNINIT, n); return a;
}
static void pushFrame(DFunc* f, const std::vector<Val>& args, const std::vector<uint64_t>* byval, const std::vector<int>* argSlots) {
  if (T->st.size() > 3000) violation("memory", "call stack too deep (runaway recursion)");
  Frame fr; fr.f = f; fr.bb = f->blocks[0]; fr.ip = 0; fr.regs = T->regTop; fr.sp = T->sp; fr.ignoreRet = false; fr.excDepth = 0;
  T->regTop += f->nregs + 1;
  memset((void*)fr.regs, 0, sizeof(Val) * (f->nregs + 1));
  for (int i = 0; i < f->nargs && i < (int)args.size(); i++) fr.regs[i] = args[i];
  if (byval) { int s = 0; for (size_t i = 0; i < byval->size(); i++) { if ((*byval)[i]) { uint64_t a = stackAlloc((*byval)[i], 16); copyMem(a, cv(args[s]), (*byval)[i]); fr.regs[s] = C(a); } s += (*argSlots)[i]; } }
  T->st.push_back(fr); cover(fr.bb);
}
static void popFrame() {
  Frame& f = T->st.back();
  if (T->sp > f.sp) forget(f.sp, T->sp - f.sp, UNADDR);
  T->sp = f.sp; T->regTop = f.regs; T->st.pop_back();
}
static void advanceAfterCall(Frame& f, DInst* I) { if (I->opc == Instruction::Invoke) jump(f, I->b0); else f.ip++; }

// ---- exceptions
static std::string cstr(uint64_t a) { std::string s; for (int i = 0; i < 4096; i++) { checkAccess(a + i, 1, "read"); uint8_t c = *sh(a + i) == SYM ? (uint8_t)concretize(byteAt(a + i)) : *(uint8_t*)(a + i); if (!c) break; s += (char)c; } return s; }
static uint64_t rd(uint64_t a) { Val v = loadMem(a, 8, 64, false); return cv(v); }
static uint64_t vtSI, vtVMI, vtClass;
static std::string tiName(uint64_t ti) { return cstr(rd(ti + 8)); }
static bool sameTi(uint64_t a, uint64_t b) { return a == b || (a && b && tiName(a) == tiName(b)); }
// find public base `want` of `ti` for object at obj; collects offsets
static void basesOf(uint64_t ti, uint64_t obj, bool pub, std::vector<std::tuple<uint64_t, uint64_t, bool>>& out) {
  out.push_back(std::make_tuple(ti, obj, pub));
  uint64_t vt = rd(ti) - 16;
  if (vt == vtSI) basesOf(rd(ti + 16), obj, pub, out);
  else if (vt == vtVMI) {
    uint32_t n = (uint32_t)(rd(ti + 16) >> 32);
    for (uint32_t i = 0; i < n; i++) {
      uint64_t b = rd(ti + 24 + 16 * i); int64_t of = (int64_t)rd(ti + 32 + 16 * i); bool v = of & 1, p = of & 2; int64_t o = of >> 8;
      uint64_t bo = obj; if (obj) { if (v) { uint64_t vp = rd(obj); o = (int64_t)rd(vp + o); } bo = obj + o; }
      basesOf(b, bo, pub && p, out);
    }
  }
}
static bool canCatch(uint64_t cti, uint64_t tti, uint64_t obj, uint64_t& adj) {
  if (cti == 0) { adj = obj; return true; }
  if (sameTi(cti, tti)) { adj = obj; return true; }
  uint64_t vt = rd(tti) - 16; if (vt != vtSI && vt != vtVMI && vt != vtClass) return false;
  std::vector<std::tuple<uint64_t, uint64_t, bool>> bs; basesOf(tti, obj, true, bs);
  std::set<uint64_t> hits; for (auto& b : bs) if (sameTi(std::get<0>(b), cti) && std::get<2>(b)) hits.insert(std::get<1>(b));
  if (hits.size() == 1) { adj = *hits.begin(); return true; }
  return false;
}
static std::map<uint64_t, int> typeIds; static int typeId(uint64_t ti) { if (!ti) return 1; auto& r = typeIds[ti]; if (!r) r = 1 + typeIds.size(); return r; }
static DInst* lpOf(Frame& f) { if (f.ip >= f.bb->ins.size()) return nullptr; DInst& I = f.bb->ins[f.ip]; if (I.opc != Instruction::Invoke) return nullptr; for (auto& x : I.b1->ins) if (x.opc == Instruction::LandingPad) return &x; return nullptr; }
static int matchLP(DInst* lp, Exc& e, bool& isHandler) {
  isHandler = false;
  for (auto& c : lp->clauses) {
    uint64_t adj;
    if (c.isCatch) { if (canCatch(c.ti[0], e.ti, e.obj, adj)) { isHandler = true; return typeId(c.ti[0]); } }
    else { bool allowed = false; for (auto t : c.ti) if (canCatch(t, e.ti, e.obj, adj)) allowed = true; if (!allowed) { isHandler = true; return -1; } }
  }
  return 0;
}
static void unwind(uint64_t obj) {
  Exc& e = excs[obj];
  bool found = false;
  for (int i = (int)T->st.size() - 1; i >= 0 && !found; i--) { DInst* lp = lpOf(T->st[i]); if (lp) { bool h; matchLP(lp, e, h); found = h; } }
  if (!found) {
    std::string n = demangle(tiName(e.ti)); std::string w;
    violation("exception", "uncaught exception of type " + n);
  }
  while (!T->st.empty()) {
    Frame& f = T->st.back(); DInst* lp = lpOf(f);
    if (lp) {
      bool h; int sel = matchLP(lp, e, h);
      if (h || lp->cleanup) { T->inflight = obj; DInst& I = f.bb->ins[f.ip]; jump(f, I.b1); f.regs[lp->dst] = C(obj); f.regs[lp->dst + 1] = C((uint32_t)sel); return; }
    }
    popFrame();
  }
  engineError("unwind ran off the stack");
}
static bool unwound = false; // set by builtins that transferred control
static bool threadSwitched = false;
struct Pending { DFunc* f; std::vector<Val> args; }; static std::vector<Pending> pendings;

static Thread* newThread();
static Val fbinop(unsigned opc, unsigned w, const Val& a, const Val& b);
#include "builtins.inc"

static Val binop(unsigned opc, unsigned w, const Val& a, const Val& b) {
  if (!a.e && !b.e) {
    uint64_t x = a.lo, y = b.lo, m = mk(w);
    auto sx = [&](uint64_t v) -> int64_t { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); };
    switch (opc) {
      case Instruction::Add: return C((x + y) & m); case Instruction::Sub: return C((x - y) & m); case Instruction::Mul: return C((x * y) & m);
      case Instruction::UDiv: if (!y) violation("arithmetic", "division by zero"); return C(x / y);
      case Instruction::URem: if (!y) violation("arithmetic", "division by zero"); return C(x % y);
      case Instruction::SDiv: { int64_t p = sx(x), q = sx(y); if (!q) violation("arithmetic", "division by zero"); return C((q == -1 ? 0 - (uint64_t)p : (uint64_t)(p / q)) & m); }
      case Instruction::SRem: { int64_t p = sx(x), q = sx(y); if (!q) violation("arithmetic", "division by zero"); return C((q == -1 ? 0 : (uint64_t)(p % q)) & m); }
      case Instruction::And: return C(x & y); case Instruction::Or: return C(x | y); case Instruction::Xor: return C(x ^ y);
      case Instruction::Shl: return C(y >= w ? 0 : (x << y) & m); case Instruction::LShr: return C(y >= w ? 0 : x >> y); case Instruction::AShr: return C((uint64_t)(sx(x) >> (y >= w ? w - 1 : y)) & m);
    }
  }
  Expr *x = asBV(a, w), *y = asBV(b, w);
  Op o;
  switch (opc) {
    case Instruction::Add: o = Op::Add; break; case Instruction::Sub: o = Op::Sub; break; case Instruction::Mul: o = Op::Mul; break;
    case Instruction::UDiv: o = Op::UDiv; break; case Instruction::URem: o = Op::URem; break; case Instruction::SDiv: o = Op::SDiv; break; case Instruction::SRem: o = Op::SRem; break;
    case Instruction::And: o = Op::And; break; case Instruction::Or: o = Op::Or; break; case Instruction::Xor: o = Op::Xor; break;
    case Instruction::Shl: o = Op::Shl; break; case Instruction::LShr: o = Op::LShr; break; case Instruction::AShr: o = Op::AShr; break;
    default: engineError("binop");
  }
  if (o == Op::UDiv || o == Op::URem || o == Op::SDiv || o == Op::SRem) if (decide(ex::cmp(Op::Eq, y, ex::bv(0, w)))) violation("arithmetic", "division by zero");
  return X(ex::bin(o, x, y));
}
static Val fbinop(unsigned opc, unsigned w, const Val& a, const Val& b) {
  if (!a.e && !b.e) {
    if (w == 64) { double x, y, r; memcpy(&x, &a.lo, 8); memcpy(&y, &b.lo, 8); switch (opc) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; default: r = std::fmod(x, y); } uint64_t u; memcpy(&u, &r, 8); return C(u); }
    float x, y, r; uint32_t p = a.lo, q = b.lo; memcpy(&x, &p, 4); memcpy(&y, &q, 4); switch (opc) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; default: r = std::fmod(x, y); } uint32_t u; memcpy(&u, &r, 4); return C(u);
  }
  Op o; switch (opc) { case Instruction::FAdd: o = Op::FAdd; break; case Instruction::FSub: o = Op::FSub; break; case Instruction::FMul: o = Op::FMul; break; case Instruction::FDiv: o = Op::FDiv; break; default: o = Op::FRem; }
  return X(ex::fbin(o, asFP(a, w), asFP(b, w)));
}
static Val icmp(unsigned p, unsigned w, const Val& a, const Val& b) {
  if (!a.e && !b.e) {
    uint64_t x = a.lo, y = b.lo; auto sx = [&](uint64_t v) -> int64_t { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); };
    switch (p) { case CmpInst::ICMP_EQ: return C(x == y); case CmpInst::ICMP_NE: return C(x != y); case CmpInst::ICMP_UGT: return C(x > y); case CmpInst::ICMP_UGE: return C(x >= y); case CmpInst::ICMP_ULT: return C(x < y); case CmpInst::ICMP_ULE: return C(x <= y); case CmpInst::ICMP_SGT: return C(sx(x) > sx(y)); case CmpInst::ICMP_SGE: return C(sx(x) >= sx(y)); case CmpInst::ICMP_SLT: return C(sx(x) < sx(y)); default: return C(sx(x) <= sx(y)); }
  }
  Expr *x = asBV(a, w), *y = asBV(b, w);
  switch (p) {
    case CmpInst::ICMP_EQ: return X(ex::cmp(Op::Eq, x, y)); case CmpInst::ICMP_NE: return X(ex::not1(ex::cmp(Op::Eq, x, y)));
    case CmpInst::ICMP_UGT: return X(ex::cmp(Op::ULt, y, x)); case CmpInst::ICMP_UGE: return X(ex::cmp(Op::ULe, y, x)); case CmpInst::ICMP_ULT: return X(ex::cmp(Op::ULt, x, y)); case CmpInst::ICMP_ULE: return X(ex::cmp(Op::ULe, x, y));
    case CmpInst::ICMP_SGT: return X(ex::cmp(Op::SLt, y, x)); case CmpInst::ICMP_SGE: return X(ex::cmp(Op::SLe, y, x)); case CmpInst::ICMP_SLT: return X(ex::cmp(Op::SLt, x, y)); default: return X(ex::cmp(Op::SLe, x, y));
  }
}
static Val fcmpv(unsigned p, unsigned w, const Val& a, const Val& b) {
  Expr *x = asFP(a, w), *y = asFP(b, w);
  auto uno = [&] { return ex::or1(ex::fun(Op::FIsNan, x), ex::fun(Op::FIsNan, y)); };
  switch (p) {
    case CmpInst::FCMP_FALSE: return C(0); case CmpInst::FCMP_TRUE: return C(1);
    case CmpInst::FCMP_OEQ: return X(ex::fcmp(Op::FEq, x, y)); case CmpInst::FCMP_OGT: return X(ex::fcmp(Op::FLt, y, x)); case CmpInst::FCMP_OGE: return X(ex::fcmp(Op::FLe, y, x));
    case CmpInst::FCMP_OLT: return X(ex::fcmp(Op::FLt, x, y)); case CmpInst::FCMP_OLE: return X(ex::fcmp(Op::FLe, x, y));
    case CmpInst::FCMP_ONE: return X(ex::and1(ex::not1(uno()), ex::not1(ex::fcmp(Op::FEq, x, y))));
    case CmpInst::FCMP_ORD: return X(ex::not1(uno())); case CmpInst::FCMP_UNO: return X(uno());
    case CmpInst::FCMP_UEQ: return X(ex::or1(uno(), ex::fcmp(Op::FEq, x, y)));
    case CmpInst::FCMP_UGT: return X(ex::not1(ex::fcmp(Op::FLe, x, y))); case CmpInst::FCMP_UGE: return X(ex::not1(ex::fcmp(Op::FLt, x, y)));
    case CmpInst::FCMP_ULT: return X(ex::not1(ex::fcmp(Op::FLe, y, x))); case CmpInst::FCMP_ULE: return X(ex::not1(ex::fcmp(Op::FLt, y, x)));
    default: return X(ex::not1(ex::fcmp(Op::FEq, x, y)));
  }
}
static Val castv(DInst& I, const Val& a) {
  unsigned fw = I.w2, w = I.w;
  switch (I.opc) {
    case Instruction::Trunc: return a.e ? X(ex::extract(asBV(a, fw), 0, w)) : C(a.lo & mk(w));
    case Instruction::ZExt: return a.e ? X(ex::zext(asBV(a, fw), w)) : C(a.lo);
    case Instruction::SExt: return a.e ? X(ex::sext(asBV(a, fw), w)) : C((uint64_t)((int64_t)(a.lo << (64 - fw)) >> (64 - fw)) & mk(w));
    case Instruction::PtrToInt: case Instruction::IntToPtr: { if (w == fw) return a; if (w < fw) return a.e ? X(ex::extract(asBV(a, fw), 0, w)) : C(a.lo & mk(w)); return a.e ? X(ex::zext(asBV(a, fw), w)) : a; }
    case Instruction::BitCast: if (!a.e) return a; if (I.fp && !a.e->fp) return X(ex::bv2f(a.e)); if (!I.fp && a.e->fp) return X(ex::f2bv(a.e)); return a;
    case Instruction::SIToFP: return X(ex::conv(Op::SI2F, asBV(a, fw), true, w));
    case Instruction::UIToFP: return X(ex::conv(Op::UI2F, asBV(a, fw), true, w));
    case Instruction::FPToSI: return X(ex::conv(Op::F2SI, asFP(a, fw), false, w));
    case Instruction::FPToUI: return X(ex::conv(Op::F2UI, asFP(a, fw), false, w));
    case Instruction::FPExt: case Instruction::FPTrunc: return X(ex::conv(Op::FConv, asFP(a, fw), true, w));
    default: engineError("cast");
  }
}
static void doCall(Frame& f, DInst& I) {
  static std::vector<Val> args; args.clear();
  DFunc* fn = I.callee; size_t k = 0;
  if (!fn) {
    if (I.sub == 1) { // inline asm: barriers only
      if (I.dst >= 0) engineError("inline asm with result"); f.ip++; return; }
    uint64_t a = cv(get(f, I.ops[0])); k = 1;
    auto it = funcByAddr.find(a); if (it == funcByAddr.end()) violation("memory", "call through invalid function pointer: " + describe(a));
    fn = it->second;
  }
  for (; k < I.ops.size(); k++) args.push_back(get(f, I.ops[k]));
  if (fn->bi) {
    std::vector<Val> av(args); Val out[4] = {C(0), C(0), C(0), C(0)};
    unwound = false; threadSwitched = false; pendings.clear();
    size_t depth = T->st.size(); Thread* me = T;
    fn->bi(&I, av, out);
    if (unwound) return;
    Frame& g = me->st[depth - 1];
    if (I.dst >= 0) for (int i = 0; i < I.nslots && i < 4; i++) g.regs[I.dst + i] = out[i];
    if (threadSwitched) { // current thread changed: advance the thread that made the call
      Thread* cur = T; T = me; advanceAfterCall(g, &I); T = cur; return; }
    advanceAfterCall(g, &I);
    for (auto& p : std::vector<Pending>(pendings)) { pushFrame(p.f, p.args, nullptr, nullptr); T->st.back().ignoreRet = true; }
    pendings.clear();
    return;
  }
  if (!fn->hasBody) engineError("call of undefined function " + fn->pretty);
  bool bvl = false; for (auto b : I.byval) bvl |= b != 0;
  pushFrame(fn, args, bvl ? &I.byval : nullptr, &I.argSlots);
}
static void doRet(DInst& I) {
  Val rv[16]; int n = I.ops.size(); Frame& f = T->st.back(); for (int i = 0; i < n && i < 16; i++) rv[i] = get(f, I.ops[i]);
  bool ign = f.ignoreRet;
  popFrame();
  if (T->st.empty()) {
    if (T->id == 0) endPath();
    int doneId = T->id; T->done = true; Thread* r = threads[T->resumer]; T = r;
    // resumer is blocked in vp_co_resume whose result was preset to 0 -> patch to 1 via its saved dst
    Frame& g = T->st.back(); extern int32_t coResDst[]; if (coResDst[doneId] >= 0) g.regs[coResDst[doneId]] = C(1);
    return;
  }
  if (ign) return;
  Frame& g = T->st.back(); DInst& CI = g.bb->ins[g.ip];
  if (CI.dst >= 0) for (int i = 0; i < CI.nslots && i < n; i++) g.regs[CI.dst + i] = rv[i];
  advanceAfterCall(g, &CI);
}
int32_t coResDst[64];

static void run() {
  for (;;) {
    Frame& f = T->st.back();
    DInst& I = f.bb->ins[f.ip];
    if ((++instrCount & 0xffff) == 0) { checkTime(); if (instrCount > optInstr) { INC(budgetExceeded, 1); S->incomplete = 1; note("instruction budget of a path exceeded"); die(0); } }
    switch (I.opc) {
      case Instruction::Ret: doRet(I); break;
      case Instruction::Br:
        if (!I.b1) { jump(f, I.b0); break; }
        { Val c = get(f, I.ops[0]); bool t = c.e ? decide(c.e) : c.lo; jump(f, t ? I.b0 : I.b1); }
        break;
      case Instruction::Switch: {
        Val c = get(f, I.ops[0]); DBlock* to = I.b0;
        if (!c.e) { for (auto& k : I.cases) if (k.first == c.lo) { to = k.second; break; } }
        else { for (auto& k : I.cases) if (decide(ex::cmp(Op::Eq, asBV(c, I.w), ex::bv(k.first, I.w)))) { to = k.second; break; } }
        jump(f, to); break; }
      case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
      case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
        if (I.w == 0 || I.w > 64) engineError("unsupported integer width");
        Val r = binop(I.opc, I.w, get(f, I.ops[0]), get(f, I.ops[1])); f.regs[I.dst] = r; f.ip++; break; }
      case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
        if (I.w == 0) engineError("unsupported fp type");
        f.regs[I.dst] = fbinop(I.opc, I.w, get(f, I.ops[0]), get(f, I.ops[1])); f.ip++; break;
      case Instruction::FNeg: { Val a = get(f, I.ops[0]); f.regs[I.dst] = a.e ? X(ex::fun(Op::FNeg, asFP(a, I.w))) : C(a.lo ^ (1ull << (I.w - 1))); f.ip++; break; }
      case Instruction::ICmp: { Val r = icmp(I.sub, I.w, get(f, I.ops[0]), get(f, I.ops[1])); f.regs[I.dst] = r; f.ip++; break; }
      case Instruction::FCmp: f.regs[I.dst] = fcmpv(I.sub, I.w, get(f, I.ops[0]), get(f, I.ops[1])); f.ip++; break;
      case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast:
      case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::FPExt: case Instruction::FPTrunc: {
        if (I.nslots != 1) { for (int i = 0; i < I.nslots; i++) f.regs[I.dst + i] = get(f, I.ops[i]); f.ip++; break; }
        f.regs[I.dst] = castv(I, get(f, I.ops[0])); f.ip++; break; }
      case Instruction::Freeze: for (int i = 0; i < I.nslots; i++) f.regs[I.dst + i] = get(f, I.ops[i]); f.ip++; break;
      case Instruction::GetElementPtr: {
        Val b = get(f, I.ops[0]); bool sym = b.e != nullptr; for (auto& x : I.idx) sym |= get(f, x.first).e != nullptr;
        if (!sym) { uint64_t a = b.lo + I.off; for (auto& x : I.idx) { uint64_t v = get(f, x.first).lo; unsigned w = x.second.second; int64_t s = w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); a += s * x.second.first; } f.regs[I.dst] = C(a); }
        else { Expr* a = ex::bin(Op::Add, asBV(b, 64), ex::bv(I.off, 64)); for (auto& x : I.idx) { Expr* v = ex::sext(asBV(get(f, x.first), x.second.second), 64); a = ex::bin(Op::Add, a, ex::bin(Op::Mul, v, ex::bv(x.second.first, 64))); } f.regs[I.dst] = X(a); }
        f.ip++; break; }
      case Instruction::Alloca: { uint64_t n = cv(get(f, I.ops[0])); f.regs[I.dst] = C(stackAlloc(I.off * n, I.w2)); f.ip++; break; }
      case Instruction::Load: {
        uint64_t a = cv(get(f, I.ops[0]));
        if (I.lay.size() == 1) { auto& l = I.lay[0]; if (!l.second.first) engineError("load of unsupported type"); f.regs[I.dst] = loadMem(a, (l.second.first + 7) / 8, l.second.first, l.second.second); }
        else for (size_t i = 0; i < I.lay.size(); i++) { auto& l = I.lay[i]; f.regs[I.dst + i] = loadMem(a + l.first, (l.second.first + 7) / 8, l.second.first, l.second.second); }
        f.ip++; break; }
      case Instruction::Store: {
        uint64_t a = cv(get(f, I.ops[0]));
        for (size_t i = 0; i < I.lay.size(); i++) { auto& l = I.lay[i]; if (!l.second.first) engineError("store of unsupported type"); storeMem(a + l.first, (l.second.first + 7) / 8, l.second.first, get(f, I.ops[1 + i])); }
        f.ip++; break; }
      case Instruction::Select: {
        Val c = get(f, I.ops[0]); int n = I.nslots;
        if (!c.e) { for (int i = 0; i < n; i++) f.regs[I.dst + i] = get(f, I.ops[1 + (c.lo ? 0 : n) + i]); }
        else if (n == 1 && !I.isPtr) { Val a = get(f, I.ops[1]), b = get(f, I.ops[2]); f.regs[I.dst] = I.fp ? X(ex::ite(c.e, asFP(a, I.w), asFP(b, I.w))) : X(ex::ite(c.e, asBV(a, I.w), asBV(b, I.w))); }
        else { bool t = decide(c.e); for (int i = 0; i < n; i++) f.regs[I.dst + i] = get(f, I.ops[1 + (t ? 0 : n) + i]); }
        f.ip++; break; }
      case Instruction::ExtractValue: for (int i = 0; i < I.nslots; i++) f.regs[I.dst + i] = get(f, I.ops[I.off + i]); f.ip++; break;
      case Instruction::InsertValue: { int n = I.nslots; int k = I.ops.size() - I.sub; Val t[64]; for (int i = 0; i < n && i < 64; i++) t[i] = get(f, I.ops[i]); for (int i = 0; i < k; i++) t[I.off + i] = get(f, I.ops[I.sub + i]); for (int i = 0; i < n; i++) f.regs[I.dst + i] = t[i]; f.ip++; break; }
      case Instruction::ExtractElement: { int n = I.ops.size() - 1; uint64_t i = cv(get(f, I.ops[n])); f.regs[I.dst] = get(f, I.ops[i % n]); f.ip++; break; }
      case Instruction::InsertElement: { int n = I.nslots; uint64_t i = cv(get(f, I.ops[n + 1])); Val t[64]; for (int j = 0; j < n; j++) t[j] = get(f, I.ops[j]); t[i % n] = get(f, I.ops[n]); for (int j = 0; j < n; j++) f.regs[I.dst + j] = t[j]; f.ip++; break; }
      case Instruction::ShuffleVector: { int n = I.nslots; Val t[64]; for (int j = 0; j < n; j++) { int m = I.argSlots[j]; t[j] = m < 0 ? C(0) : get(f, I.ops[m]); } for (int j = 0; j < n; j++) f.regs[I.dst + j] = t[j]; f.ip++; break; }
      case Instruction::Fence: f.ip++; break;
      case Instruction::AtomicCmpXchg: {
        uint64_t a = cv(get(f, I.ops[0])); unsigned w = tw(cast<StructType>(I.retTy)->getElementType(0)); Val o = loadMem(a, w / 8, w, false); Val c = icmp(CmpInst::ICMP_EQ, w, o, get(f, I.ops[1])); bool t = c.e ? decide(c.e) : c.lo;
        if (t) storeMem(a, w / 8, w, get(f, I.ops[2])); f.regs[I.dst] = o; f.regs[I.dst + 1] = C(t); f.ip++; break; }
      case Instruction::AtomicRMW: {
        uint64_t a = cv(get(f, I.ops[0])); Val o = loadMem(a, I.w / 8, I.w, false), v = get(f, I.ops[1]), r;
        switch (I.sub) { case AtomicRMWInst::Xchg: r = v; break; case AtomicRMWInst::Add: r = binop(Instruction::Add, I.w, o, v); break; case AtomicRMWInst::Sub: r = binop(Instruction::Sub, I.w, o, v); break; case AtomicRMWInst::And: r = binop(Instruction::And, I.w, o, v); break; case AtomicRMWInst::Or: r = binop(Instruction::Or, I.w, o, v); break; case AtomicRMWInst::Xor: r = binop(Instruction::Xor, I.w, o, v); break; default: engineError("atomicrmw"); }
        storeMem(a, I.w / 8, I.w, r); f.regs[I.dst] = o; f.ip++; break; }
      case Instruction::Call: case Instruction::Invoke: doCall(f, I); break;
      case Instruction::LandingPad: f.ip++; break; // registers were set by unwind()
      case Instruction::Resume: { uint64_t o = cv(get(f, I.ops[0])); 
        // continue unwinding above this frame
        popFrame(); if (T->st.empty()) violation("exception", "exception escaped the thread"); unwind(o); break; }
      case Instruction::Unreachable: violation("unreachable", "reached code marked unreachable (undefined behaviour)");
      default: engineError(std::string("unsupported instruction ") + Instruction::getOpcodeName(I.opc));
    }
  }
}

static Thread* newThread() {
  Thread* t = new Thread(); t->id = threads.size(); t->done = false; t->resumer = 0;
  if (t->id >= 30) engineError("too many coroutines");
  t->regBase = t->regTop = (Val*)mmap(nullptr, 64 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  t->sp = t->spBase = STACK0 + t->id * TSTACK; threads.push_back(t); return t;
}

static void outStats(const std::string& status) {
  FILE* f = fopen((optOut + "/stats.json").c_str(), "w"); if (!f) return;
  fprintf(f, "{\"status\":\"%s\",\"paths\":%llu,\"assumed_away\":%llu,\"infeasible\":%llu,\"instructions\":%llu,\"forks\":%llu,\"decisions\":%llu,", status.c_str(), (unsigned long long)S->paths, (unsigned long long)S->assumedAway, (unsigned long long)S->infeasible, (unsigned long long)S->instrs, (unsigned long long)S->forks, (unsigned long long)S->decided);
  fprintf(f, "\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"precise_fp_queries\":%llu,\"real_queries\":%llu,\"cache_hits\":%llu,\"solver_s\":%.3f,\"max_query_s\":%.3f,", (unsigned long long)S->queries, (unsigned long long)S->qsat, (unsigned long long)S->qunsat, (unsigned long long)S->qunknown, (unsigned long long)S->qprecise, (unsigned long long)S->qreal, (unsigned long long)S->cacheHits, S->qns * 1e-9, S->qmaxns * 1e-9);
  fprintf(f, "\"asserts\":%llu,\"asserts_symbolic\":%llu,\"asserts_proved\":%llu,\"real_identities_proved\":%llu,\"undecided\":%llu,\"incomplete\":%d,\"crashed\":%llu,\"candidates\":%d,", (unsigned long long)S->asserts, (unsigned long long)S->assertsSym, (unsigned long long)S->assertsProved, (unsigned long long)S->realProved, (unsigned long long)S->undecided, S->incomplete, (unsigned long long)S->crashed, S->nViol);
  fprintf(f, "\"labels\":{"); for (int i = 0; i < S->nLabels; i++) fprintf(f, "%s\"%s\":%llu", i ? "," : "", jesc(S->labels[i]).c_str(), (unsigned long long)S->labelCount[i]); fprintf(f, "},");
  fprintf(f, "\"errors\":["); for (int i = 0; i < S->nErr && i < MAXNOTE; i++) fprintf(f, "%s\"%s\"", i ? "," : "", jesc(S->errs[i]).c_str()); fprintf(f, "],");
  fprintf(f, "\"notes\":["); for (int i = 0; i < S->nNote && i < MAXNOTE; i++) fprintf(f, "%s\"%s\"", i ? "," : "", jesc(S->notes[i]).c_str()); fprintf(f, "],");
  // functions
  fprintf(f, "\"functions\":["); bool first = true; size_t tb = 0, cb = 0;
  std::map<std::string, std::pair<size_t, size_t>> fns;
  for (auto* b : allBlocks) { if (b->f->srcFile.compare(0, optSrc.size(), optSrc) != 0) continue; auto& x = fns[b->f->srcFile.substr(optSrc.size()) + ":" + std::to_string(b->f->srcLine) + "\t" + b->f->pretty]; x.second++; x.first += cov[b->cov]; }
  for (auto& x : fns) { if (!x.second.first) continue; tb += x.second.second; cb += x.second.first; size_t p = x.first.find('\t'); fprintf(f, "%s{\"at\":\"%s\",\"fn\":\"%s\",\"blocks\":%zu,\"covered\":%zu}", first ? "" : ",\n", jesc(x.first.substr(0, p)).c_str(), jesc(x.first.substr(p + 1)).c_str(), x.second.second, x.second.first); first = false; }
  fprintf(f, "],\"repo_blocks\":%zu,\"repo_blocks_covered\":%zu}\n", tb, cb);
  fclose(f);
}

int main(int argc, char** argv) {
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto val = [&](const char* p) -> const char* { size_t n = strlen(p); return a.compare(0, n, p) == 0 ? a.c_str() + n : nullptr; }; const char* v;
    if ((v = val("--out="))) optOut = v; else if ((v = val("--jobs="))) optJobs = atoi(v); else if ((v = val("--time="))) optTime = atof(v); else if ((v = val("--entry="))) optEntry = v;
    else if ((v = val("--qtime="))) optQTime = atoi(v); else if ((v = val("--atime="))) optATime = atoi(v); else if ((v = val("--instr="))) optInstr = strtoull(v, 0, 10); else if ((v = val("--src="))) optSrc = v; else if ((v = val("--maxviol="))) optMaxViol = atoi(v);
    else if (a == "-v") optVerbose = true; else optIn = a;
  }
  double t0 = nowS(); deadline = t0 + optTime;
  LLVMContext ctx; SMDiagnostic err; std::unique_ptr<Module> mod = parseIRFile(optIn, err, ctx);
  if (!mod) { err.print("engine", errs()); return 2; }
  M = mod.get(); DL = &M->getDataLayout();
  if (mmap((void*)ARENA, ASIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) == MAP_FAILED || mmap((void*)SHADOW, ASIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) == MAP_FAILED) { perror("mmap"); return 2; }
  S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset((void*)S, 0, sizeof *S); S->freeTokens = optJobs - 1;
  for (int i = 0; i < MAXSLOT; i++) { sem_init(&S->sems[i], 1, 0); S->freeSlots[i] = i; } S->nFreeSlots = MAXSLOT;
  static Solver sv; SV = &sv;
  for (auto& g : M->globals()) globalAddr(&g);
  for (auto& F : *M) getFunc(&F);
  for (auto& g : M->globals()) if (g.hasInitializer()) writeConst(gaddr[&g], g.getInitializer());
  vtSI = gByName.count("_ZTVN10__cxxabiv120__si_class_type_infoE") ? gByName["_ZTVN10__cxxabiv120__si_class_type_infoE"] : 1;
  vtVMI = gByName.count("_ZTVN10__cxxabiv121__vmi_class_type_infoE") ? gByName["_ZTVN10__cxxabiv121__vmi_class_type_infoE"] : 1;
  vtClass = gByName.count("_ZTVN10__cxxabiv117__class_type_infoE") ? gByName["_ZTVN10__cxxabiv117__class_type_infoE"] : 1;
  if (gByName.count("__libc_single_threaded")) *(char*)gByName["__libc_single_threaded"] = 1;
  std::vector<DFunc*> fl; for (auto& F : *M) fl.push_back(getFunc(&F)); for (auto* d : fl) decode(d);
  covN = allBlocks.size() + 1; cov = (uint8_t*)mmap(nullptr, covN, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  double tl = nowS();
  auto it = funcByName.find(optEntry); if (it == funcByName.end() || !it->second->hasBody) { fprintf(stderr, "no entry %s\n", optEntry.c_str()); return 2; }
  // static constructors, then entry: build a driver list executed by pushing frames in reverse order
  std::vector<std::pair<uint64_t, DFunc*>> ctors;
  if (auto* g = M->getGlobalVariable("llvm.global_ctors")) if (auto* ca = dyn_cast_or_null<ConstantArray>(g->getInitializer()))
    for (auto& o : ca->operands()) { auto* s = cast<ConstantStruct>(o); if (auto* F = dyn_cast<Function>(s->getOperand(1)->stripPointerCasts())) ctors.push_back({cast<ConstantInt>(s->getOperand(0))->getZExtValue(), getFunc(F)}); }
  std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
  S->live = 1; fflush(stdout); fflush(stderr);
  signal(SIGCHLD, SIG_IGN);
  setpgid(0, 0);
  pid_t p = fork();
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, 0);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onCrash; sigaction(SIGSEGV, &sa, 0); sigaction(SIGABRT, &sa, 0); sigaction(SIGFPE, &sa, 0); sigaction(SIGBUS, &sa, 0);
    T = newThread();
    pushFrame(it->second, {}, nullptr, nullptr);
    for (size_t i = ctors.size(); i-- > 0;) { pushFrame(ctors[i].second, {}, nullptr, nullptr); T->st.back().ignoreRet = true; }
    run();
    _exit(0);
  }
  double lastLive = nowS();
  while (S->live > 0) { usleep(5000); double n = nowS(); if (n > deadline) { S->incomplete = 1; S->stop = 1; } if (n > deadline + 12 || (S->stop && n - lastLive > 30)) { S->incomplete = 1; break; } if (!S->stop) lastLive = n; }
  signal(SIGTERM, SIG_IGN); kill(0, SIGTERM); usleep(20000);
  outStats(S->incomplete ? "incomplete" : "complete");
  if (optVerbose) fprintf(stderr, "load %.2fs run %.2fs paths %llu instrs %llu queries %llu solver %.2fs cand %d err %d incomplete %d\n", tl - t0, nowS() - tl, (unsigned long long)S->paths, (unsigned long long)S->instrs, (unsigned long long)S->queries, S->qns * 1e-9, S->nViol, S->nErr, S->incomplete);
  _exit(S->nErr ? 2 : S->nViol ? 1 : 0);
}
