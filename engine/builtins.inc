// Builtin functions of the symbolic executor (included from main.cpp)
#define BI(n) static void n(DInst* I, std::vector<Val>& a, Val* out)
static void release(uint64_t p, int kind, const char* what) {
  if (!p) return;
  auto it = allocs.find(p);
  if (it == allocs.end() || it->second.kind == 0) violation("memory", std::string(what) + " of a pointer that was not allocated: " + describe(p));
  if (!it->second.live) violation("memory", std::string("double ") + what + ": " + describe(p));
  if (kind && it->second.kind != kind) violation("memory", std::string(what) + " does not match the allocation function");
  it->second.live = 0; forget(p, it->second.size, FREED);
}
static uint64_t heapOps; // calls that obtain or give back heap memory on this path
BI(bi_heap_ops) { out[0] = C(heapOps); }
BI(bi_malloc) { ++heapOps; uint64_t n = cv(a[0]); if (n > (1ull << 32)) { out[0] = C(0); return; } out[0] = C(allocate(n, 1)); }
BI(bi_calloc) { ++heapOps; uint64_t n = cv(a[0]) * cv(a[1]); uint64_t p = allocate(n, 1, 16, CONC); memset((void*)p, 0, n); out[0] = C(p); }
BI(bi_free) { ++heapOps; release(cv(a[0]), 1, "free"); }
BI(bi_realloc) { ++heapOps; uint64_t p = cv(a[0]), n = cv(a[1]); uint64_t q = allocate(n, 1); if (p) { auto it = allocs.find(p); if (it == allocs.end()) violation("memory", "realloc of bad pointer"); copyMem(q, p, std::min<uint64_t>(n, it->second.size)); release(p, 1, "realloc"); } out[0] = C(q); }
BI(bi_new) { ++heapOps; uint64_t n = cv(a[0]); if (n > (1ull << 31)) violation("memory", "huge allocation of " + std::to_string(n) + " bytes"); out[0] = C(allocate(n, 2)); }
BI(bi_newa) { ++heapOps; uint64_t n = cv(a[0]); if (n > (1ull << 31)) violation("memory", "huge allocation of " + std::to_string(n) + " bytes"); out[0] = C(allocate(n, 3)); }
BI(bi_delete) { ++heapOps; release(cv(a[0]), 2, "delete"); }
BI(bi_deletea) { ++heapOps; release(cv(a[0]), 3, "delete[]"); }
BI(bi_memcpy) { uint64_t d = cv(a[0]); copyMem(d, cv(a[1]), cv(a[2])); out[0] = C(d); }
BI(bi_memset) {
  uint64_t d = cv(a[0]), n = cv(a[2]); if (n) { checkAccess(d, n, "write");
    if (!a[1].e) { forget(d, n, CONC); memset((void*)d, (int)a[1].lo, n); }
    else { Expr* e = asBV(a[1], I->callee && I->callee->name.compare(0, 5, "llvm.") == 0 ? 8 : 32); e = ex::extract(e, 0, 8); for (uint64_t i = 0; i < n; i++) { symMem[d + i] = {e, 0}; *sh(d + i) = SYM; } } }
  out[0] = C(d);
}
static Val cmpBytes(uint64_t p, uint64_t q, uint64_t n, bool eqOnly) {
  if (n) { checkAccess(p, n, "read"); checkAccess(q, n, "read"); }
  bool conc = true; for (uint64_t i = 0; i < n && conc; i++) conc = *sh(p + i) == CONC && *sh(q + i) == CONC;
  if (conc) { int r = memcmp((void*)p, (void*)q, n); return C((uint32_t)(r < 0 ? -1 : r > 0)); }
  // concrete mismatch prefix shortcut and ite chain from the end
  Expr* r = ex::bv(0, 32);
  for (uint64_t i = n; i-- > 0;) {
    Expr *x = byteAt(p + i), *y = byteAt(q + i);
    Expr* ne = eqOnly ? ex::bv(1, 32) : ex::ite(ex::cmp(Op::ULt, x, y), ex::bv(0xffffffffu, 32), ex::bv(1, 32));
    r = ex::ite(ex::cmp(Op::Eq, x, y), r, ne);
  }
  return X(r);
}
BI(bi_memcmp) { out[0] = cmpBytes(cv(a[0]), cv(a[1]), cv(a[2]), false); }
BI(bi_bcmp) { out[0] = cmpBytes(cv(a[0]), cv(a[1]), cv(a[2]), true); }
static bool byteIs(uint64_t p, uint8_t c) { checkAccess(p, 1, "read"); if (*sh(p) == CONC) return *(uint8_t*)p == c; return decide(ex::cmp(Op::Eq, byteAt(p), ex::bv(c, 8))); }
static uint64_t symStrlen(uint64_t p) { uint64_t n = 0; while (!byteIs(p + n, 0)) n++; return n; }
BI(bi_strlen) { out[0] = C(symStrlen(cv(a[0]))); }
BI(bi_memchr) { uint64_t p = cv(a[0]), n = cv(a[2]); uint8_t c = (uint8_t)cv(a[1]); for (uint64_t i = 0; i < n; i++) if (byteIs(p + i, c)) { out[0] = C(p + i); return; } out[0] = C(0); }
BI(bi_strcmp) { uint64_t p = cv(a[0]), q = cv(a[1]); uint64_t n = std::min(symStrlen(p), symStrlen(q)) + 1; out[0] = cmpBytes(p, q, n, false); }
BI(bi_strncmp) { uint64_t p = cv(a[0]), q = cv(a[1]); uint64_t n = std::min(std::min(symStrlen(p), symStrlen(q)) + 1, cv(a[2])); out[0] = cmpBytes(p, q, n, false); }
BI(bi_strcpy) { uint64_t d = cv(a[0]), s = cv(a[1]); copyMem(d, s, symStrlen(s) + 1); out[0] = C(d); }
BI(bi_strdup) { uint64_t s = cv(a[0]); uint64_t n = symStrlen(s) + 1; uint64_t d = allocate(n, 1); copyMem(d, s, n); out[0] = C(d); }
BI(bi_strchr) { uint64_t p = cv(a[0]); uint8_t c = (uint8_t)cv(a[1]); for (;; p++) { if (byteIs(p, c)) { out[0] = C(p); return; } if (byteIs(p, 0)) { out[0] = C(0); return; } } }
// native numeric parsing on (concretized) strings, C locale
static uint64_t errnoAddr() { static uint64_t p = 0; if (!p) { p = allocate(8, 0, 16, CONC); memset((void*)p, 0, 8); } return p; }
BI(bi_errno) { out[0] = C(errnoAddr()); }
static void setEnd(const Val& v, uint64_t p) { uint64_t e = cv(v); if (e) writeConc(e, &p, 8); }
static void setErrno(int e) { if (e) writeConc(errnoAddr(), &e, 4); }
BI(bi_strtod) {
  { uint64_t p = cv(a[0]); checkAccess(p, 1, "read"); // a single symbolic digit
    if (*sh(p) == SYM) { Expr* ch = byteAt(p); checkAccess(p + 1, 1, "read"); if (*sh(p + 1) == CONC && *(uint8_t*)(p + 1) == 0) {
      Expr* dig = ex::and1(ex::cmp(Op::ULe, ex::bv('0', 8), ch), ex::cmp(Op::ULe, ch, ex::bv('9', 8)));
      if (decide(dig)) { setEnd(a[1], p + 1); out[0] = X(ex::conv(Op::SI2F, ex::zext(ex::bin(Op::Sub, ch, ex::bv('0', 8)), 32), true, 64)); return; } } } }
  uint64_t p = cv(a[0]); std::string s = cstr(p); char* e; errno = 0; double d = strtod(s.c_str(), &e); setErrno(errno); setEnd(a[1], p + (e - s.c_str())); uint64_t u; memcpy(&u, &d, 8); out[0] = C(u); }
BI(bi_strtof) { uint64_t p = cv(a[0]); std::string s = cstr(p); char* e; errno = 0; float d = strtof(s.c_str(), &e); setErrno(errno); setEnd(a[1], p + (e - s.c_str())); uint32_t u; memcpy(&u, &d, 4); out[0] = C(u); }
BI(bi_strtol) { uint64_t p = cv(a[0]); std::string s = cstr(p); char* e; errno = 0; long d = strtol(s.c_str(), &e, (int)cv(a[2])); setErrno(errno); setEnd(a[1], p + (e - s.c_str())); out[0] = C(d); }
BI(bi_strtoul) { uint64_t p = cv(a[0]); std::string s = cstr(p); char* e; errno = 0; unsigned long d = strtoul(s.c_str(), &e, (int)cv(a[2])); setErrno(errno); setEnd(a[1], p + (e - s.c_str())); out[0] = C(d); }
BI(bi_isspace) { uint64_t c = cv(a[0]); out[0] = C(isspace((int)(uint8_t)c) != 0); }
BI(bi_zero) { out[0] = C(0); }
BI(bi_nop) { }
BI(bi_id) { out[0] = a[0]; }
// ---- exceptions
BI(bi_cxa_alloc) { out[0] = C(allocate(cv(a[0]), 4)); }
BI(bi_cxa_freeexc) { uint64_t p = cv(a[0]); excs.erase(p); auto it = allocs.find(p); if (it != allocs.end()) { it->second.live = 0; forget(p, it->second.size, FREED); } }
BI(bi_cxa_throw) { uint64_t o = cv(a[0]); excs[o] = {o, cv(a[1]), cv(a[2]), 0, false}; unwound = true; unwind(o); }
BI(bi_cxa_begin_catch) { uint64_t o = cv(a[0]); auto it = excs.find(o); if (it == excs.end()) engineError("begin_catch of unknown exception"); it->second.handlers++; it->second.rethrown = false; T->caught.push_back(o); out[0] = C(o); }
BI(bi_cxa_end_catch) {
  if (T->caught.empty()) engineError("end_catch without catch");
  uint64_t o = T->caught.back(); T->caught.pop_back(); Exc& e = excs[o]; e.handlers--;
  if (e.handlers <= 0 && !e.rethrown) { uint64_t d = e.dtor; excs.erase(o); if (d) { auto it = funcByAddr.find(d); if (it != funcByAddr.end() && it->second->hasBody && !it->second->bi) pendings.push_back({it->second, {C(o)}}); } }
}
BI(bi_cxa_rethrow) { if (T->caught.empty()) violation("exception", "rethrow without active exception"); uint64_t o = T->caught.back(); excs[o].rethrown = true; unwound = true; unwind(o); }
BI(bi_cxa_excptr) { out[0] = a[0]; }
BI(bi_unwind_resume) { unwound = true; uint64_t o = cv(a[0]); popFrame(); unwind(o); }
BI(bi_terminate) { violation("exception", "std::terminate called (an exception escaped a noexcept function or destructor)"); }
BI(bi_abort) { violation("abort", "abort() called"); }
BI(bi_purevirtual) { violation("memory", "pure virtual function called"); }
BI(bi_assertfail) { violation("assert", "assertion in the code failed: " + cstr(cv(a[0])) + " (" + cstr(cv(a[1])) + ")"); }
BI(bi_glibcxx_assert) { violation("assert", "libstdc++ assertion failed: " + cstr(cv(a[3]))); }
BI(bi_trap) { violation("unreachable", "trap"); }
BI(bi_typeid) { out[0] = C((uint32_t)typeId(cv(a[0]))); }
BI(bi_dyncast) {
  uint64_t p = cv(a[0]), st = cv(a[1]), dt = cv(a[2]);
  uint64_t vp = rd(p); int64_t top = (int64_t)rd(vp - 16); uint64_t whole = p + top, wti = rd(vp - 8);
  std::vector<std::tuple<uint64_t, uint64_t, bool>> bs; basesOf(wti, whole, true, bs);
  std::set<uint64_t> direct, all; bool srcPublic = false;
  for (auto& b : bs) if (sameTi(std::get<0>(b), st) && std::get<1>(b) == p && std::get<2>(b)) srcPublic = true;
  for (auto& b : bs) if (sameTi(std::get<0>(b), dt)) {
    std::vector<std::tuple<uint64_t, uint64_t, bool>> sub; basesOf(std::get<0>(b), std::get<1>(b), true, sub);
    for (auto& s : sub) if (sameTi(std::get<0>(s), st) && std::get<1>(s) == p && std::get<2>(s)) direct.insert(std::get<1>(b));
    if (std::get<2>(b)) all.insert(std::get<1>(b));
  }
  uint64_t r = 0; if (direct.size() == 1) r = *direct.begin(); else if (srcPublic && all.size() == 1) r = *all.begin();
  out[0] = C(r);
}
BI(bi_demangle) {
  std::string n = cstr(cv(a[0])); int st; char* d = abi::__cxa_demangle(n.c_str(), nullptr, nullptr, &st); uint64_t sp = cv(a[3]); if (sp) writeConc(sp, &st, 4);
  uint64_t r = 0; if (st == 0 && d) { r = allocate(strlen(d) + 1, 1, 16, CONC); memcpy((void*)r, d, strlen(d) + 1); } free(d); out[0] = C(r);
}
BI(bi_guard_acquire) { uint64_t g = cv(a[0]); uint8_t v = *(uint8_t*)g; out[0] = C(v == 0); }
BI(bi_guard_release) { uint8_t one = 1; writeConc(cv(a[0]), &one, 1); }
// ---- mutexes (recursive when the kind field says so)
static std::map<uint64_t, std::pair<int, int>> mutexes;
BI(bi_mutex_lock) {
  uint64_t m = cv(a[0]); checkAccess(m, 40, "mutex lock"); auto& x = mutexes[m]; Val kv = loadMem(m + 16, 4, 32, false); bool rec = cv(kv) == 1;
  if (x.second == 0) { x = {T->id, 1}; out[0] = C(0); return; }
  if (x.first == T->id) { if (!rec) violation("deadlock", "a thread locks a mutex it already holds"); x.second++; out[0] = C(0); return; }
  violation("deadlock", "a thread blocks on a mutex held by another thread of the schedule");
}
BI(bi_mutex_trylock) { uint64_t m = cv(a[0]); auto& x = mutexes[m]; bool rec = cv(loadMem(m + 16, 4, 32, false)) == 1; if (x.second == 0) { x = {T->id, 1}; out[0] = C(0); } else if (x.first == T->id && rec) { x.second++; out[0] = C(0); } else out[0] = C(16); }
BI(bi_mutex_unlock) { uint64_t m = cv(a[0]); checkAccess(m, 40, "mutex unlock"); auto& x = mutexes[m]; if (x.second <= 0) violation("deadlock", "unlock of a mutex that is not locked"); x.second--; out[0] = C(0); }
// ---- harness API
static void addInput(const std::string& n, uint32_t v, int64_t base, bool d, unsigned w) { inputs.push_back({n, v, base, d, w, false, 0}); }
BI(bi_vp_int) {
  std::string n = cstr(cv(a[0])); int64_t lo = (int64_t)cv(a[1]), hi = (int64_t)cv(a[2]); if (hi < lo) engineError("vp_int: empty range"); uint64_t span = (uint64_t)hi - (uint64_t)lo;
  if (span == 0) { inputs.push_back({n, 0, lo, false, 1, true, 0}); out[0] = C(lo); return; }
  unsigned w = 1; while (w < 64 && (span >> w)) w++;
  Expr* v = ex::var(n, w); addInput(n, (uint32_t)v->c, lo, false, w);
  if (span != mk(w)) { Expr* c = ex::cmp(Op::ULe, v, ex::bv(span, w)); addPc(c); }
  out[0] = X(ex::bin(Op::Add, ex::zext(v, 64), ex::bv(lo, 64)));
}
BI(bi_vp_double) { std::string n = cstr(cv(a[0])); Expr* v = ex::var(n, 64, true); addInput(n, (uint32_t)v->c, 0, true, 64); out[0] = X(ex::bv2f(v)); }
BI(bi_vp_choice) { std::string n = cstr(cv(a[0])); uint64_t k = cv(a[1]); (void)I; // one path per value of a fresh input: every value is feasible
  uint64_t v = 0; for (; v + 1 < k; v++) if (doFork()) break;
  inputs.push_back({n, 0, 0, false, 8, true, v}); out[0] = C(v); }
BI(bi_vp_concretize) { out[0] = C(cv(a[0])); }
static Expr* truth(const Val& v, unsigned w) { if (!v.e) return ex::bv(v.lo != 0, 1); return ex::not1(ex::cmp(Op::Eq, asBV(v, w), ex::bv(0, w))); }
BI(bi_vp_assume) {
  Expr* c = truth(a[0], 32);
  if (ex::isTrue(c)) return; if (ex::isFalse(c)) { INC(assumedAway, 1); die(0); }
  uint64_t ep = ex::newEpoch();
  if (modelOk && ex::eval(c, model, ep)) { addPc(c); return; }
  Model nm; bool ok; Res r = feasible(c, nm, ok, true, optATime);
  if (r == Res::Unsat) { INC(assumedAway, 1); die(0); }
  addPc(c); if (r == Res::Sat) { model = nm; modelOk = ok; } else modelOk = false;
}
static void assertExpr(Expr* c, const std::string& msg) {
  INC(asserts, 1);
  if (ex::isTrue(c)) return; if (ex::isFalse(c)) violation("assert", msg);
  INC(assertsSym, 1);
  Expr* n = ex::not1(c); Model nm; bool ok;
  if (modelOk && ex::eval(n, model, ex::newEpoch())) { reportViolation("assert", msg, model); }
  else {
    Res r = feasible(n, nm, ok, true, optATime);
    if (r == Res::Unsat) { INC(assertsProved, 1); return; }
    if (r == Res::Unknown || !ok) {
      // decide with the whole path condition
      if (r == Res::Sat) { std::vector<Expr*> q = pc; q.push_back(n); Model m2; bool ok2; SV->timeoutMs = optATime; Res r2 = SV->check(q, &m2, &ok2, true); if (r2 == Res::Unsat) { INC(assertsProved, 1); return; } if (r2 == Res::Sat && ok2) { reportViolation("assert", msg, m2); r = Res::Sat; goto done; } }
      INC(undecided, 1); note("undecided assertion: " + msg);
    } else reportViolation("assert", msg, nm);
  }
done:
  // continue with the assertion assumed
  { Model nm2; bool ok2; Res r = feasible(c, nm2, ok2, true, optQTime); if (r == Res::Unsat) { INC(paths, 1); die(0); } addPc(c); if (r == Res::Sat) { model = nm2; modelOk = ok2; } else modelOk = false; }
}
BI(bi_vp_assert) { assertExpr(truth(a[0], 32), cstr(cv(a[1]))); }
BI(bi_vp_reach) {
  std::string l = cstr(cv(a[0]));
  int i; for (i = 0; i < S->nLabels; i++) if (l == S->labels[i]) break;
  if (!modelOk && (i == S->nLabels || !S->labelCount[i])) ensureModel(); // only count labels on paths known feasible
  lockS(); for (i = 0; i < S->nLabels; i++) if (l == S->labels[i]) break;
  if (i == S->nLabels && i < MAXLABEL) { snprintf(S->labels[i], 96, "%s", l.c_str()); S->nLabels = i + 1; }
  if (i < MAXLABEL && modelOk) S->labelCount[i] = S->labelCount[i] + 1; unlockS();
}
BI(bi_vp_end) { endPath(); }
static void realAssert(Expr* c, const std::string& msg) {
  INC(asserts, 1); if (ex::isTrue(c)) return;
  INC(assertsSym, 1);
  std::vector<Expr*> q = pc; q.push_back(ex::not1(c));
  SV->timeoutMs = optATime; Model m;
  Res r = SV->query(q, Mode::Real, &m);
  if (r == Res::Unsat) { INC(assertsProved, 1); INC(realProved, 1); return; }
  if (r == Res::Sat) {
    // prefer a model of moderate magnitude so that the difference survives rounding
    if (c->op == Op::FLe) { // prefer a clear violation
      std::vector<Expr*> q2 = q; double mg = 0.01; uint64_t mb; memcpy(&mb, &mg, 8); q2.back() = ex::fcmp(Op::FLt, ex::fbin(Op::FAdd, c->k[1], ex::fpc(mb, 64)), c->k[0]);
      Model m3; std::vector<std::string> box{"1/8", "8"}; if (SV->query(q2, Mode::Real, &m3, &box) == Res::Sat || SV->query(q2, Mode::Real, &m3) == Res::Sat) { reportViolation("real", msg, m3); INC(paths, 1); die(0); }
    }
    Model m2; std::vector<std::string> box{"1/8", "8"}; if (SV->query(q, Mode::Real, &m2, &box) == Res::Sat) m = m2; else { box = {"1/1000", "1000"}; if (SV->query(q, Mode::Real, &m2, &box) == Res::Sat) m = m2; }
    reportViolation("real", msg, m); INC(paths, 1); die(0);
  }
  INC(undecided, 1); note("undecided real identity: " + msg);
}
BI(bi_vp_real_eq) { Expr *x = asFP(a[0], 64), *y = asFP(a[1], 64); if (x == y) { INC(asserts, 1); return; } 
  if (x->op == Op::Const && y->op == Op::Const) { double p, q, s; memcpy(&p, &x->c, 8); memcpy(&q, &y->c, 8); uint64_t sb = cv(a[2]); memcpy(&s, &sb, 8); INC(asserts, 1); if (!(std::fabs(p - q) <= 1e-9 * (std::fabs(s) + std::fabs(p) + std::fabs(q) + 1))) violation("assert", cstr(cv(a[3]))); return; }
  realAssert(ex::mk(Op::FEq, false, 1, 0, x, y), cstr(cv(a[3]))); }
// a <= b: over the doubles when that can be shown, otherwise over the reals (a replay allows rounding)
BI(bi_vp_le) {
  Expr *x = asFP(a[0], 64), *y = asFP(a[1], 64); std::string msg = cstr(cv(a[3]));
  Expr* c = ex::fcmp(Op::FLe, x, y); if (ex::isTrue(c)) { INC(asserts, 1); return; }
  auto beyond = [&](const Model& m) { uint64_t ep = ex::newEpoch(), u[3] = {ex::eval(x, m, ep), ex::eval(y, m, ep), a[2].e ? ex::eval(asFP(a[2], 64), m, ep) : a[2].lo}; double p, q, s; memcpy(&p, &u[0], 8); memcpy(&q, &u[1], 8); memcpy(&s, &u[2], 8); return !(p <= q + 1e-9 * (std::fabs(s) + std::fabs(p) + std::fabs(q))); };
  Expr* n = ex::not1(c); Model nm; bool ok;
  if (modelOk && ex::eval(n, model, ex::newEpoch()) && beyond(model)) { INC(asserts, 1); INC(assertsSym, 1); reportViolation("assert", msg, model); INC(paths, 1); die(0); }
  Res r = feasible(n, nm, ok, false, optATime);
  if (r == Res::Unsat) { INC(asserts, 1); INC(assertsSym, 1); INC(assertsProved, 1); return; }
  if (r == Res::Sat && ok && beyond(nm)) { INC(asserts, 1); INC(assertsSym, 1); reportViolation("assert", msg, nm); INC(paths, 1); die(0); }
  realAssert(c, msg);
}
BI(bi_vp_ok_native) { out[0] = C(0); }
BI(bi_co_new) {
  uint64_t fa = cv(a[0]); auto it = funcByAddr.find(fa); if (it == funcByAddr.end()) engineError("co_new: bad function");
  Thread* me = T; Thread* t = newThread(); T = t; pushFrame(it->second, {a[1]}, nullptr, nullptr); T = me; out[0] = C(t->id);
}
extern int32_t coResDst[];
BI(bi_co_resume) { uint64_t id = cv(a[0]); Thread* t = threads.at(id); out[0] = C(0); if (t->done) { out[0] = C(1); return; } t->resumer = T->id; coResDst[id] = I->dst; T = t; threadSwitched = true; }
BI(bi_co_yield) { if (T->id == 0) return; T = threads[T->resumer]; threadSwitched = true; }
BI(bi_co_self) { out[0] = C(T->id); }
// ---- LLVM intrinsics
BI(in_lifetime_start) { uint64_t p = cv(a[1]); if (p && !a[0].e && inArena(p, 1)) { int64_t n = (int64_t)a[0].lo; if (n > 0) forget(p, n, UNINIT); } }
BI(in_lifetime_end) { uint64_t p = cv(a[1]); if (p && !a[0].e && inArena(p, 1)) { int64_t n = (int64_t)a[0].lo; if (n > 0) forget(p, n, FREED); } }
static Val fun1(Op o, const Val& v, unsigned w) { return X(ex::fun(o, asFP(v, w))); }
BI(in_fabs) { out[0] = fun1(Op::FAbs, a[0], I->w); } BI(in_floor) { out[0] = fun1(Op::FFloor, a[0], I->w); } BI(in_ceil) { out[0] = fun1(Op::FCeil, a[0], I->w); } BI(in_trunc) { out[0] = fun1(Op::FTrunc, a[0], I->w); } BI(in_sqrt) { out[0] = fun1(Op::FSqrt, a[0], I->w); }
static Val fminmax(const Val& a, const Val& b, unsigned w, bool mx) {
  Expr *x = asFP(a, w), *y = asFP(b, w);
  Expr* c = mx ? ex::fcmp(Op::FLt, x, y) : ex::fcmp(Op::FLt, y, x);
  return X(ex::ite(ex::fun(Op::FIsNan, x), y, ex::ite(ex::fun(Op::FIsNan, y), x, ex::ite(c, y, x))));
}
BI(in_minnum) { out[0] = fminmax(a[0], a[1], I->w, false); } BI(in_maxnum) { out[0] = fminmax(a[0], a[1], I->w, true); }
BI(in_copysign) { unsigned w = I->w; Expr *x = asBV(a[0], w), *y = asBV(a[1], w); Expr* s = ex::bv(1ull << (w - 1), w), *ns = ex::bv(~(1ull << (w - 1)), w); out[0] = X(ex::bv2f(ex::bin(Op::Or, ex::bin(Op::And, x, ns), ex::bin(Op::And, y, s)))); }
BI(in_fmuladd) { out[0] = X(ex::fbin(Op::FAdd, ex::fbin(Op::FMul, asFP(a[0], I->w), asFP(a[1], I->w)), asFP(a[2], I->w))); }
static Val minmax(const Val& a, const Val& b, unsigned w, Op lt, bool mx) { Expr *x = asBV(a, w), *y = asBV(b, w); Expr* c = ex::cmp(lt, x, y); return X(mx ? ex::ite(c, y, x) : ex::ite(c, x, y)); }
BI(in_smin) { out[0] = minmax(a[0], a[1], I->w, Op::SLt, false); } BI(in_smax) { out[0] = minmax(a[0], a[1], I->w, Op::SLt, true); } BI(in_umin) { out[0] = minmax(a[0], a[1], I->w, Op::ULt, false); } BI(in_umax) { out[0] = minmax(a[0], a[1], I->w, Op::ULt, true); }
BI(in_abs) { Expr* x = asBV(a[0], I->w); out[0] = X(ex::ite(ex::cmp(Op::SLt, x, ex::bv(0, I->w)), ex::bin(Op::Sub, ex::bv(0, I->w), x), x)); }
BI(in_usubsat) { Expr *x = asBV(a[0], I->w), *y = asBV(a[1], I->w); out[0] = X(ex::ite(ex::cmp(Op::ULt, x, y), ex::bv(0, I->w), ex::bin(Op::Sub, x, y))); }
BI(in_uaddsat) { Expr *x = asBV(a[0], I->w), *y = asBV(a[1], I->w); Expr* s = ex::bin(Op::Add, x, y); out[0] = X(ex::ite(ex::cmp(Op::ULt, s, x), ex::bv(ex::mask(I->w), I->w), s)); }
static void ovf(DInst* I, std::vector<Val>& a, Val* out, int op, bool sg) {
  unsigned w = I->w2; uint64_t x = cv(a[0]), y = cv(a[1]); // symbolic operands are concretized
  __int128 p = sg ? (__int128)(int64_t)(w >= 64 ? x : (uint64_t)((int64_t)(x << (64 - w)) >> (64 - w))) : (__int128)x, q = sg ? (__int128)(int64_t)(w >= 64 ? y : (uint64_t)((int64_t)(y << (64 - w)) >> (64 - w))) : (__int128)y;
  __int128 r = op == 0 ? p + q : op == 1 ? p - q : p * q; uint64_t t = (uint64_t)r & mk(w);
  __int128 back = sg ? (__int128)(int64_t)(w >= 64 ? t : (uint64_t)((int64_t)(t << (64 - w)) >> (64 - w))) : (__int128)t;
  if (!sg && op == 2) { unsigned __int128 rr = (unsigned __int128)x * y; out[0] = C((uint64_t)rr & mk(w)); out[1] = C((rr >> w) != 0); return; }
  out[0] = C(t); out[1] = C(back != r);
}
BI(in_saddo) { ovf(I, a, out, 0, true); } BI(in_uaddo) { ovf(I, a, out, 0, false); } BI(in_ssubo) { ovf(I, a, out, 1, true); } BI(in_usubo) { ovf(I, a, out, 1, false); } BI(in_smulo) { ovf(I, a, out, 2, true); } BI(in_umulo) { ovf(I, a, out, 2, false); }
BI(in_ctpop) { out[0] = C(__builtin_popcountll(cv(a[0]))); } BI(in_ctlz) { uint64_t v = cv(a[0]); out[0] = C(v ? __builtin_clzll(v) - (64 - I->w) : I->w); } BI(in_cttz) { uint64_t v = cv(a[0]); out[0] = C(v ? __builtin_ctzll(v) : I->w); }
BI(in_bswap) { uint64_t v = cv(a[0]); out[0] = C(__builtin_bswap64(v) >> (64 - I->w)); }
static void fsh(DInst* I, std::vector<Val>& a, Val* out, bool left) { unsigned w = I->w; uint64_t x = cv(a[0]), y = cv(a[1]), s = cv(a[2]) % w; if (!s) { out[0] = C(left ? x : y); return; } out[0] = C((left ? (x << s) | (y >> (w - s)) : (x << (w - s)) | (y >> s)) & mk(w)); }
BI(in_fshl) { fsh(I, a, out, true); } BI(in_fshr) { fsh(I, a, out, false); }
BI(in_objectsize) { out[0] = C(~0ull & mk(I->w)); }
BI(in_fpclass) {
  unsigned w = I->w2; Expr* x = asFP(a[0], w); uint64_t m = cv(a[1]); Expr* r = ex::bv(0, 1);
  Expr* b = ex::f2bv(x); Expr* sg = ex::extract(b, w - 1, 1); unsigned mb = w == 64 ? 52 : 23, eb = w == 64 ? 11 : 8; Expr* e = ex::extract(b, mb, eb); Expr* f = ex::extract(b, 0, mb);
  Expr *e1 = ex::cmp(Op::Eq, e, ex::bv(ex::mask(eb), eb)), *e0 = ex::cmp(Op::Eq, e, ex::bv(0, eb)), *f0 = ex::cmp(Op::Eq, f, ex::bv(0, mb)), *neg = ex::cmp(Op::Eq, sg, ex::bv(1, 1)), *pos = ex::not1(neg);
  Expr* inf = ex::and1(e1, f0), *nan = ex::and1(e1, ex::not1(f0)), *zer = ex::and1(e0, f0), *sub = ex::and1(e0, ex::not1(f0)), *nor = ex::and1(ex::not1(e0), ex::not1(e1));
  if (m & 3) r = ex::or1(r, nan); if (m & 4) r = ex::or1(r, ex::and1(neg, inf)); if (m & 8) r = ex::or1(r, ex::and1(neg, nor)); if (m & 16) r = ex::or1(r, ex::and1(neg, sub)); if (m & 32) r = ex::or1(r, ex::and1(neg, zer));
  if (m & 64) r = ex::or1(r, ex::and1(pos, zer)); if (m & 128) r = ex::or1(r, ex::and1(pos, sub)); if (m & 256) r = ex::or1(r, ex::and1(pos, nor)); if (m & 512) r = ex::or1(r, ex::and1(pos, inf));
  out[0] = X(r);
}
BI(bi_exit) { endPath(); }
BI(bi_lib_fmod) { out[0] = fbinop(Instruction::FRem, 64, a[0], a[1]); }
static void unsupportedCall(DInst* I, std::vector<Val>& a, Val* out) {
  Frame& f = T->st.back(); DFunc* fn = I->callee; std::string n = fn ? fn->pretty : "(indirect)"; (void)f; (void)a; (void)out;
  engineError("call of external function without model: " + n);
}
struct PfxB { const char* p; Builtin b; };
static PfxB prefixes[] = {
  {"llvm.memcpy.", bi_memcpy}, {"llvm.memmove.", bi_memcpy}, {"llvm.memset.", bi_memset}, {"llvm.lifetime.start", in_lifetime_start}, {"llvm.lifetime.end", in_lifetime_end},
  {"llvm.dbg.", bi_nop}, {"llvm.assume", bi_nop}, {"llvm.experimental.noalias", bi_nop}, {"llvm.expect.", bi_id}, {"llvm.launder.", bi_id}, {"llvm.strip.", bi_id}, {"llvm.invariant.", bi_zero}, {"llvm.prefetch", bi_nop}, {"llvm.donothing", bi_nop}, {"llvm.annotation", bi_id}, {"llvm.ptr.annotation", bi_id}, {"llvm.var.annotation", bi_nop}, {"llvm.threadlocal.address", bi_id}, {"llvm.ssa.copy", bi_id},
  {"llvm.fabs.", in_fabs}, {"llvm.floor.", in_floor}, {"llvm.ceil.", in_ceil}, {"llvm.trunc.", in_trunc}, {"llvm.sqrt.", in_sqrt}, {"llvm.minnum.", in_minnum}, {"llvm.maxnum.", in_maxnum}, {"llvm.copysign.", in_copysign}, {"llvm.fmuladd.", in_fmuladd},
  {"llvm.smin.", in_smin}, {"llvm.smax.", in_smax}, {"llvm.umin.", in_umin}, {"llvm.umax.", in_umax}, {"llvm.abs.", in_abs}, {"llvm.usub.sat.", in_usubsat}, {"llvm.uadd.sat.", in_uaddsat},
  {"llvm.sadd.with", in_saddo}, {"llvm.uadd.with", in_uaddo}, {"llvm.ssub.with", in_ssubo}, {"llvm.usub.with", in_usubo}, {"llvm.smul.with", in_smulo}, {"llvm.umul.with", in_umulo},
  {"llvm.ctpop.", in_ctpop}, {"llvm.ctlz.", in_ctlz}, {"llvm.cttz.", in_cttz}, {"llvm.bswap.", in_bswap}, {"llvm.fshl.", in_fshl}, {"llvm.fshr.", in_fshr}, {"llvm.eh.typeid.for", bi_typeid}, {"llvm.returnaddress", bi_zero}, {"llvm.frameaddress", bi_zero}, {"llvm.trap", bi_trap}, {"llvm.ubsantrap", bi_trap}, {"llvm.stacksave", bi_zero}, {"llvm.stackrestore", bi_nop}, {"llvm.is.constant", bi_zero}, {"llvm.objectsize", in_objectsize}, {"llvm.is.fpclass", in_fpclass},
};
static std::map<std::string, Builtin> mkBuiltins() {
  std::map<std::string, Builtin> m = {
    {"malloc", bi_malloc}, {"calloc", bi_calloc}, {"free", bi_free}, {"realloc", bi_realloc}, {"_Znwm", bi_new}, {"_Znam", bi_newa}, {"_ZnwmRKSt9nothrow_t", bi_new}, {"_ZnamRKSt9nothrow_t", bi_newa}, {"_ZdlPv", bi_delete}, {"_ZdlPvm", bi_delete}, {"_ZdaPv", bi_deletea}, {"_ZdaPvm", bi_deletea}, {"_ZnwmSt11align_val_t", bi_new}, {"_ZdlPvSt11align_val_t", bi_delete}, {"_ZdlPvmSt11align_val_t", bi_delete},
    {"memcpy", bi_memcpy}, {"memmove", bi_memcpy}, {"memset", bi_memset}, {"memcmp", bi_memcmp}, {"bcmp", bi_bcmp}, {"strlen", bi_strlen}, {"memchr", bi_memchr}, {"strcmp", bi_strcmp}, {"strncmp", bi_strncmp}, {"strcpy", bi_strcpy}, {"strdup", bi_strdup}, {"strchr", bi_strchr},
    {"__errno_location", bi_errno}, {"strtod", bi_strtod}, {"strtof", bi_strtof}, {"strtol", bi_strtol}, {"strtoll", bi_strtol}, {"__isoc23_strtol", bi_strtol}, {"strtoul", bi_strtoul}, {"strtoull", bi_strtoul}, {"isspace", bi_isspace},
    {"__cxa_allocate_exception", bi_cxa_alloc}, {"__cxa_free_exception", bi_cxa_freeexc}, {"__cxa_throw", bi_cxa_throw}, {"__cxa_begin_catch", bi_cxa_begin_catch}, {"__cxa_end_catch", bi_cxa_end_catch}, {"__cxa_rethrow", bi_cxa_rethrow}, {"__cxa_get_exception_ptr", bi_cxa_excptr}, {"_Unwind_Resume", bi_unwind_resume}, {"_ZSt9terminatev", bi_terminate}, {"__cxa_pure_virtual", bi_purevirtual}, {"abort", bi_abort}, {"__assert_fail", bi_assertfail}, {"_ZSt21__glibcxx_assert_failPKciS0_S0_", bi_glibcxx_assert}, {"__dynamic_cast", bi_dyncast}, {"__cxa_demangle", bi_demangle},
    {"__cxa_guard_acquire", bi_guard_acquire}, {"__cxa_guard_release", bi_guard_release}, {"__cxa_guard_abort", bi_nop}, {"__cxa_atexit", bi_zero}, {"atexit", bi_zero}, {"exit", bi_exit}, {"_exit", bi_exit},
    {"pthread_mutex_lock", bi_mutex_lock}, {"pthread_mutex_unlock", bi_mutex_unlock}, {"pthread_mutex_trylock", bi_mutex_trylock}, {"pthread_mutex_init", bi_zero}, {"pthread_mutex_destroy", bi_zero}, {"pthread_self", bi_co_self}, {"__pthread_key_create", bi_zero},
    {"vp_int", bi_vp_int}, {"vp_double", bi_vp_double}, {"vp_choice", bi_vp_choice}, {"vp_concretize", bi_vp_concretize}, {"vp_assume", bi_vp_assume}, {"vp_assert", bi_vp_assert}, {"vp_reach", bi_vp_reach}, {"vp_end", bi_vp_end}, {"vp_real_eq", bi_vp_real_eq}, {"vp_le", bi_vp_le}, {"vp_native", bi_vp_ok_native}, {"vp_log", bi_nop},
    {"vp_co_new", bi_co_new}, {"vp_co_resume", bi_co_resume}, {"vp_co_yield", bi_co_yield}, {"vp_co_self", bi_co_self}, {"vp_heap_ops", bi_heap_ops},
    {"printf", bi_zero}, {"fprintf", bi_zero}, {"puts", bi_zero}, {"putchar", bi_zero}, {"fflush", bi_zero}, {"fputs", bi_zero}, {"fwrite", bi_zero}, {"fabs", in_fabs}, {"floor", in_floor}, {"ceil", in_ceil}, {"sqrt", in_sqrt}, {"fmin", in_minnum}, {"fmax", in_maxnum}, {"fmod", bi_lib_fmod},
    {"__clang_call_terminate", bi_terminate},
  };
  return m;
}
static std::map<std::string, Builtin>& builtins() {
  static std::map<std::string, Builtin> m;
  if (m.empty()) { m = mkBuiltins(); for (auto& F : *M) { std::string n = F.getName().str(); for (auto& p : prefixes) if (n.compare(0, strlen(p.p), p.p) == 0) { m[n] = p.b; break; } } }
  return m;
}
