// External functions the interpreter provides itself: memory primitives, intrinsics and the sx_* harness interface.
#include "interp.h"
#include <llvm/IR/Function.h>
#include <llvm/IR/Intrinsics.h>
using std::string; using std::vector;
typedef bool (*BFn)(State&, KInst&, Frame&);
#define B(name) static bool name(State& S, KInst& I, Frame& f)
#define A(i) argv_(f, I, i)
#define AC(i) concretize(S, A(i), 64)
static inline void ret(KInst& I, Frame& f, Val v) { if (I.dst >= 0) f.r[I.dst] = v; }
static string cstr(State& S, uint64_t a) { string s; while (a) { Val v = loadConc(S, a++, 8); uint8_t c = v.e ? (uint8_t)evalExpr(v.e, S.model) : v.c; if (!c || s.size() > 400) break; s += (char)c; } return s; }
static bool callRuntime(State& S, const char* fn, vector<Val> args = {}) { auto it = E.fname.find(fn); if (it == E.fname.end() || !it->second->hasBody) inconclusive(string("runtime function missing: ") + fn); vector<uint32_t> an(args.size(), 1); pushCall(S, it->second, args, an); return false; }
static void ensureLen(State& S, Val n, uint64_t a, bool write, const char* what) { // symbolic length: must fit the object at a
	if (!n.e) return; uint64_t id = a >> OBJ_SHIFT; Obj* o = S.mem.get(id); uint64_t room = 0; if (o) { uint64_t off = (a & OFF_MASK) - OBJ_OFF; room = off <= o->size ? o->size - off : 0; }
	if (!decide(S, mkBin(O_ULE, n.e, mkConst(room, 64)))) violation(S, "memory", string(what) + " longer than the object it addresses");
}
B(b_memcpy) { uint64_t d = AC(0), s = AC(1); Val n = A(2); ensureLen(S, n, d, true, "copy"); ensureLen(S, n, s, false, "copy"); uint64_t len = concretize(S, n, 64); if (len) copyMem(S, d, s, len); ret(I, f, cv(d)); return true; }
B(b_memset) { uint64_t d = AC(0); Val n = A(2); ensureLen(S, n, d, true, "memset"); uint64_t len = concretize(S, n, 64); Val v = A(1); if (len) { checkRange(S, d, len, true); if (opt.races && S.th.size() > 1) noteAccess(S, d >> OBJ_SHIFT, (d & OFF_MASK) - OBJ_OFF, len, true); Obj* o = S.mem.writable(d >> OBJ_SHIFT); uint64_t off = (d & OFF_MASK) - OBJ_OFF; if (!v.e) { memset(o->d + off, (int)v.c, len); if (o->s) memset(o->s + off, 0, len * sizeof(Expr*)); } else for (uint64_t i = 0; i < len; i++) storeMem(S, cv(d + i), fromE(mkExtract(v.e, 0, 8)), 8); } ret(I, f, cv(d)); return true; }
static Val cmpMem(State& S, uint64_t a, uint64_t b, uint64_t n, bool eqOnly) {
	if (!n) return cv(0); Obj* oa = checkRange(S, a, n, false); Obj* ob = checkRange(S, b, n, false); uint64_t fa = (a & OFF_MASK) - OBJ_OFF, fb = (b & OFF_MASK) - OBJ_OFF;
	if (opt.races && S.th.size() > 1) { noteAccess(S, a >> OBJ_SHIFT, fa, n, false); noteAccess(S, b >> OBJ_SHIFT, fb, n, false); oa = S.mem.get(a >> OBJ_SHIFT); ob = S.mem.get(b >> OBJ_SHIFT); }
	uint64_t lim = n; // stop at the first certain difference
	for (uint64_t i = 0; i < n; i++) { Expr *x = byteAt(oa, fa + i), *y = byteAt(ob, fb + i); if (x->isConst() && y->isConst() && x->c != y->c) { lim = i + 1; break; } }
	if (eqOnly) { Expr* e = mkTrue(); for (uint64_t i = 0; i < lim; i++) e = mkAnd1(e, mkEq(byteAt(oa, fa + i), byteAt(ob, fb + i))); return fromE(mkIte(e, mkConst(0, 32), mkConst(1, 32))); }
	Expr* r = mkConst(0, 32); for (uint64_t i = lim; i-- > 0;) { Expr *x = byteAt(oa, fa + i), *y = byteAt(ob, fb + i); r = mkIte(mkEq(x, y), r, mkIte(mkBin(O_ULT, x, y), mkConst(0xffffffff, 32), mkConst(1, 32))); } return fromE(r);
}
B(b_memcmp) { uint64_t a = AC(0), b = AC(1), n = AC(2); ret(I, f, cmpMem(S, a, b, n, false)); return true; }
B(b_bcmp) { uint64_t a = AC(0), b = AC(1), n = AC(2); ret(I, f, cmpMem(S, a, b, n, true)); return true; }
B(b_memchr) {
	uint64_t a = AC(0); Val c = A(1); uint64_t n = AC(2); if (!n) { ret(I, f, cv(0)); return true; } Obj* o = checkRange(S, a, n, false); uint64_t off = (a & OFF_MASK) - OBJ_OFF; Expr* ce = mkExtract(toE(c, 32), 0, 8);
	bool conc = true; for (uint64_t i = 0; i < n && conc; i++) if (o->s && o->s[off + i]) conc = false;
	if (conc && !ce->isConst()) { Expr* r = mkConst(0, 64); for (uint64_t i = n; i-- > 0;) r = mkIte(mkEq(ce, mkConst(o->d[off + i], 8)), mkConst(a + i, 64), r); ret(I, f, fromE(r)); return true; }
	for (uint64_t i = 0; i < n; i++) if (decide(S, mkEq(byteAt(o, off + i), ce))) { ret(I, f, cv(a + i)); return true; }
	ret(I, f, cv(0)); return true;
}
B(b_strlen) { uint64_t a = AC(0), i = 0; for (;; i++) { Val v = loadConc(S, a + i, 8); if (!v.e) { if (!v.c) break; } else if (decide(S, mkEq(v.e, mkConst(0, 8)))) break; } ret(I, f, cv(i)); return true; }
static bool allocate(State& S, KInst& I, Frame& f, Val n, ObjKind k) {
	if (n.e && !decide(S, mkBin(O_ULE, n.e, mkConst(opt.mallocLimit, 64)))) { if (k == OK_MALLOC) { ret(I, f, cv(0)); return true; } return callRuntime(S, "sx_throw_bad_alloc"); }
	uint64_t sz = concretize(S, n, 64); if (sz > opt.maxAlloc) { if (k == OK_MALLOC) { ret(I, f, cv(0)); return true; } return callRuntime(S, "sx_throw_bad_alloc"); }
	ret(I, f, cv(objAddr(S.mem.alloc(sz, k, nullptr)))); return true;
}
B(b_malloc) { return allocate(S, I, f, A(0), OK_MALLOC); }
B(b_new) { return allocate(S, I, f, A(0), OK_NEW); }
B(b_newarr) { return allocate(S, I, f, A(0), OK_NEWARR); }
static void release(State& S, uint64_t p, int k1) {
	if (!p) return; Obj* o = p < FUNC_BASE ? S.mem.get(p >> OBJ_SHIFT) : nullptr; if (!o || (p & OFF_MASK) != OBJ_OFF || o->kind < OK_MALLOC || o->kind > OK_NEWARR) violation(S, "memory", o ? "invalid free (not the start of a heap block)" : "double free or free of an invalid pointer");
	if (o->kind != k1) violation(S, "memory", "allocation and deallocation functions do not match");
	if (opt.races && S.th.size() > 1) noteAccess(S, p >> OBJ_SHIFT, 0, o->size, true);
	S.mem.free(p >> OBJ_SHIFT);
}
B(b_free) { release(S, AC(0), OK_MALLOC); return true; }
B(b_delete) { release(S, AC(0), OK_NEW); return true; }
B(b_deletearr) { release(S, AC(0), OK_NEWARR); return true; }
// ---- sx interface ----
static std::unordered_map<string, Expr*> varByName;
static Expr* namedVar(const string& n, unsigned w) { auto& e = varByName[n]; if (!e) e = mkVar(w, n); return e; }
static bool hasVar(State& S, uint32_t v) { for (auto x : S.vars) if (x == v) return true; return false; }
B(sx_sym) {
	uint64_t p = AC(0), n = AC(1); string nm = cstr(S, AC(2)); int k = S.symcount[nm]++; if (k) nm += "#" + std::to_string(k);
	for (uint64_t i = 0; i < n; i++) { Expr* e = namedVar(nm + "." + std::to_string(i), 8); uint32_t v = (uint32_t)e->c; if (!hasVar(S, v)) S.vars.push_back(v); storeMem(S, cv(p + i), Val{0, e}, 8); }
	return true;
}
static bool assumeC(State& S, Expr* c) { // adds c to the path, false when impossible
	if (c->isConst()) return c->c != 0; if (!evalExpr(c, S.model)) { SatR r = solve(S.pc, c, S.model); if (r == R_UNSAT) return false; if (r == R_UNK) inconclusive("solver gave up on an assumption"); }
	std::function<void(Expr*)> add = [&](Expr* e) { if (e->isConst()) return; if (e->op == O_AND) { add(e->k[0]); add(e->k[1]); } else S.pc.push_back(e); }; add(c); return true;
}
static Expr* condOf(Val v, unsigned w) { return v.e ? mkNot(mkEq(v.e, mkConst(0, v.e->w))) : (v.c ? mkTrue() : mkFalse()); (void)w; }
B(sx_assume) { if (!assumeC(S, condOf(A(0), 32))) throw PathEnd{1, "assume"}; return true; }
B(sx_assert) {
	Expr* c = condOf(A(0), 32); string msg = cstr(S, AC(1)); res.asserts++;
	if (c->isConst()) { if (!c->c) violation(S, "assert", msg); return true; }
	Expr* nc = mkNot(c); Model m = S.model; sstats.assertQueries++; SatR r = solve(S.pc, nc, m, true);
	if (r == R_UNSAT) { sstats.assertUnsat++; return true; }
	if (r == R_SAT) { recordViolation(S, "assert", msg, m); if (!assumeC(S, c)) throw PathEnd{2, msg}; return true; }
	res.inconcl++; res.inconclusive["solver gave up on assertion: " + msg]++; return true;
}
B(sx_fail) { violation(S, "assert", cstr(S, AC(0))); }
B(sx_abort) { violation(S, cstr(S, AC(0)), cstr(S, AC(1))); }
B(sx_inconclusive) { inconclusive(cstr(S, AC(0))); }
B(sx_observe) { uint64_t p = AC(0), n = AC(1); ObsEnt o; o.label = cstr(S, AC(2)); if (n) checkRange(S, p, n, false); for (uint64_t i = 0; i < n; i++) o.bytes.push_back(loadConc(S, p + i, 8)); S.obs.push_back(o); return true; }
B(sx_reach) { string l = cstr(S, AC(0)); for (auto& r : S.reached) if (r == l) return true; S.reached.push_back(l); if (!res.reached[l]++) { string w; for (uint32_t v : S.vars) { char b[32]; snprintf(b, 32, "=%llx ", (unsigned long long)S.model.get(v)); if (w.size() < 300) w += varName(v) + b; } res.reachWitness[l] = w; } return true; }
B(sx_exit) { throw PathEnd{0, "exit"}; }
B(sx_drop) { throw PathEnd{1, "drop"}; }
B(sx_concretize) { ret(I, f, cv(concretize(S, A(0), 64))); return true; }
B(sx_is_symbolic) { ret(I, f, cv(A(0).e != nullptr)); return true; }
B(sx_fix) { Val v = A(0); if (v.e) { uint64_t x = (uint64_t)evalExpr(v.e, S.model); assumeC(S, mkEq(v.e, mkConst(x, v.e->w))); v = cv(x); } ret(I, f, v); return true; } // under-approximating: declares a single representative
B(sx_step_limit) { S.stepBase = S.steps; S.stepMax = AC(0); return true; }
B(sx_print) { if (opt.verbose) { string s = cstr(S, AC(0)); Val v = A(1); fprintf(stderr, "[print] %s %s\n", s.c_str(), v.e ? exprStr(v.e, getenv("SX_DEPTH") ? atoi(getenv("SX_DEPTH")) : 6).c_str() : std::to_string((long long)v.c).c_str()); } return true; }
B(sx_print_mem) { if (opt.verbose) { string s = cstr(S, AC(0)); uint64_t p = AC(1), n = AC(2); string o; for (uint64_t i = 0; i < n; i++) { Val v = loadConc(S, p + i, 8); if (v.e) { o += "<"; o += exprStr(v.e, 2); o += ">"; } else o += (char)v.c; } fprintf(stderr, "[mem] %s: %s\n", s.c_str(), o.c_str()); } return true; }
B(sx_live_heap) { uint64_t n = 0; for (auto nd : S.mem.root) if (nd) for (auto c : nd->c) if (c) for (auto o : c->o) if (o && o->kind >= OK_MALLOC && o->kind <= OK_NEWARR) n++; ret(I, f, cv(n)); return true; }
B(sx_next_id) { ret(I, f, cv(S.mem.nextId)); return true; }
B(sx_obj_size) { uint64_t p = AC(0); Obj* o = S.mem.get(p >> OBJ_SHIFT); ret(I, f, cv(o ? o->size : 0)); return true; }
B(sx_unwind) { uint64_t o = AC(0), t = AC(1); unwindTo(S, o, t); return false; }
B(sx_typematch) { ret(I, f, cv(1)); return true; }
// ---- threads ----
B(sx_thread_new) {
	uint64_t fn = AC(0); Val arg = A(1); KFunc* k = funcAt(fn); if (!k) violation(S, "memory", "thread entry"); int t = S.th.size(); S.th.push_back(Thread());
	for (size_t i = 0; i < S.th.size(); i++) if (S.th[i].vc.size() <= i) S.th[i].vc.resize(i + 1, 1);
	S.th[t].vc = S.th[S.cur].vc; S.th[t].vc.resize(t + 1, 1); S.th[S.cur].vc[S.cur]++;
	int me = S.cur; S.cur = t; if (!k->builtinLooked) lookupBuiltin(k); pushCall(S, k, {arg}, {1}); S.cur = me; ret(I, f, cv(t)); return true;
}
B(sx_thread_self) { ret(I, f, cv(S.cur)); return true; }
B(sx_switch) { uint64_t t = AC(0); if (t >= S.th.size() || S.th[t].st.empty()) violation(S, "sched", "switch to dead thread"); if (I.x) inconclusive("sx_switch invoked"); f.pc++; S.cur = t; S.own(); return false; }
B(sx_hb_acquire) { hbAcquire(S, AC(0)); return true; }
B(sx_hb_release) { hbRelease(S, AC(0)); return true; }
B(sx_quiet) { S.th[S.cur].quiet += (int)AC(0); return true; }
// ---- intrinsics ----
static Val ovf(State& S, const string& op, bool sgn, Val a, Val b, unsigned w, Val& o) {
	Op k = op == "add" ? O_ADD : op == "sub" ? O_SUB : O_MUL; if (w > 64) inconclusive("wide overflow intrinsic");
	Expr *x = toE(a, w), *y = toE(b, w);
	{ u128 lim = sgn ? (u128)1 << (w - 1) : (u128)1 << w, xm = x->umax, ym = y->umax; bool nn = !sgn || (xm < lim && ym < lim); if (nn && (k == O_ADD ? xm + ym < lim : k == O_MUL ? xm * ym < lim : sgn || x->umin >= ym)) { o = cv(0); return fromE(mkBin(k, x, y)); } } // the ranges exclude an overflow
	unsigned W = k == O_MUL ? 2 * w : w + 1; if (W > 128) W = 128; Expr *X = sgn ? mkSext(x, W) : mkZext(x, W), *Y = sgn ? mkSext(y, W) : mkZext(y, W); Expr* r = mkBin(k, X, Y); Expr* t = mkExtract(r, 0, w);
	o = fromE(mkNot(mkEq(sgn ? mkSext(t, W) : mkZext(t, W), r))); return fromE(mkBin(k, x, y));
}
static bool startsWith(const string& s, const char* p) { return s.compare(0, strlen(p), p) == 0; }
B(i_ovf) { const string& n = I.callee->name; Val o; Val r = ovf(S, n.substr(6, 3), n[5] == 's', A(0), A(1), argw(f, I, 0), o); f.r[I.dst] = r; f.r[I.dst + 1] = o; return true; }
B(i_minmax) { const string& n = I.callee->name; unsigned w = argw(f, I, 0); Expr *x = toE(A(0), w), *y = toE(A(1), w); Op c = n[5] == 's' ? O_SLT : O_ULT; bool mn = n.compare(6, 3, "min") == 0; Expr* lt = mkBin(c, x, y); f.r[I.dst] = fromE(mn ? mkIte(lt, x, y) : mkIte(lt, y, x)); return true; }
B(i_abs) { unsigned w = argw(f, I, 0); Expr* x = toE(A(0), w); f.r[I.dst] = fromE(mkIte(mkBin(O_SLT, x, mkConst(0, w)), mkBin(O_SUB, mkConst(0, w), x), x)); return true; }
B(i_bswap) { unsigned w = argw(f, I, 0); Expr* x = toE(A(0), w); Expr* r = mkExtract(x, 0, 8); for (unsigned i = 8; i < w; i += 8) r = mkConcat(r, mkExtract(x, i, 8)); f.r[I.dst] = fromE(r); return true; }
B(i_fsh) { unsigned w = argw(f, I, 0); Expr *a = toE(A(0), w), *b = toE(A(1), w), *c = mkBin(O_UREM, toE(A(2), w), mkConst(w, w)); bool l = I.callee->name.compare(5, 4, "fshl") == 0; Expr* d = mkBin(O_SUB, mkConst(w, w), c); Expr* r = l ? mkBin(O_OR, mkBin(O_SHL, a, c), mkBin(O_LSHR, b, d)) : mkBin(O_OR, mkBin(O_SHL, a, d), mkBin(O_LSHR, b, c)); Expr* z = mkEq(c, mkConst(0, w)); f.r[I.dst] = fromE(mkIte(z, l ? a : b, r)); return true; }
B(i_usat) { unsigned w = argw(f, I, 0); Expr *x = toE(A(0), w), *y = toE(A(1), w); if (I.callee->name.find("sub") != string::npos) f.r[I.dst] = fromE(mkIte(mkBin(O_ULT, x, y), mkConst(0, w), mkBin(O_SUB, x, y))); else { Expr* s = mkBin(O_ADD, x, y); f.r[I.dst] = fromE(mkIte(mkBin(O_ULT, s, x), mkConst(~(u128)0, w), s)); } return true; }
B(i_ctlz) { unsigned w = argw(f, I, 0); Expr* x = toE(A(0), w); bool lz = I.callee->name.find("ctlz") != string::npos; Expr* r = mkConst(w, w); if (lz) for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(x, i, 1), mkConst(w - 1 - i, w), r); else for (unsigned i = w; i-- > 0;) r = mkIte(mkExtract(x, i, 1), mkConst(i, w), r); f.r[I.dst] = fromE(r); return true; }
B(i_ctpop) { unsigned w = argw(f, I, 0); Expr* x = toE(A(0), w); Expr* r = mkConst(0, w); for (unsigned i = 0; i < w; i++) r = mkBin(O_ADD, r, mkZext(mkExtract(x, i, 1), w)); f.r[I.dst] = fromE(r); return true; }
B(i_ubsan) { static const char* n[] = {"add overflow", "builtin unreachable", "cfi", "divrem overflow", "dynamic type", "float cast", "function type", "implicit conversion", "invalid builtin", "objc", "load invalid value", "missing return", "mul overflow", "negate overflow", "nullability", "nullability", "nonnull", "nonnull", "out of bounds index", "pointer overflow", "shift out of bounds", "sub overflow"}; uint64_t k = A(0).c; violation(S, "ub", k < 22 ? n[k] : "undefined behaviour"); }
B(i_trap) { violation(S, "trap", "trap"); }
B(i_nop) { return true; }
B(i_first) { ret(I, f, A(0)); return true; }
B(i_zero) { for (unsigned i = 0; i < I.n; i++) f.r[I.dst + i] = cv(0); return true; }
B(i_ones) { ret(I, f, cv(~0ull)); return true; }
B(i_typeid) { ret(I, f, cv(typeIdFor(A(0).c))); return true; }
B(i_tls) { uint64_t g = A(0).c; auto& m = S.th[S.cur].tls; auto it = m.find(g); if (it == m.end()) { Obj* o = S.mem.get(g >> OBJ_SHIFT); uint64_t id = S.mem.alloc(o->size, OK_TLS, o->nm); memcpy(S.mem.writable(id)->d, o->d, o->size); it = m.insert({g, objAddr(id)}).first; } ret(I, f, cv(it->second)); return true; }
B(i_vastart) { uint64_t p = AC(0); storeMem(S, cv(p), cv(48), 32); storeMem(S, cv(p + 4), cv(176), 32); storeMem(S, cv(p + 8), cv(f.va), 64); storeMem(S, cv(p + 16), cv(0), 64); return true; }
B(i_vacopy) { uint64_t d = AC(0), s = AC(1); copyMem(S, d, s, 24); return true; }
B(b_snprintf_va) { // vsnprintf(buf, n, fmt, va_list*)
	uint64_t buf = AC(0), n = AC(1); string fmt = cstr(S, AC(2)); uint64_t va = AC(3); uint64_t ov = loadConc(S, va + 8, 64).c; string out; size_t ai = 0; auto next = [&]() { Val v = loadConc(S, ov + 8 * ai++, 64); return concretize(S, v, 64); };
	for (size_t i = 0; i < fmt.size(); i++) { if (fmt[i] != '%') { out += fmt[i]; continue; } if (fmt[i + 1] == '%') { out += '%'; i++; continue; } string sp = "%"; i++; string flags; while (i < fmt.size() && !isalpha((unsigned char)fmt[i])) { if (fmt[i] == '*') sp += std::to_string((int)next()); else sp += fmt[i]; i++; } bool l = false; while (i < fmt.size() && strchr("hlzjt", fmt[i])) { if (fmt[i] != 'h') l = true; i++; } char c = fmt[i]; char tmp[512];
		if (c == 's') { string s = cstr(S, next()); sp += "s"; snprintf(tmp, sizeof tmp, sp.c_str(), s.c_str()); } else if (strchr("fgeG", c)) { uint64_t u = next(); double d; memcpy(&d, &u, 8); sp += c; snprintf(tmp, sizeof tmp, sp.c_str(), d); } else { uint64_t u = next(); sp += l ? "ll" : ""; sp += c; if (l) snprintf(tmp, sizeof tmp, sp.c_str(), (long long)u); else snprintf(tmp, sizeof tmp, sp.c_str(), (int)u); } out += tmp; }
	if (n) { size_t k = std::min<size_t>(out.size(), n - 1); for (size_t i = 0; i < k; i++) storeMem(S, cv(buf + i), cv((uint8_t)out[i]), 8); storeMem(S, cv(buf + k), cv(0), 8); }
	ret(I, f, cv((uint32_t)out.size())); return true;
}
B(sx_strtod) { // double sx_strtod(const char* s, size_t* used): forks over the characters of the number
	uint64_t p = AC(0), up = AC(1); string t; for (size_t i = 0; i < 60; i++) { Val v = loadConc(S, p + i, 8); Expr* e = toE(v, 8); if (!e->isConst()) { Expr* c = mkFalse(); for (const char* q = "0123456789+-.eExXpPinfatyINFATY"; *q; q++) c = mkOr1(c, mkEq(e, mkConst((uint8_t)*q, 8))); if (!decide(S, c)) break; } uint8_t c = concretize(S, v, 8); if (!c) break; t += (char)c; }
	char* e; double d = strtod(t.c_str(), &e); storeMem(S, cv(up), cv(e - t.c_str()), 64); uint64_t u; memcpy(&u, &d, 8); ret(I, f, cv(u)); return true;
}
B(b_isconstant) { ret(I, f, cv(0)); return true; }
static const std::map<string, BFn>& table() {
	static std::map<string, BFn> m = {
		{"memcpy", b_memcpy}, {"memmove", b_memcpy}, {"memset", b_memset}, {"memcmp", b_memcmp}, {"bcmp", b_bcmp}, {"memchr", b_memchr}, {"strlen", b_strlen},
		{"malloc", b_malloc}, {"free", b_free}, {"_Znwm", b_new}, {"_Znam", b_newarr}, {"_ZdlPv", b_delete}, {"_ZdlPvm", b_delete}, {"_ZdaPv", b_deletearr}, {"_ZdaPvm", b_deletearr},
		{"sx_sym", sx_sym}, {"sx_assume", sx_assume}, {"sx_assert_", sx_assert}, {"sx_fail", sx_fail}, {"sx_abort", sx_abort}, {"sx_inconclusive", sx_inconclusive}, {"sx_observe", sx_observe}, {"sx_reach", sx_reach}, {"sx_exit", sx_exit}, {"sx_drop", sx_drop}, {"sx_concretize", sx_concretize}, {"sx_is_symbolic", sx_is_symbolic}, {"sx_fix", sx_fix}, {"sx_step_limit", sx_step_limit}, {"sx_print", sx_print}, {"sx_print_mem", sx_print_mem}, {"sx_live_heap", sx_live_heap}, {"sx_next_id", sx_next_id}, {"sx_obj_size", sx_obj_size}, {"sx_unwind", sx_unwind},
		{"sx_thread_new", sx_thread_new}, {"sx_thread_self", sx_thread_self}, {"sx_switch", sx_switch}, {"sx_hb_acquire", sx_hb_acquire}, {"sx_hb_release", sx_hb_release}, {"sx_quiet", sx_quiet}, {"sx_strtod", sx_strtod}, {"vsnprintf", b_snprintf_va},
	};
	return m;
}
void lookupBuiltin(KFunc* k) {
	k->builtinLooked = true; const string& n = k->name; auto it = table().find(n); if (it != table().end() && !k->hasBody) { k->builtin = it->second; return; }
	if (!startsWith(n, "llvm.")) return;
	string s = n.substr(5);
	if (startsWith(s, "memcpy") || startsWith(s, "memmove")) k->builtin = b_memcpy; else if (startsWith(s, "memset")) k->builtin = b_memset;
	else if (s.find(".with.overflow") != string::npos) k->builtin = i_ovf; else if (startsWith(s, "umin") || startsWith(s, "umax") || startsWith(s, "smin") || startsWith(s, "smax")) k->builtin = i_minmax;
	else if (startsWith(s, "abs.")) k->builtin = i_abs; else if (startsWith(s, "bswap")) k->builtin = i_bswap; else if (startsWith(s, "fsh")) k->builtin = i_fsh; else if (startsWith(s, "usub.sat") || startsWith(s, "uadd.sat")) k->builtin = i_usat; else if (startsWith(s, "ctlz") || startsWith(s, "cttz")) k->builtin = i_ctlz; else if (startsWith(s, "ctpop")) k->builtin = i_ctpop;
	else if (startsWith(s, "ubsantrap")) k->builtin = i_ubsan; else if (s == "trap" || s == "debugtrap") k->builtin = i_trap; else if (startsWith(s, "expect") || startsWith(s, "launder") || startsWith(s, "strip.invariant") || startsWith(s, "ptr.annotation")) k->builtin = i_first;
	else if (startsWith(s, "eh.typeid")) k->builtin = i_typeid; else if (startsWith(s, "threadlocal")) k->builtin = i_tls; else if (startsWith(s, "va_start")) k->builtin = i_vastart; else if (startsWith(s, "va_end") || startsWith(s, "donothing") || startsWith(s, "stackrestore") || startsWith(s, "invariant.end") || startsWith(s, "var.annotation")) k->builtin = i_nop; else if (startsWith(s, "va_copy")) k->builtin = i_vacopy;
	else if (startsWith(s, "is.constant") || startsWith(s, "stacksave")) k->builtin = i_zero; else if (startsWith(s, "objectsize")) k->builtin = i_ones;
	(void)b_isconstant; (void)sx_typematch;
}
