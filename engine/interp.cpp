#include "interp.h"
#include <llvm/IR/Instructions.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <chrono>
#include <cmath>
using std::string; using std::vector;
Options opt; Result res; vector<State*> pending; double deadline = 0;
double nowSec() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
string stackStr(State& S) {
	string r; auto& st = S.th[S.cur].st; int n = 0;
	for (int i = (int)st.size() - 1; i >= 0 && n < 14; i--, n++) { Frame* f = st[i]; uint32_t line = f->pc < f->f->code.size() ? f->f->code[f->pc].line : 0; string nm = demangle(f->f->name); if (nm.size() > 90) nm = nm.substr(0, 90) + "..."; if (n) r += " < "; r += nm; if (line) r += ":" + std::to_string(line); }
	return r;
}
static vector<string> inputsOf(State& S, const Model& m) {
	vector<string> r; for (uint32_t v : S.vars) { char b[64]; snprintf(b, sizeof b, " %llx", (unsigned long long)m.get(v)); r.push_back(varName(v) + b); } return r;
}
void recordViolation(State& S, const string& kind, const string& msg, const Model& m) {
	string where = stackStr(S); string key = kind + "|" + msg + "|" + where.substr(0, 200); int& n = res.violKeys[key]; res.viol++; if (n++ >= 2) return;
	Violation v; v.kind = kind; v.msg = msg; v.where = where; v.m = m; v.inputs = inputsOf(S, m); v.reached = S.reached; res.violations.push_back(v);
	if (opt.verbose) { fprintf(stderr, "VIOL %s: %s @ %s\n", kind.c_str(), msg.c_str(), where.c_str()); for (auto& s : v.inputs) fprintf(stderr, "   %s\n", s.c_str()); }
}
void violation(State& S, const string& kind, const string& msg, const Model* m) { recordViolation(S, kind, msg, m ? *m : S.model); throw PathEnd{2, kind}; }
void inconclusive(const string& why) { throw PathEnd{3, why}; }
State* forkState(State& S) {
	State* n = new State(S); n->own(); n->forks++; res.forks++; return n;
}
static void addPC(State& S, Expr* c) {
	if (c->isConst()) return;
	if (c->op == O_AND) { addPC(S, c->k[0]); addPC(S, c->k[1]); return; }
	S.pc.push_back(c);
}
static int known(State& S, Expr* c, Expr* nc) { for (size_t i = S.pc.size(); i-- > 0;) { if (S.pc[i] == c) return 1; if (S.pc[i] == nc) return 0; } return -1; }
bool decide(State& S, Expr* c) {
	if (c->isConst()) return c->c != 0;
	Expr* nc = mkNot(c); int k = known(S, c, nc); if (k >= 0) return k;
	bool b = evalExpr(c, S.model) != 0; Model m = S.model;
	SatR r = solve(S.pc, b ? nc : c, m);
	if (r == R_UNSAT) return b;
	if (r == R_UNK) { res.inconclusive["solver gave up on a branch"]++; res.inconcl++; addPC(S, b ? c : nc); return b; }
	if (opt.verbose) res.forkSites[stackStr(S)]++;
	State* n = forkState(S); addPC(*n, b ? nc : c); n->model = m; pending.push_back(n);
	addPC(S, b ? c : nc); return b;
}
uint64_t concretize(State& S, Val v, unsigned w) {
	if (!v.e) return v.c; if (v.e->isConst()) return (uint64_t)v.e->c;
	uint64_t x = (uint64_t)evalExpr(v.e, S.model);
	if (!decide(S, mkEq(v.e, mkConst(x, v.e->w)))) abort();
	return x;
}
Expr* byteAt(Obj* o, uint64_t i) { if (o->s && o->s[i]) return o->s[i]; return mkConst(o->d[i], 8); }
static string ptrDesc(State& S, uint64_t a, uint64_t n) {
	char b[160]; uint64_t id = a >> OBJ_SHIFT; int64_t off = (int64_t)(a & OFF_MASK) - (int64_t)OBJ_OFF; Obj* o = a < FUNC_BASE ? S.mem.get(id) : nullptr;
	static const char* kn[] = {"global", "stack", "malloc", "heap", "heap[]", "tls", "vararg"};
	if (a < OBJ_OFF) snprintf(b, sizeof b, "null dereference (address %llu, %llu bytes)", (unsigned long long)a, (unsigned long long)n);
	else if (o) snprintf(b, sizeof b, "out of bounds: offset %lld, %llu bytes, object size %u (%s %s)", (long long)off, (unsigned long long)n, o->size, kn[o->kind], o->nm ? o->nm : "");
	else if (id && id < S.mem.nextId) snprintf(b, sizeof b, "use of freed or dead object"); else snprintf(b, sizeof b, "wild pointer %llx", (unsigned long long)a);
	return b;
}
Obj* checkRange(State& S, uint64_t a, uint64_t n, bool write) {
	uint64_t id = a >> OBJ_SHIFT, off = (a & OFF_MASK) - OBJ_OFF; Obj* o = a < FUNC_BASE ? S.mem.get(id) : nullptr;
	if (!o || off > o->size || n > o->size - off) violation(S, "memory", ptrDesc(S, a, n));
	if (write && o->ro) violation(S, "memory", string("write to constant ") + (o->nm ? o->nm : ""));
	return o;
}
static inline Val joinBytes(Obj* o, uint64_t off, unsigned n) {
	bool any = false; if (o->s) for (unsigned i = 0; i < n; i++) if (o->s[off + i]) { any = true; break; }
	if (!any) { if (n <= 8) { uint64_t v = 0; memcpy(&v, o->d + off, n); return cv(v); } u128 v = 0; memcpy(&v, o->d + off, n > 16 ? 16 : n); return Val{0, mkConst(v, n * 8)}; }
	Expr* e = byteAt(o, off + n - 1); for (int i = n - 2; i >= 0; i--) e = mkConcat(e, byteAt(o, off + i)); return fromE(e);
}
static inline Val truncTo(Val v, unsigned bytes, unsigned w) { if (w == 80) { if (v.e) v = cv((uint64_t)(v.e->isConst() ? v.e->c : 0)); return v; } if (w == bytes * 8) return v; if (!v.e) return cv(v.c & (uint64_t)maskOf(w)); return fromE(mkExtract(v.e, 0, w)); }
Val loadConc(State& S, uint64_t a, unsigned w) { unsigned n = (w + 7) / 8; Obj* o = checkRange(S, a, n, false); return truncTo(joinBytes(o, (a & OFF_MASK) - OBJ_OFF, n), n, w); }
// candidate offsets of a symbolic address inside object o (n bytes access). forks until the address is inside one object.
static uint64_t pickObject(State& S, Expr* p, unsigned n, bool write) {
	uint64_t a = (uint64_t)evalExpr(p, S.model); Obj* o = checkRange(S, a, n, write); uint64_t base = (a & ~OFF_MASK) + OBJ_OFF;
	Expr* off = mkBin(O_SUB, p, mkConst(base, 64)); if (!decide(S, mkBin(O_ULE, off, mkConst(o->size - n, 64)))) abort();
	return a >> OBJ_SHIFT;
}
static Expr* mux(Obj* o, Expr* off, uint64_t lo, uint64_t hi, uint64_t step, unsigned n) { // lo..hi inclusive, values lo + k*step
	if (lo >= hi) { Val v = joinBytes(o, lo, n); return toE(v, n * 8); }
	uint64_t cnt = (hi - lo) / step + 1; uint64_t mid = lo + (cnt / 2) * step;
	Expr* l = mux(o, off, lo, mid - step, step, n); Expr* h = mux(o, off, mid, lo + (cnt - 1) * step, step, n); if (l == h) return l;
	return mkIte(mkBin(O_ULT, off, mkConst(mid, 64)), l, h);
}
static void offRange(State& S, Expr* off, uint64_t maxoff, uint64_t& lo, uint64_t& hi, uint64_t& step) {
	lo = off->umin; hi = std::min(off->umax, maxoff); unsigned z = lowZeros(off); step = z >= 12 ? 4096 : 1ull << z; lo = (lo + step - 1) / step * step; hi = hi / step * step;
	// tighten using the path condition on the same expression
	for (auto c : S.pc) if (c->op == O_ULE && c->k[0] == off && c->k[1]->isConst()) hi = std::min(hi, (uint64_t)c->k[1]->c / step * step); else if (c->op == O_ULT && c->k[0] == off && c->k[1]->isConst() && c->k[1]->c) hi = std::min(hi, (uint64_t)(c->k[1]->c - 1) / step * step);
}
Val loadMem(State& S, Val ptr, unsigned w) {
	unsigned n = (w + 7) / 8;
	if (!ptr.e) { uint64_t a = ptr.c; Obj* o = checkRange(S, a, n, false); if (opt.races && S.th.size() > 1) noteAccess(S, a >> OBJ_SHIFT, (a & OFF_MASK) - OBJ_OFF, n, false); return truncTo(joinBytes(o, (a & OFF_MASK) - OBJ_OFF, n), n, w); }
	uint64_t id = pickObject(S, ptr.e, n, false); Obj* o = S.mem.get(id); Expr* off = mkBin(O_SUB, ptr.e, mkConst(objAddr(id), 64));
	if (off->isConst()) return loadConc(S, objAddr(id) + (uint64_t)off->c, w);
	uint64_t lo, hi, step; offRange(S, off, o->size - n, lo, hi, step);
	if ((hi - lo) / step > 600) { uint64_t x = concretize(S, Val{0, off}, 64); return loadConc(S, objAddr(id) + x, w); }
	if (opt.races && S.th.size() > 1) noteAccess(S, id, lo, hi - lo + n, false);
	return truncTo(fromE(mux(o, off, lo, hi, step, n)), n, w);
}
static void putByte(Obj* o, uint64_t i, Expr* e) {
	if (e->isConst()) { o->d[i] = (uint8_t)e->c; if (o->s) o->s[i] = nullptr; return; }
	if (!o->s) o->s = (Expr**)calloc(o->size + 1, sizeof(Expr*)); o->s[i] = e;
}
static void storeAt(Obj* o, uint64_t off, Val v, unsigned w) {
	unsigned n = (w + 7) / 8;
	if (w == 80) { memset(o->d + off, 0, 10); memcpy(o->d + off, &v.c, 8); if (o->s) memset(o->s + off, 0, 10 * sizeof(Expr*)); return; }
	if (!v.e) { memcpy(o->d + off, &v.c, n); if (o->s) for (unsigned i = 0; i < n; i++) o->s[off + i] = nullptr; return; }
	Expr* e = w == n * 8 ? v.e : mkZext(v.e, n * 8); for (unsigned i = 0; i < n; i++) putByte(o, off + i, mkExtract(e, i * 8, 8));
}
void storeMem(State& S, Val ptr, Val v, unsigned w) {
	unsigned n = (w + 7) / 8;
	if (!ptr.e) { uint64_t a = ptr.c; checkRange(S, a, n, true); if (opt.races && S.th.size() > 1) noteAccess(S, a >> OBJ_SHIFT, (a & OFF_MASK) - OBJ_OFF, n, true); storeAt(S.mem.writable(a >> OBJ_SHIFT), (a & OFF_MASK) - OBJ_OFF, v, w); return; }
	uint64_t id = pickObject(S, ptr.e, n, true); Obj* o = S.mem.get(id); Expr* off = mkBin(O_SUB, ptr.e, mkConst(objAddr(id), 64));
	uint64_t lo, hi, step; offRange(S, off, o->size - n, lo, hi, step);
	if ((hi - lo) / step > 256) { uint64_t x = concretize(S, Val{0, off}, 64); storeAt(S.mem.writable(id), x, v, w); return; }
	o = S.mem.writable(id); Expr* e = toE(v, w); if (w != n * 8) e = mkZext(e, n * 8);
	if (opt.races && S.th.size() > 1) noteAccess(S, id, lo, hi - lo + n, true);
	for (uint64_t p = lo; p <= hi; p += step) { Expr* c = mkEq(off, mkConst(p, 64)); for (unsigned i = 0; i < n; i++) putByte(o, p + i, mkIte(c, mkExtract(e, i * 8, 8), byteAt(o, p + i))); }
}
void copyMem(State& S, uint64_t dst, uint64_t src, uint64_t n) {
	if (!n) return; Obj* so = checkRange(S, src, n, false); checkRange(S, dst, n, true);
	uint64_t sid = src >> OBJ_SHIFT, did = dst >> OBJ_SHIFT, soff = (src & OFF_MASK) - OBJ_OFF, doff = (dst & OFF_MASK) - OBJ_OFF;
	if (opt.races && S.th.size() > 1) { noteAccess(S, sid, soff, n, false); noteAccess(S, did, doff, n, true); }
	Obj* d = S.mem.writable(did); so = S.mem.get(sid); memmove(d->d + doff, so->d + soff, n);
	if (so->s || d->s) { if (!d->s) { bool any = false; for (uint64_t i = 0; i < n && !any; i++) any = so->s[soff + i] != nullptr; if (!any) return; d->s = (Expr**)calloc(d->size + 1, sizeof(Expr*)); if (d == so) so = d; } if (so->s) memmove(d->s + doff, so->s + soff, n * sizeof(Expr*)); else memset(d->s + doff, 0, n * sizeof(Expr*)); }
}
void hbAcquire(State& S, uint64_t a) { auto it = S.hb.find(a); auto& vc = S.th[S.cur].vc; if (it != S.hb.end()) { auto& o = it->second; if (vc.size() < o.size()) vc.resize(o.size(), 0); for (size_t i = 0; i < o.size(); i++) vc[i] = std::max(vc[i], o[i]); } }
void hbRelease(State& S, uint64_t a) { auto& vc = S.th[S.cur].vc; if (vc.size() <= (size_t)S.cur) vc.resize(S.cur + 1, 1); auto& o = S.hb[a]; if (o.size() < vc.size()) o.resize(vc.size(), 0); for (size_t i = 0; i < vc.size(); i++) o[i] = std::max(o[i], vc[i]); vc[S.cur]++; }
// ---- happens-before race detection (only with several threads) ----
void noteAccess(State& S, uint64_t id, uint32_t off, uint32_t n, bool write) {
	if (S.th[S.cur].quiet) return; Obj* o = S.mem.get(id); if (!o || o->ro || !n) return; uint32_t t = S.cur; auto& vc = S.th[t].vc; if (vc.size() <= t) vc.resize(t + 1, 1);
	if (o->kind == OK_TLS) return;
	uint32_t lo = off, hi = off + n; uint32_t clk = vc[t];
	if (o->acc) for (auto& a : *o->acc) if (a.lo < hi && lo < a.hi && a.tid != t && (a.write || write)) {
		uint32_t seen = a.tid < vc.size() ? vc[a.tid] : 0; if (a.clk > seen) { string other = demangle(a.f->name) + ":" + std::to_string(a.line); violation(S, "race", string("data race: ") + (write ? "write" : "read") + " conflicts with " + (a.write ? "write" : "read") + " at " + other + " (" + string(o->nm ? o->nm : "") + "+" + std::to_string(lo) + ")"); }
	}
	o = S.mem.writable(id); if (!o->acc) o->acc = new vector<Acc>();
	for (size_t i = 0; i < o->acc->size();) { auto& a = (*o->acc)[i]; if (a.tid == t && a.lo >= lo && a.hi <= hi && (write || !a.write)) { a = o->acc->back(); o->acc->pop_back(); } else { if (a.tid == t && a.lo <= lo && a.hi >= hi && a.clk == clk && (a.write || !write)) return; i++; } }
	Frame& f = S.top(); o->acc->push_back(Acc{lo, hi, t, clk, write, f.f->code[f.pc].line, f.f});
}
// ---- scalar ops ----
static Val binop(State& S, KOp op, Val a, Val b, unsigned w) {
	if (!a.e && !b.e) {
		uint64_t M = (uint64_t)maskOf(w), x = a.c, y = b.c;
		switch (op) {
			case K_ADD: return cv((x + y) & M); case K_SUB: return cv((x - y) & M); case K_MUL: return cv((x * y) & M); case K_AND: return cv(x & y); case K_OR: return cv(x | y); case K_XOR: return cv(x ^ y);
			case K_UDIV: case K_SDIV: case K_UREM: case K_SREM: if (!y) violation(S, "ub", "division by zero"); return cv((uint64_t)foldBin((Op)(O_UDIV + (op - K_UDIV)), x, y, w));
			case K_SHL: return cv(y >= w ? 0 : (x << y) & M); case K_LSHR: return cv(y >= w ? 0 : x >> y); case K_ASHR: return cv((uint64_t)foldBin(O_ASHR, x, y, w)); default: abort();
		}
	}
	if (op >= K_UDIV && op <= K_SREM) { if (!decide(S, mkNot(mkEq(toE(b, w), mkConst(0, w))))) violation(S, "ub", "division by zero"); }
	static const Op m[] = {O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR};
	return fromE(mkBin(m[op], toE(a, w), toE(b, w)));
}
static Val icmp(unsigned pred, Val a, Val b, unsigned w) {
	using P = llvm::CmpInst::Predicate;
	if (!a.e && !b.e) { uint64_t x = a.c, y = b.c; int64_t sx = (int64_t)sextTo128(x, w), sy = (int64_t)sextTo128(y, w);
		switch (pred) { case P::ICMP_EQ: return cv(x == y); case P::ICMP_NE: return cv(x != y); case P::ICMP_UGT: return cv(x > y); case P::ICMP_UGE: return cv(x >= y); case P::ICMP_ULT: return cv(x < y); case P::ICMP_ULE: return cv(x <= y); case P::ICMP_SGT: return cv(sx > sy); case P::ICMP_SGE: return cv(sx >= sy); case P::ICMP_SLT: return cv(sx < sy); default: return cv(sx <= sy); } }
	Expr *x = toE(a, w), *y = toE(b, w); Expr* r;
	switch (pred) { case P::ICMP_EQ: r = mkEq(x, y); break; case P::ICMP_NE: r = mkNot(mkEq(x, y)); break; case P::ICMP_UGT: r = mkBin(O_ULT, y, x); break; case P::ICMP_UGE: r = mkBin(O_ULE, y, x); break; case P::ICMP_ULT: r = mkBin(O_ULT, x, y); break; case P::ICMP_ULE: r = mkBin(O_ULE, x, y); break;
		case P::ICMP_SGT: r = mkBin(O_SLT, y, x); break; case P::ICMP_SGE: r = mkBin(O_SLE, y, x); break; case P::ICMP_SLT: r = mkBin(O_SLT, x, y); break; default: r = mkBin(O_SLE, x, y); }
	return fromE(r);
}
static double asD(State& S, Val v, unsigned w) { if (v.e) { if (v.e->isConst()) v.c = (uint64_t)v.e->c; else inconclusive("symbolic floating point"); } if (w == 32) { float f; uint32_t u = v.c; memcpy(&f, &u, 4); return f; } double d; memcpy(&d, &v.c, 8); return d; }
static Val fromD(double d, unsigned w) { if (w == 32) { float f = d; uint32_t u; memcpy(&u, &f, 4); return cv(u); } uint64_t u; memcpy(&u, &d, 8); return cv(u); }
// ---- calls ----
void pushCall(State& S, KFunc* k, const vector<Val>& args, const vector<uint32_t>& argn) {
	if (!k->decoded) decode(k); k->executed = true; k->ncalls++;
	auto& st = S.th[S.cur].st; if (st.size() > 400) violation(S, "recursion", "call depth exceeds 400");
	Frame* nf = new Frame(); nf->f = k; nf->pc = 0; nf->r.assign(k->nslots, cv(0)); size_t ai = 0, i = 0;
	for (; i < k->nargs && i < argn.size(); i++) {
		uint32_t s = k->argSlots[i];
		if (k->argByval[i]) { uint64_t id = S.mem.alloc(k->argByval[i], OK_STACK, "byval"); nf->allocas.push_back(id); st.push_back(nf); copyMem(S, objAddr(id), concretize(S, args[ai], 64), k->argByval[i]); st.pop_back(); nf->r[s] = cv(objAddr(id)); ai += argn[i]; continue; }
		for (uint32_t j = 0; j < argn[i]; j++) nf->r[s + j] = args[ai++];
	}
	if (k->varargs) { // SysV va_list overflow area
		size_t rest = args.size() - ai; uint64_t id = S.mem.alloc(rest * 8 + 8, OK_STACK, "varargs"); nf->allocas.push_back(id); nf->va = objAddr(id); Obj* o = S.mem.writable(id); for (size_t j = 0; j < rest; j++) storeAt(o, j * 8, args[ai + j].e ? Val{0, args[ai + j].e->w < 64 ? mkZext(args[ai + j].e, 64) : args[ai + j].e} : args[ai + j], 64);
	}
	st.push_back(nf); if (st.size() > res.maxdepth) res.maxdepth = st.size();
}
static void popFrame(State& S) { auto& st = S.th[S.cur].st; Frame* f = st.back(); for (auto id : f->allocas) S.mem.free(id); st.pop_back(); if (--f->rc == 0) delete f; S.own(); }
static void takeEdge(Frame& f, int32_t ei) {
	Edge& e = f.f->edges[ei];
	if (e.nmv == 1) { auto& m = f.f->moves[e.mv]; f.r[m.first] = opv(f, m.second); }
	else if (e.nmv) { Val tmp[64]; vector<Val> big; Val* t = tmp; if (e.nmv > 64) { big.resize(e.nmv); t = big.data(); } for (uint32_t i = 0; i < e.nmv; i++) t[i] = opv(f, f.f->moves[e.mv + i].second); for (uint32_t i = 0; i < e.nmv; i++) f.r[f.f->moves[e.mv + i].first] = t[i]; }
	f.pc = e.pc;
}
// typeinfo matching: 0 no, 1 yes
static bool tiMatch(State& S, uint64_t thrown, uint64_t want, int depth = 0) {
	if (thrown == want) return true; if (depth > 8) return false;
	Obj* o = S.mem.get(thrown >> OBJ_SHIFT); Obj* w = S.mem.get(want >> OBJ_SHIFT); if (!o || !w) return false; if (o->nm && w->nm && !strcmp(o->nm, w->nm)) return true;
	uint64_t vt; memcpy(&vt, o->d, 8); Obj* vo = S.mem.get(vt >> OBJ_SHIFT); if (!vo || !vo->nm) return false;
	if (strstr(vo->nm, "__si_class_type_info")) { uint64_t b; memcpy(&b, o->d + 16, 8); return tiMatch(S, b, want, depth + 1); }
	if (strstr(vo->nm, "__vmi_class_type_info")) { uint32_t n; memcpy(&n, o->d + 20, 4); for (uint32_t i = 0; i < n && 24 + i * 16 + 8 <= o->size; i++) { uint64_t b; memcpy(&b, o->d + 24 + i * 16, 8); if (tiMatch(S, b, want, depth + 1)) return true; } }
	return false;
}
static int lpadSel(State& S, LPad& lp, uint64_t ti, bool& match) { match = false; for (auto& c : lp.cl) { if (c.any) { match = true; return typeIdFor(0); } if (c.isCatch && tiMatch(S, ti, c.ti)) { match = true; return typeIdFor(c.ti); } } return 0; }
static KInst* lpadOf(Frame* f, KInst& call) { Edge& e = f->f->edges[call.unw]; for (uint32_t pc = e.pc; pc < f->f->code.size(); pc++) { if (f->f->code[pc].op == K_LPAD) return &f->f->code[pc]; if (f->f->code[pc].op != K_NOP) return nullptr; } return nullptr; }
// unwinds from the current frame (whose current instruction is the raising call); first = skip the search phase
bool unwindTo(State& S, uint64_t obj, uint64_t ti) {
	bool found = false; auto& st = S.th[S.cur].st;
	{ bool f2 = false; for (auto& p : S.exc) if (p.first == obj) { p.second = ti; f2 = true; } if (!f2) S.exc.push_back({obj, ti}); }
	for (int i = (int)st.size() - 1; i >= 0 && !found; i--) { Frame* f = st[i]; KInst& I = f->f->code[f->pc]; if (I.op == K_CALL && I.x) { KInst* lp = lpadOf(f, I); if (lp) { bool m; lpadSel(S, f->f->lpads[lp->x], ti, m); if (m) found = true; } } }
	if (!found) { Obj* o = S.mem.get(ti >> OBJ_SHIFT); violation(S, "terminate", "uncaught exception of type " + (o && o->nm ? demangle(o->nm) : string("?"))); }
	while (true) {
		Frame& f = S.top(); KInst& I = f.f->code[f.pc];
		if (I.op == K_CALL && I.x) { KInst* lp = lpadOf(&f, I); if (lp) { LPad& L = f.f->lpads[lp->x]; bool m; int sel = lpadSel(S, L, ti, m); if (m || L.cleanup) { takeEdge(f, I.unw); while (f.f->code[f.pc].op == K_NOP) f.pc++; KInst& LI = f.f->code[f.pc]; f.r[LI.dst] = cv(obj); f.r[LI.dst + 1] = cv(m ? sel : 0); f.pc++; return true; } } }
		if (st.size() == 1) abort();
		popFrame(S);
	}
}
// ---- state merging at the return of designated functions ----
static bool mergeInto(State& A, State& B, size_t npc, uint64_t baseNext, Expr* condA, int dstN, int dstSlot, const vector<uint16_t>& slotw) {
	if (A.cur != B.cur || A.th.size() != B.th.size() || A.obs.size() != B.obs.size() || A.vars != B.vars || A.exc != B.exc || A.reached != B.reached || A.stepMax != B.stepMax || A.th[A.cur].tls != B.th[B.cur].tls) return false;
	for (size_t i = 0; i < A.obs.size(); i++) { auto &x = A.obs[i].bytes, &y = B.obs[i].bytes; if (A.obs[i].label != B.obs[i].label || x.size() != y.size()) return false; for (size_t j = 0; j < x.size(); j++) if (x[j].c != y[j].c || x[j].e != y[j].e) return false; }
	Frame &fa = A.top(), &fb = B.top(); if (fa.f != fb.f || fa.pc != fb.pc || fa.allocas != fb.allocas || A.th[A.cur].st.size() != B.th[B.cur].st.size()) return false;
	if (dstN < 0) { dstN = fa.f->nslots; dstSlot = 0; }
	for (int i = 0; i < dstN; i++) { Val &x = fa.r[dstSlot + i], &y = fb.r[dstSlot + i]; unsigned w = slotw[dstSlot + i]; if (x.e == y.e && x.c == y.c) continue; if (!w || w == 80 || (x.e && x.e->w != w) || (y.e && y.e->w != w)) return false; }
	// memory feasibility
	size_t nr = std::max(A.mem.root.size(), B.mem.root.size()); vector<uint64_t> diff;
	for (size_t r = 0; r < nr; r++) { Node* na = r < A.mem.root.size() ? A.mem.root[r] : nullptr; Node* nb = r < B.mem.root.size() ? B.mem.root[r] : nullptr; if (na == nb) continue;
		for (int ci = 0; ci < 64; ci++) { Chunk* ca = na ? na->c[ci] : nullptr; Chunk* cb = nb ? nb->c[ci] : nullptr; if (ca == cb) continue; for (int i = 0; i < 64; i++) { Obj* oa = ca ? ca->o[i] : nullptr; Obj* ob = cb ? cb->o[i] : nullptr; if (oa == ob) continue; uint64_t id = (r << 12) | (ci << 6) | i;
			if (!oa || !ob) return false; if (oa->size != ob->size || oa->kind != ob->kind) return false; diff.push_back(id); } } }
	for (auto id : diff) { Obj* ob = B.mem.get(id); Obj* oa0 = A.mem.get(id); bool same = memcmp(oa0->d, ob->d, ob->size) == 0 && !oa0->s && !ob->s; if (same) continue; Obj* oa = A.mem.writable(id); for (uint32_t i = 0; i < oa->size; i++) { Expr *x = byteAt(oa, i), *y = byteAt(ob, i); if (x != y) putByte(oa, i, mkIte(condA, x, y)); } }
	if (dstN < 0) { dstN = fa.f->nslots; dstSlot = 0; }
	for (int i = 0; i < dstN; i++) { Val &x = fa.r[dstSlot + i], &y = fb.r[dstSlot + i]; unsigned w = slotw[dstSlot + i]; if (x.e == y.e && x.c == y.c) continue; x = fromE(mkIte(condA, toE(x, w), toE(y, w))); }
	A.mem.nextId = std::max(A.mem.nextId, B.mem.nextId); A.steps = std::max(A.steps, B.steps); return true;
}
static void swapState(State& a, State& b) {
	a.mem.swap(b.mem); a.th.swap(b.th); std::swap(a.cur, b.cur); a.pc.swap(b.pc); std::swap(a.model, b.model); std::swap(a.steps, b.steps); std::swap(a.stepBase, b.stepBase); std::swap(a.stepMax, b.stepMax);
	a.obs.swap(b.obs); a.symcount.swap(b.symcount); a.vars.swap(b.vars); a.exc.swap(b.exc); a.hb.swap(b.hb); std::swap(a.forks, b.forks); std::swap(a.failing, b.failing); a.reached.swap(b.reached);
}
// the callee frame has been pushed: run every path until it returns, then fold the paths together; false = every path ended inside
static bool mergedCall(State& S0, KInst I) {
	State* S = new State(); swapState(S0, *S);
	size_t depth = S->th[S->cur].st.size() - 1; size_t npc = S->pc.size(); uint64_t baseNext = S->mem.nextId; vector<State*> saved; saved.swap(pending); vector<State*> done, wl; wl.push_back(S); bool lost = false;
	while (!wl.empty()) { State* t = wl.back(); wl.pop_back(); runState(t, depth); if (t->failing) { lost = true; delete t; } else done.push_back(t); for (auto p : pending) wl.push_back(p); pending.clear(); }
	pending.swap(saved);
	if (done.empty()) { S0.failing = true; return false; }
	State* acc = done[0]; vector<State*> leftovers;
	auto suffix = [&](State* t) { Expr* c = mkTrue(); for (size_t i = npc; i < t->pc.size(); i++) c = mkAnd1(c, t->pc[i]); return c; };
	if (done.size() > 1) {
		int dn = I.dst >= 0 ? (int)I.n : 0; Expr* any = suffix(acc); size_t merged = 1;
		for (size_t i = 1; i < done.size(); i++) { State* t = done[i]; Expr* c = suffix(t); if (mergeInto(*acc, *t, npc, baseNext, mkNot(c), dn, I.dst, acc->top().f->slotw)) { any = mkOr1(any, c); merged++; delete t; res.merges++; } else leftovers.push_back(t); }
		if (merged > 1) { acc->pc.resize(npc); if (lost || !leftovers.empty()) addPC(*acc, any); }
	}
	for (auto t : leftovers) pending.push_back(t);
	swapState(S0, *acc); delete acc; S0.own(); return true;
}
// both sides of a branch (S0 and other) are run to the join point and folded together; false = every path ended before it
static bool joinedBranch(State& S0, State* other, uint32_t joinPc) {
	State* S = new State(); swapState(S0, *S); size_t depth = S->th[S->cur].st.size(), npc = S->pc.size() - 1; vector<State*> saved; saved.swap(pending); vector<State*> done, rest, wl{other, S}; bool lost = false;
	// the common prefix of both path conditions
	{ size_t i = 0; while (i < S->pc.size() && i < other->pc.size() && S->pc[i] == other->pc[i]) i++; npc = i; }
	while (!wl.empty()) { State* t = wl.back(); wl.pop_back(); runState(t, depth, joinPc); if (t->failing) { lost = true; delete t; } else { auto& st = t->th[t->cur].st; if (st.size() == depth && st.back()->pc == joinPc) done.push_back(t); else { lost = true; rest.push_back(t); } } for (auto p : pending) wl.push_back(p); pending.clear(); }
	pending.swap(saved);
	if (done.empty()) { for (auto t : rest) pending.push_back(t); S0.failing = true; return false; }
	State* acc = done[0];
	auto suffix = [&](State* t) { Expr* c = mkTrue(); for (size_t i = npc; i < t->pc.size(); i++) c = mkAnd1(c, t->pc[i]); return c; };
	if (done.size() > 1) {
		Expr* any = suffix(acc); size_t merged = 1;
		for (size_t i = 1; i < done.size(); i++) { State* t = done[i]; Expr* c = suffix(t); acc->own(); if (mergeInto(*acc, *t, npc, 0, mkNot(c), -1, 0, acc->top().f->slotw)) { any = mkOr1(any, c); merged++; delete t; res.merges++; } else { lost = true; rest.push_back(t); } }
		if (merged > 1) { acc->pc.resize(npc); if (lost) addPC(*acc, any); }
	}
	for (auto t : rest) pending.push_back(t);
	swapState(S0, *acc); delete acc; S0.own(); return true;
}
static uint64_t stepTick = 0; bool yieldOnFork = false;
static void doRet(State& S, Frame& f, KInst& I) {
	Val rv[16]; unsigned n = I.n; if (n > 16) inconclusive("large aggregate return"); for (unsigned i = 0; i < n; i++) rv[i] = opvn(f, I.a, i);
	popFrame(S); auto& st = S.th[S.cur].st; (void)st; Frame& c = S.top(); KInst& CI = c.f->code[c.pc]; if (CI.dst >= 0) for (unsigned i = 0; i < n && i < CI.n; i++) c.r[CI.dst + i] = rv[i];
	if (CI.x) takeEdge(c, CI.next); else c.pc++;
}
void runState(State* S0, size_t stopDepth, uint32_t joinPc) {
	State* S = S0; S->own(); size_t pend0 = pending.size();
	try { while (true) {
		if (yieldOnFork && !stopDepth && pending.size() > pend0) return;
		auto& st = S->th[S->cur].st;
		if (stopDepth && st.size() <= stopDepth && (joinPc == ~0u || st.size() < stopDepth || st.back()->pc == joinPc)) return;
		Frame& f = *st.back(); KInst& I = f.f->code[f.pc]; S->steps++; res.steps++;
		if (S->steps > opt.maxSteps) inconclusive("step limit");
		if (S->stepMax && S->steps - S->stepBase > S->stepMax) violation(*S, "nontermination", "exceeded the step bound of the harness");
		if ((++stepTick & 0xfff) == 0 && nowSec() > deadline) inconclusive("time limit");
		switch (I.op) {
			case K_ADD: case K_SUB: case K_MUL: case K_UDIV: case K_SDIV: case K_UREM: case K_SREM: case K_AND: case K_OR: case K_XOR: case K_SHL: case K_LSHR: case K_ASHR:
				if (I.n == 1) f.r[I.dst] = binop(*S, I.op, opv(f, I.a), opv(f, I.b), I.w); else { Val t[64]; for (unsigned i = 0; i < I.n; i++) t[i] = binop(*S, I.op, opvn(f, I.a, i), opvn(f, I.b, i), I.w); for (unsigned i = 0; i < I.n; i++) f.r[I.dst + i] = t[i]; }
				f.pc++; break;
			case K_ICMP: for (unsigned i = 0; i < I.n; i++) f.r[I.dst + i] = icmp(I.pred, opvn(f, I.a, i), opvn(f, I.b, i), I.w2); f.pc++; break;
			case K_FBIN: { double a = asD(*S, opv(f, I.a), I.w), b = asD(*S, opv(f, I.b), I.w), r = I.pred == 0 ? a + b : I.pred == 1 ? a - b : I.pred == 2 ? a * b : I.pred == 3 ? a / b : fmod(a, b); f.r[I.dst] = fromD(r, I.w); f.pc++; break; }
			case K_FNEG: f.r[I.dst] = fromD(-asD(*S, opv(f, I.a), I.w), I.w); f.pc++; break;
			case K_FCMP: { double a = asD(*S, opv(f, I.a), I.w2), b = asD(*S, opv(f, I.b), I.w2); bool un = std::isnan(a) || std::isnan(b); unsigned p = I.pred; bool r = (p & 8) && un; if (!un) r = ((p & 1) && a == b) || ((p & 2) && a > b) || ((p & 4) && a < b); f.r[I.dst] = cv(r); f.pc++; break; }
			case K_SELECT: { Val c = opv(f, I.a); if (I.x) { for (unsigned i = 0; i < I.n; i++) { Val ci = opvn(f, I.a, i); f.r[I.dst + i] = ci.e ? fromE(mkIte(ci.e, toE(opvn(f, I.b, i), I.w), toE(opvn(f, I.c, i), I.w))) : ci.c ? opvn(f, I.b, i) : opvn(f, I.c, i); } f.pc++; break; }
				if (!c.e) { for (unsigned i = 0; i < I.n; i++) f.r[I.dst + i] = c.c ? opvn(f, I.b, i) : opvn(f, I.c, i); }
				else for (unsigned i = 0; i < I.n; i++) { unsigned w = f.f->slotw[I.dst + i]; Val x = opvn(f, I.b, i), y = opvn(f, I.c, i); f.r[I.dst + i] = fromE(mkIte(c.e, toE(x, w), toE(y, w))); }
				f.pc++; break; }
			case K_TRUNC: for (unsigned i = 0; i < I.n; i++) { Val a = opvn(f, I.a, i); f.r[I.dst + i] = a.e ? fromE(mkExtract(a.e, 0, I.w)) : cv(a.c & (uint64_t)maskOf(I.w)); } f.pc++; break;
			case K_ZEXT: for (unsigned i = 0; i < I.n; i++) { Val a = opvn(f, I.a, i); if (I.w > 64) f.r[I.dst + i] = Val{0, mkZext(toE(a, I.w2), I.w)}; else f.r[I.dst + i] = a.e ? fromE(mkZext(a.e, I.w)) : a; } f.pc++; break;
			case K_SEXT: for (unsigned i = 0; i < I.n; i++) { Val a = opvn(f, I.a, i); if (I.w > 64 || a.e) f.r[I.dst + i] = fromE(mkSext(toE(a, I.w2), I.w)); else f.r[I.dst + i] = cv((uint64_t)sextTo128(a.c, I.w2) & (uint64_t)maskOf(I.w)); } f.pc++; break;
			case K_COPY: { unsigned n = std::max(I.n, 1u); for (unsigned i = 0; i < n; i++) f.r[I.dst + i] = opvn(f, I.a, i); f.pc++; break; }
			case K_FPCONV: { Val a = opv(f, I.a);
				if (I.pred == 4) { f.r[I.dst] = fromD(asD(*S, a, I.w2), I.w); }
				else if (I.pred <= 1) { double d = asD(*S, a, I.w2); f.r[I.dst] = cv((I.pred ? (uint64_t)(d < 0 ? (uint64_t)(int64_t)d : (uint64_t)d) : (uint64_t)(int64_t)d) & (uint64_t)maskOf(I.w)); }
				else { uint64_t x = concretize(*S, a, I.w2); double d = I.pred == 2 ? (double)(int64_t)sextTo128(x, I.w2) : (double)x; f.r[I.dst] = fromD(d, I.w); }
				f.pc++; break; }
			case K_ALLOCA: { uint64_t cnt = concretize(*S, opv(f, I.a), 64); uint64_t id = S->mem.alloc(I.x * cnt, OK_STACK, nullptr); f.allocas.push_back(id); f.r[I.dst] = cv(objAddr(id)); f.pc++; break; }
			case K_LOAD: { Val p = opv(f, I.a); auto& L = *I.leaves; if (I.pred && opt.races && S->th.size() > 1) { Quiet q(*S); p = cv(concretize(*S, p, 64)); if (I.pred == 2) hbAcquire(*S, p.c); f.r[I.dst] = loadMem(*S, p, L[0].w); f.pc++; break; } if (L.size() == 1) f.r[I.dst] = loadMem(*S, p, L[0].w); else { if (p.e) p = cv(concretize(*S, p, 64)); for (size_t i = 0; i < L.size(); i++) f.r[I.dst + i] = loadMem(*S, cv(p.c + L[i].off), L[i].w); } f.pc++; break; }
			case K_STORE: { Val p = opv(f, I.a); auto& L = *I.leaves; if (I.pred && opt.races && S->th.size() > 1) { Quiet q(*S); p = cv(concretize(*S, p, 64)); if (I.pred == 2) hbRelease(*S, p.c); storeMem(*S, p, opv(f, I.b), L[0].w); f.pc++; break; } if (L.size() == 1) storeMem(*S, p, opv(f, I.b), L[0].w); else { if (p.e) p = cv(concretize(*S, p, 64)); for (size_t i = 0; i < L.size(); i++) storeMem(*S, cv(p.c + L[i].off), opvn(f, I.b, i), L[i].w); } f.pc++; break; }
			case K_GEP: { Val p = opv(f, I.a); uint64_t off = E.cpool[~I.b].c; Expr* so = nullptr;
				for (uint32_t i = 0; i < I.y; i++) { GepStep& g = f.f->geps[I.x + i]; Val v = opv(f, g.op); if (!v.e) off += g.scale * (uint64_t)sextTo128(v.c, g.w); else { Expr* e = mkBin(O_MUL, mkSext(v.e, 64), mkConst(g.scale, 64)); so = so ? mkBin(O_ADD, so, e) : e; } }
				if (!p.e && !so) f.r[I.dst] = cv(p.c + off); else { Expr* e = toE(p, 64); if (so) e = mkBin(O_ADD, e, so); f.r[I.dst] = fromE(mkBin(O_ADD, e, mkConst(off, 64))); }
				f.pc++; break; }
			case K_BR: takeEdge(f, I.next); break;
			case K_CONDBR: { Val c = opv(f, I.a); if (!c.e) { takeEdge(f, c.c ? I.next : I.unw); break; }
				size_t np = pending.size(); bool b = decide(*S, c.e); takeEdge(f, b ? I.next : I.unw);
				if (pending.size() > np && I.join >= 0 && (f.f->join || (I.joinSmall && opt.autoJoin)) && S->th.size() == 1) { State* o = pending.back(); pending.pop_back(); if (!joinedBranch(*S, o, I.join)) return; }
				break; }
			case K_SWITCH: { Val v = opv(f, I.a); auto& cs = f.f->switches[I.x];
				if (!v.e) { int32_t e = I.next; for (auto& c : cs) if (c.v == v.c) { e = c.edge; break; } takeEdge(f, e); break; }
				uint64_t x = (uint64_t)evalExpr(v.e, S->model); int32_t e = I.next; for (auto& c : cs) if (c.v == x) { e = c.edge; break; }
				Expr* cond = mkFalse(); for (auto& c : cs) if ((c.edge == e) != (e == I.next)) cond = mkOr1(cond, mkEq(v.e, mkConst(c.v, I.w)));
				if (e == I.next) { cond = mkFalse(); for (auto& c : cs) if (c.edge != e) cond = mkOr1(cond, mkEq(v.e, mkConst(c.v, I.w))); cond = mkNot(cond); }
				size_t np = pending.size(); if (!decide(*S, cond)) abort(); takeEdge(f, e); if (pending.size() > np && I.join >= 0 && f.f->join && S->th.size() == 1) { State* o = pending.back(); pending.pop_back(); if (!joinedBranch(*S, o, I.join)) return; } break; }
			case K_CALL: {
				KFunc* k = I.callee;
				if (!k) { uint64_t a = concretize(*S, opv(f, I.a), 64); k = funcAt(a); if (!k) violation(*S, "memory", "call through an invalid function pointer"); }
				if (!k->builtinLooked) lookupBuiltin(k);
				if (k->builtin) { if (k->builtin(*S, I, f)) { if (I.x) takeEdge(f, I.next); else f.pc++; } break; }
				if (!k->hasBody) inconclusive("call to external function " + demangle(k->name));
				vector<Val> args; vector<uint32_t> an; for (uint32_t i = 0; i < I.nops; i++) { int32_t r = f.f->opnds[I.ops + 2 * i]; uint32_t n = f.f->opnds[I.ops + 2 * i + 1] >> 16; for (uint32_t j = 0; j < n; j++) args.push_back(opvn(f, r, j)); an.push_back(n); }
				pushCall(*S, k, args, an);
				if (k->merge && !mergedCall(*S, I)) return;
				break; }
			case K_RET: if (st.size() == 1) throw PathEnd{0, "return"}; doRet(*S, f, I); break;
			case K_UNREACH: violation(*S, "ub", "unreachable code reached");
			case K_RESUME: { uint64_t obj = opv(f, I.a).c, ti = 0; for (auto& p : S->exc) if (p.first == obj) ti = p.second; popFrame(*S); unwindTo(*S, obj, ti); break; }
			case K_EXTRACTV: for (unsigned i = 0; i < I.n; i++) f.r[I.dst + i] = opvn(f, I.a, i); f.pc++; break;
			case K_INSERTV: for (unsigned i = 0; i < I.n; i++) f.r[I.dst + i] = (i >= I.x && i < I.x + I.y) ? opvn(f, I.b, i - I.x) : opvn(f, I.a, i); f.pc++; break;
			case K_RMW: { Val p = cv(concretize(*S, opv(f, I.a), 64)); Quiet q(*S); hbAcquire(*S, p.c); hbRelease(*S, p.c); Val o = loadMem(*S, p, I.w), v = opv(f, I.b), r; using R = llvm::AtomicRMWInst;
				switch (I.pred) { case R::Xchg: r = v; break; case R::Add: r = binop(*S, K_ADD, o, v, I.w); break; case R::Sub: r = binop(*S, K_SUB, o, v, I.w); break; case R::And: r = binop(*S, K_AND, o, v, I.w); break; case R::Or: r = binop(*S, K_OR, o, v, I.w); break; case R::Xor: r = binop(*S, K_XOR, o, v, I.w); break; default: inconclusive("atomicrmw"); }
				storeMem(*S, p, r, I.w); f.r[I.dst] = o; f.pc++; break; }
			case K_CMPXCHG: { Val p = cv(concretize(*S, opv(f, I.a), 64)); Quiet q(*S); hbAcquire(*S, p.c); hbRelease(*S, p.c); Val o = loadConc(*S, p.c, I.w); Val c = icmp(llvm::CmpInst::ICMP_EQ, o, opv(f, I.b), I.w); bool eq = c.e ? decide(*S, c.e) : c.c; if (eq) storeMem(*S, p, opv(f, I.c), I.w); f.r[I.dst] = o; f.r[I.dst + 1] = cv(eq); f.pc++; break; }
			case K_EXTELT: { uint64_t i = concretize(*S, opv(f, I.b), 64); f.r[I.dst] = i < I.x ? opvn(f, I.a, i) : cv(0); f.pc++; break; }
			case K_INSELT: { uint64_t i = concretize(*S, opv(f, I.c), 64); vector<Val> t; for (unsigned j = 0; j < I.n; j++) t.push_back(j == i ? opv(f, I.b) : opvn(f, I.a, j)); for (unsigned j = 0; j < I.n; j++) f.r[I.dst + j] = t[j]; f.pc++; break; }
			case K_SHUF: { vector<Val> t; for (unsigned j = 0; j < I.n; j++) { int m = f.f->opnds[I.ops + j]; t.push_back(m < 0 ? cv(0) : (unsigned)m < I.x ? opvn(f, I.a, m) : opvn(f, I.b, m - I.x)); } for (unsigned j = 0; j < I.n; j++) f.r[I.dst + j] = t[j]; f.pc++; break; }
			case K_NOP: f.pc++; break;
			default: inconclusive("unsupported instruction " + string(I.src->getOpcodeName()) + " in " + f.f->name);
		}
	} } catch (PathEnd& pe) { S->failing = true; finishPath(S, pe); }
}
static Val obsByte(State& S, const Val& v) { return v; }
void finishPath(State* S, const PathEnd& pe) {
	res.paths++; if (S->vars.size() > res.maxvars) res.maxvars = S->vars.size();
	if (pe.kind == 0) {
		res.normal++;
		uint64_t n = res.normal; bool take = (int)res.samples.size() < opt.samples && (n <= 6 || (n & (n - 1)) == 0 || n % 97 == 0);
		if (take) { vector<string> ob; for (auto& o : S->obs) { string h = o.label + " "; for (auto& b : o.bytes) { char t[4]; snprintf(t, 4, "%02x", b.e ? (unsigned)evalExpr(b.e, S->model) : (unsigned)b.c); h += t; } ob.push_back(h); } res.samples.push_back({inputsOf(*S, S->model), ob}); }
	} else if (pe.kind == 1) res.dropped++;
	else if (pe.kind == 3) { res.inconcl++; string w = pe.why; if (pe.why != "time limit") w += " @ " + stackStr(*S); if (w.size() > 400) w.resize(400); res.inconclusive[w]++; if (pe.why == "time limit") res.timedout = true; }
	(void)obsByte;
}
