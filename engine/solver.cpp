#include "solver.h"
#include <z3.h>
#include <chrono>
#include <cstdio>
#include <unistd.h>
#include <cstdlib>
#include <algorithm>
#include <cstring>
SolverStats sstats; unsigned z3Rlimit = 40000000;
static Z3_context ctx; static Z3_solver sol, sol2; static uint64_t solUses = 0, solUses2 = 0;
static void errh(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); }
static void initZ3() {
	Z3_config cfg = Z3_mk_config(); ctx = Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(ctx, errh);
}
static std::unordered_map<unsigned, Z3_sort> sorts;
static Z3_sort bvs(unsigned w) { auto& s = sorts[w]; if (!s) s = Z3_mk_bv_sort(ctx, w); return s; }
static Z3_ast toBool(Expr* e);
static Z3_ast toBV(Expr* e);
static Z3_ast keep(Z3_ast a) { Z3_inc_ref(ctx, a); return a; }
static Z3_ast constBV(u128 v, unsigned w) {
	if (w <= 64) return Z3_mk_unsigned_int64(ctx, (uint64_t)v, bvs(w));
	Z3_ast hi = Z3_mk_unsigned_int64(ctx, (uint64_t)(v >> 64), bvs(w - 64)), lo = Z3_mk_unsigned_int64(ctx, (uint64_t)v, bvs(64)); return Z3_mk_concat(ctx, hi, lo);
}
// iterative pre-order to avoid deep recursion
static void prep(Expr* root) {
	std::vector<Expr*> st{root};
	while (!st.empty()) { Expr* e = st.back(); bool ok = true; for (int i = 0; i < 3; i++) { Expr* k = e->k[i]; if (k && !k->zbv && !k->zbool && !k->isConst() && k->op != O_VAR) { st.push_back(k); ok = false; } } if (ok) { st.pop_back(); if (e->w == 1) toBool(e); else toBV(e); } }
}
static Z3_ast toBV(Expr* e) {
	if (e->zbv) return (Z3_ast)e->zbv;
	Z3_ast r; auto K = [&](int i) { return toBV(e->k[i]); };
	if (e->w == 1 && e->op != O_VAR && e->op != O_CONST) { r = Z3_mk_ite(ctx, toBool(e), constBV(1, 1), constBV(0, 1)); e->zbv = keep(r); return r; }
	switch (e->op) {
		case O_CONST: r = constBV(e->c, e->w); break;
		case O_VAR: r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, ("v" + std::to_string((unsigned)e->c)).c_str()), bvs(e->w)); break;
		case O_ADD: r = Z3_mk_bvadd(ctx, K(0), K(1)); break; case O_SUB: r = Z3_mk_bvsub(ctx, K(0), K(1)); break; case O_MUL: r = Z3_mk_bvmul(ctx, K(0), K(1)); break;
		case O_UDIV: r = Z3_mk_bvudiv(ctx, K(0), K(1)); break; case O_SDIV: r = Z3_mk_bvsdiv(ctx, K(0), K(1)); break; case O_UREM: r = Z3_mk_bvurem(ctx, K(0), K(1)); break; case O_SREM: r = Z3_mk_bvsrem(ctx, K(0), K(1)); break;
		case O_AND: r = Z3_mk_bvand(ctx, K(0), K(1)); break; case O_OR: r = Z3_mk_bvor(ctx, K(0), K(1)); break; case O_XOR: r = Z3_mk_bvxor(ctx, K(0), K(1)); break;
		case O_SHL: r = Z3_mk_bvshl(ctx, K(0), K(1)); break; case O_LSHR: r = Z3_mk_bvlshr(ctx, K(0), K(1)); break; case O_ASHR: r = Z3_mk_bvashr(ctx, K(0), K(1)); break;
		case O_ITE: r = Z3_mk_ite(ctx, toBool(e->k[0]), K(1), K(2)); break;
		case O_CONCAT: r = Z3_mk_concat(ctx, K(0), K(1)); break;
		case O_EXTRACT: r = Z3_mk_extract(ctx, e->lo + e->w - 1, e->lo, K(0)); break;
		case O_ZEXT: r = Z3_mk_zero_ext(ctx, e->w - e->k[0]->w, K(0)); break;
		case O_SEXT: r = Z3_mk_sign_ext(ctx, e->w - e->k[0]->w, K(0)); break;
		default: abort();
	}
	e->zbv = keep(r); return r;
}
static Z3_ast toBool(Expr* e) {
	if (e->zbool) return (Z3_ast)e->zbool;
	Z3_ast r; auto B = [&](int i) { return toBool(e->k[i]); }; auto K = [&](int i) { return toBV(e->k[i]); };
	switch (e->op) {
		case O_CONST: r = e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
		case O_EQ: r = e->k[0]->w == 1 ? Z3_mk_iff(ctx, B(0), B(1)) : Z3_mk_eq(ctx, K(0), K(1)); break;
		case O_ULT: r = Z3_mk_bvult(ctx, K(0), K(1)); break; case O_ULE: r = Z3_mk_bvule(ctx, K(0), K(1)); break; case O_SLT: r = Z3_mk_bvslt(ctx, K(0), K(1)); break; case O_SLE: r = Z3_mk_bvsle(ctx, K(0), K(1)); break;
		case O_AND: case O_MUL: { Z3_ast a[2] = {B(0), B(1)}; r = Z3_mk_and(ctx, 2, a); break; }
		case O_OR: { Z3_ast a[2] = {B(0), B(1)}; r = Z3_mk_or(ctx, 2, a); break; }
		case O_XOR: case O_ADD: case O_SUB: r = Z3_mk_xor(ctx, B(0), B(1)); break;
		case O_ITE: r = Z3_mk_ite(ctx, B(0), B(1), B(2)); break;
		default: { // extract / var / odd shifts
			Z3_ast bv;
			if (e->op == O_VAR) bv = toBV(e);
			else if (e->op == O_EXTRACT) bv = Z3_mk_extract(ctx, e->lo, e->lo, K(0));
			else { fprintf(stderr, "toBool: op %d\n", e->op); abort(); }
			r = Z3_mk_eq(ctx, bv, constBV(1, 1));
		}
	}
	e->zbool = keep(r); return r;
}
static Z3_tactic T(const char* n) { Z3_tactic t = Z3_mk_tactic(ctx, n); Z3_tactic_inc_ref(ctx, t); return t; }
static Z3_tactic then(Z3_tactic a, Z3_tactic b) { Z3_tactic t = Z3_tactic_and_then(ctx, a, b); Z3_tactic_inc_ref(ctx, t); return t; }
static Z3_solver mkSolver() {
	const char* m = getenv("SX_SOLVER"); int k = m ? atoi(m) : 2;
	if (k == 1) return Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
	if (k == 2) return Z3_mk_solver_from_tactic(ctx, then(T("simplify"), then(T("propagate-values"), then(T("solve-eqs"), then(T("simplify"), then(T("bit-blast"), T("sat")))))));
	if (k == 3) return Z3_mk_solver_from_tactic(ctx, then(T("simplify"), then(T("bit-blast"), T("sat"))));
	if (k == 4) return Z3_mk_solver_from_tactic(ctx, T("qfbv"));
	return Z3_mk_simple_solver(ctx);
}
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
struct K2 { uint64_t a, b; bool operator==(const K2& o) const { return a == o.a && b == o.b; } };
struct K2H { size_t operator()(const K2& k) const { return k.a; } };
struct CE { SatR r; std::vector<std::pair<uint32_t, uint64_t>> m; };
static std::unordered_map<K2, CE, K2H> cache;

SatR solve(const std::vector<Expr*>& pc, Expr* extra, Model& m, bool forceZ3) {
	sstats.queries++;
	if (extra->isConst()) return extra->c ? R_SAT : R_UNSAT;
	if (evalExpr(extra, m)) return R_SAT;
	// slice
	static std::vector<uint64_t> bits; bits.assign(numVars() / 64 + 1, 0);
	auto has = [&](const VarSet* s) { for (uint32_t x : s->v) if (bits[x >> 6] >> (x & 63) & 1) return true; return false; };
	auto add = [&](const VarSet* s) { for (uint32_t x : s->v) bits[x >> 6] |= 1ull << (x & 63); };
	add(extra->vs); std::vector<Expr*> sl; sl.push_back(extra);
	std::vector<Expr*> rest(pc.rbegin(), pc.rend()); bool ch = true;
	while (ch) { ch = false; size_t j = 0; for (size_t i = 0; i < rest.size(); i++) { if (has(rest[i]->vs)) { add(rest[i]->vs); sl.push_back(rest[i]); ch = true; } else rest[j++] = rest[i]; } rest.resize(j); }
	std::vector<uint32_t> vars; for (size_t i = 0; i < bits.size(); i++) for (uint64_t b = bits[i]; b; b &= b - 1) vars.push_back(i * 64 + __builtin_ctzll(b));
	std::sort(sl.begin(), sl.end(), [](Expr* a, Expr* b) { return a->id < b->id; }); sl.erase(std::unique(sl.begin(), sl.end()), sl.end());
	K2 key{0x1234567, 0x9876543}; for (auto e : sl) { key.a = (key.a ^ e->id) * 0x9E3779B97F4A7C15ull; key.a ^= key.a >> 31; key.b = (key.b + e->id + 1) * 0xff51afd7ed558ccdull; key.b ^= key.b >> 33; }
	key.a ^= forceZ3;
	auto it = cache.find(key);
	if (it != cache.end()) { sstats.cached++; for (auto& p : it->second.m) m.set(p.first, p.second); return it->second.r; }
	CE ce; ce.r = R_UNK;
	if (forceZ3) { // a concrete assignment that satisfies everything is a counterexample already
		Model t = m; uint64_t rs = key.b | 1; for (int k = 0; k < 6; k++) { for (uint32_t v : vars) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; t.set(v, rs & (uint64_t)maskOf(varWidth(v))); } bool ok = true; for (auto e : sl) if (!evalExpr(e, t)) { ok = false; break; } if (ok) { for (uint32_t v : vars) { m.set(v, t.get(v)); ce.m.push_back({v, t.get(v)}); } ce.r = R_SAT; sstats.sat++; cache[key] = ce; return R_SAT; } }
	}
	if (!forceZ3 && vars.size() == 1 && varWidth(vars[0]) <= 8) {
		sstats.fast++; uint64_t old = m.get(vars[0]); ce.r = R_UNSAT; unsigned n = 1u << varWidth(vars[0]);
		for (unsigned v = 0; v < n; v++) { m.set(vars[0], v); bool ok = true; if (!evalExpr(extra, m)) continue; for (auto e : sl) if (e != extra && !evalExpr(e, m)) { ok = false; break; } if (ok) { ce.r = R_SAT; ce.m.push_back({vars[0], v}); break; } }
		if (ce.r != R_SAT) m.set(vars[0], old);
	} else {
		if (!ctx) initZ3();
		double t0 = now(); sstats.z3queries++;
		Z3_lbool r = Z3_L_UNDEF; static unsigned quick = getenv("SX_QUICK") ? atoi(getenv("SX_QUICK")) : 20000;
		for (auto e : sl) prep(e);
		for (int stage = quick ? 0 : 1; stage < 2 && r == Z3_L_UNDEF; stage++) {
			Z3_solver& sv = stage ? sol2 : sol; uint64_t& uses = stage ? solUses2 : solUses;
			if (!sv || ++uses > (stage ? 50u : 400u)) { if (sv) Z3_solver_dec_ref(ctx, sv); sv = stage ? mkSolver() : Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx, sv); uses = 0;
				Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p); Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "rlimit"), stage ? z3Rlimit : quick); Z3_solver_set_params(ctx, sv, p); Z3_params_dec_ref(ctx, p); }
			Z3_solver_push(ctx, sv);
			for (auto e : sl) Z3_solver_assert(ctx, sv, toBool(e));
			r = Z3_solver_check(ctx, sv);
			if (r == Z3_L_TRUE) {
				ce.r = R_SAT; Z3_model zm = Z3_solver_get_model(ctx, sv); Z3_model_inc_ref(ctx, zm);
				for (uint32_t v : vars) { Z3_ast out = nullptr; uint64_t x = 0; if (Z3_model_eval(ctx, zm, toBV(varExpr(v)), true, &out) && out) { Z3_inc_ref(ctx, out); Z3_get_numeral_uint64(ctx, out, &x); Z3_dec_ref(ctx, out); } ce.m.push_back({v, x}); m.set(v, x); }
				Z3_model_dec_ref(ctx, zm);
				for (auto e : sl) if (!evalExpr(e, m)) { fprintf(stderr, "INTERNAL: model does not satisfy %s\n", exprStr(e, 6).c_str()); ce.r = R_UNK; }
			} else if (r == Z3_L_FALSE) ce.r = R_UNSAT;
			Z3_solver_pop(ctx, sv, 1);
			if (r == Z3_L_UNDEF) { Z3_solver_dec_ref(ctx, sv); sv = nullptr; }
		}
		if (ce.r == R_UNK && vars.size() == 1 && varWidth(vars[0]) <= 8) { uint64_t old = m.get(vars[0]); ce.r = R_UNSAT; for (unsigned v = 0; v < (1u << varWidth(vars[0])); v++) { m.set(vars[0], v); bool ok = true; for (auto e : sl) if (!evalExpr(e, m)) { ok = false; break; } if (ok) { ce.r = R_SAT; ce.m.assign(1, {vars[0], v}); break; } } if (ce.r != R_SAT) m.set(vars[0], old); }
		double dt = now() - t0; sstats.z3time += dt; if (getenv("SX_QLOG")) { static FILE* lf = fopen((std::string(getenv("SX_QLOG")) + std::to_string(getpid())).c_str(), "w"); fprintf(lf, "%.2fms r=%d n=%zu vars=%zu\n", dt * 1000, ce.r, sl.size(), vars.size()); if (dt > 0.01) for (auto e : sl) fprintf(lf, "   %s\n", exprStr(e, 12).c_str()); fflush(lf); } if (dt > 5 && getenv("SX_VERBOSE")) fprintf(stderr, "slow query %.1fs r=%d n=%zu vars=%zu\n", dt, ce.r, sl.size(), vars.size());
	}
	if (ce.r == R_SAT) sstats.sat++; else if (ce.r == R_UNSAT) sstats.unsat++; else sstats.unknown++;
	cache[key] = ce; if (cache.size() > 2000000) cache.clear();
	return ce.r;
}
