#include "expr.h"
#include <deque>
#include <algorithm>
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <map>

static std::deque<Expr> pool;
static std::vector<std::string> vnames; static std::vector<uint16_t> vwidths; static std::vector<Expr*> vexprs;
static VarSet emptyVS;
struct ExprHash { size_t operator()(const Expr* e) const {
	uint64_t h = e->op * 1000003ull + e->w * 10007ull + e->lo * 101ull + (uint64_t)e->c * 0x9E3779B97F4A7C15ull + (uint64_t)(e->c >> 64) * 31;
	for (int i = 0; i < 3; i++) { h ^= (uint64_t)(uintptr_t)e->k[i] >> 4; h *= 0xff51afd7ed558ccdull; h ^= h >> 29; }
	return h; } };

// open addressing table
static std::vector<Expr*> table(1 << 16); static size_t tcount = 0;
static bool same(const Expr* a, const Expr* b) { return a->op == b->op && a->w == b->w && a->lo == b->lo && a->c == b->c && a->k[0] == b->k[0] && a->k[1] == b->k[1] && a->k[2] == b->k[2]; }
static void grow() { std::vector<Expr*> n(table.size() * 2); for (auto e : table) if (e) { size_t i = ExprHash()(e) & (n.size() - 1); while (n[i]) i = (i + 1) & (n.size() - 1); n[i] = e; } table.swap(n); }

struct PairHash { size_t operator()(const std::pair<const VarSet*, const VarSet*>& p) const { return ((uintptr_t)p.first >> 4) * 0x9E3779B97F4A7C15ull ^ ((uintptr_t)p.second >> 3); } };
static std::unordered_map<std::pair<const VarSet*, const VarSet*>, const VarSet*, PairHash> unionMemo;
static std::map<std::vector<uint32_t>, const VarSet*> vsIntern;
static const VarSet* internVS(std::vector<uint32_t>&& v) { if (v.empty()) return &emptyVS; auto it = vsIntern.find(v); if (it != vsIntern.end()) return it->second; auto n = new VarSet{v}; vsIntern[v] = n; return n; }
static const VarSet* unionVS(const VarSet* a, const VarSet* b) {
	if (a == b || b->v.empty()) return a; if (a->v.empty()) return b;
	if (a > b) std::swap(a, b);
	auto key = std::make_pair(a, b); auto it = unionMemo.find(key); if (it != unionMemo.end()) return it->second;
	std::vector<uint32_t> r; r.reserve(a->v.size() + b->v.size()); std::set_union(a->v.begin(), a->v.end(), b->v.begin(), b->v.end(), std::back_inserter(r));
	return unionMemo[key] = internVS(std::move(r));
}
static uint64_t addSat(uint64_t a, uint64_t b, uint64_t m, bool& ov) { u128 s = (u128)a + b; if (s > m) { ov = true; return m; } return (uint64_t)s; }
static void ranges(Expr* e) {
	if (e->w > 64) { e->umin = 0; e->umax = ~0ull; return; }
	uint64_t M = (uint64_t)maskOf(e->w); e->umin = 0; e->umax = M;
	Expr *a = e->k[0], *b = e->k[1];
	switch (e->op) {
		case O_CONST: e->umin = e->umax = (uint64_t)e->c; break;
		case O_ADD: { bool ov = false; uint64_t hi = addSat(a->umax, b->umax, M, ov); if (!ov) { e->umin = a->umin + b->umin; e->umax = hi; } else if ((u128)a->umin + b->umin > M) { e->umin = (a->umin + b->umin) & M; e->umax = (a->umax + b->umax) & M; } break; }
		case O_SUB: if (a->umin >= b->umax) { e->umin = a->umin - b->umax; e->umax = a->umax - b->umin; } break;
		case O_MUL: { u128 hi = (u128)a->umax * b->umax; if (hi <= M) { e->umin = a->umin * b->umin; e->umax = (uint64_t)hi; } break; }
		case O_AND: e->umax = std::min(a->umax, b->umax); break;
		case O_OR: { uint64_t m = a->umax | b->umax; int z = m ? 64 - __builtin_clzll(m) : 0; e->umax = z >= 64 ? ~0ull : ((1ull << z) - 1); e->umin = std::max(a->umin, b->umin); break; }
		case O_XOR: { uint64_t m = a->umax | b->umax; int z = m ? 64 - __builtin_clzll(m) : 0; e->umax = z >= 64 ? ~0ull : ((1ull << z) - 1); break; }
		case O_UDIV: if (b->umin > 0) { e->umin = a->umin / b->umax; e->umax = a->umax / b->umin; } break;
		case O_UREM: if (b->umin > 0) e->umax = std::min(a->umax, b->umax - 1); break;
		case O_LSHR: e->umax = a->umax; if (b->isConst() && b->c < e->w) { e->umin = a->umin >> (unsigned)b->c; e->umax = a->umax >> (unsigned)b->c; } break;
		case O_ITE: e->umin = std::min(b->umin, e->k[2]->umin); e->umax = std::max(b->umax, e->k[2]->umax); break;
		case O_ZEXT: e->umin = a->umin; e->umax = a->umax; break;
		case O_CONCAT: e->umin = (a->umin << b->w) | b->umin; e->umax = (a->umax << b->w) | b->umax; break;
		case O_EXTRACT: if (a->w <= 64 && e->lo == 0 && a->umax <= M) { e->umin = a->umin; e->umax = a->umax; } else if (a->w <= 64 && e->lo + e->w == a->w) { e->umin = a->umin >> e->lo; e->umax = a->umax >> e->lo; } break;
		default: break;
	}
}
static Expr* intern(Op op, unsigned w, u128 c, Expr* a = nullptr, Expr* b = nullptr, Expr* d = nullptr, unsigned lo = 0) {
	Expr t; memset(&t, 0, sizeof t); t.op = op; t.lz = 255; t.w = w; t.lo = lo; t.c = c; t.k[0] = a; t.k[1] = b; t.k[2] = d;
	size_t i = ExprHash()(&t) & (table.size() - 1);
	while (table[i]) { if (same(table[i], &t)) return table[i]; i = (i + 1) & (table.size() - 1); }
	t.id = pool.size();
	const VarSet* vs = &emptyVS; for (int j = 0; j < 3; j++) if (t.k[j]) vs = unionVS(vs, t.k[j]->vs);
	t.vs = vs; ranges(&t);
	pool.push_back(t); Expr* e = &pool.back(); table[i] = e; if (++tcount * 2 > table.size()) grow();
	return e;
}
size_t exprCount() { return pool.size(); }
static Expr* smallConst[5][257];
Expr* mkConst(u128 v, unsigned w) {
	v &= maskOf(w);
	if (v <= 256) { int s = w == 1 ? 0 : w == 8 ? 1 : w == 32 ? 2 : w == 64 ? 3 : w == 16 ? 4 : -1; if (s >= 0) { auto& p = smallConst[s][(int)v]; if (!p) p = intern(O_CONST, w, v); return p; } }
	return intern(O_CONST, w, v);
}
Expr* mkTrue() { return mkConst(1, 1); }
Expr* mkFalse() { return mkConst(0, 1); }
Expr* mkVar(unsigned w, const std::string& name) {
	uint32_t id = vnames.size(); vnames.push_back(name); vwidths.push_back(w);
	Expr* e = intern(O_VAR, w, id); e->vs = internVS({id}); vexprs.push_back(e); return e;
}
const std::string& varName(uint32_t v) { return vnames[v]; }
unsigned varWidth(uint32_t v) { return vwidths[v]; }
uint32_t numVars() { return vnames.size(); }
Expr* varExpr(uint32_t v) { return vexprs[v]; }

u128 foldBin(Op op, u128 a, u128 b, unsigned w) {
	u128 M = maskOf(w); i128 sa = (i128)sextTo128(a, w), sb = (i128)sextTo128(b, w);
	switch (op) {
		case O_ADD: return (a + b) & M; case O_SUB: return (a - b) & M; case O_MUL: return (a * b) & M;
		case O_UDIV: return b ? a / b : M; case O_UREM: return b ? a % b : a;
		case O_SDIV: if (!b) return sa < 0 ? 1 : M; return (sb == -1) ? (u128)(-(u128)sa) & M : (u128)(sa / sb) & M;
		case O_SREM: if (!b) return a; return (sb == -1) ? 0 : (u128)(sa % sb) & M;
		case O_AND: return a & b; case O_OR: return a | b; case O_XOR: return a ^ b;
		case O_SHL: return b >= w ? 0 : (a << (unsigned)b) & M; case O_LSHR: return b >= w ? 0 : a >> (unsigned)b;
		case O_ASHR: return b >= w ? (sa < 0 ? M : 0) : (u128)(sa >> (unsigned)b) & M;
		case O_EQ: return a == b; case O_ULT: return a < b; case O_ULE: return a <= b; case O_SLT: return sa < sb; case O_SLE: return sa <= sb;
		default: abort();
	}
}
static bool isCmp(Op o) { return o >= O_EQ && o <= O_SLE; }
static unsigned lowZerosNew(Expr* e) {
	switch (e->op) {
		case O_CONST: { if (!e->c) return e->w; unsigned n = 0; u128 v = e->c; while (!(v & 1)) { v >>= 1; n++; } return n; }
		case O_CONCAT: { unsigned l = lowZeros(e->k[1]); return l == e->k[1]->w ? l + lowZeros(e->k[0]) : l; }
		case O_ZEXT: { unsigned l = lowZeros(e->k[0]); return l == e->k[0]->w ? e->w : l; }
		case O_SEXT: { unsigned l = lowZeros(e->k[0]); return l == e->k[0]->w ? e->w : l; }
		case O_ADD: case O_SUB: case O_OR: case O_XOR: return std::min(lowZeros(e->k[0]), lowZeros(e->k[1]));
		case O_AND: return std::max(lowZeros(e->k[0]), lowZeros(e->k[1]));
		case O_MUL: return std::min<unsigned>(e->w, lowZeros(e->k[0]) + lowZeros(e->k[1]));
		default: return 0;
	}
}
unsigned lowZeros(Expr* e) { if (e->lz == 255) e->lz = lowZerosNew(e); return e->lz; }
unsigned highZeros(Expr* e) {
	switch (e->op) {
		case O_CONST: { unsigned n = 0; for (int i = e->w - 1; i >= 0; i--) { if ((e->c >> i) & 1) break; n++; } return n; }
		case O_ZEXT: return e->w - e->k[0]->w + highZeros(e->k[0]);
		case O_CONCAT: { unsigned h = highZeros(e->k[0]); return h == e->k[0]->w ? h + highZeros(e->k[1]) : h; }
		default: if (e->w <= 64) { if (!e->umax) return e->w; return __builtin_clzll(e->umax) - (64 - e->w); } return 0;
	}
}
Expr* mkNot(Expr* e) {
	if (e->isConst()) return mkConst(~e->c, e->w);
	if (e->w == 1) {
		switch (e->op) {
			case O_ULT: return mkBin(O_ULE, e->k[1], e->k[0]); case O_ULE: return mkBin(O_ULT, e->k[1], e->k[0]);
			case O_SLT: return mkBin(O_SLE, e->k[1], e->k[0]); case O_SLE: return mkBin(O_SLT, e->k[1], e->k[0]);
			default: break;
		}
	}
	return mkBin(O_XOR, e, mkConst(~(u128)0, e->w));
}
struct KeyHash { size_t operator()(const std::pair<Expr*, Expr*>& p) const { return ((uintptr_t)p.first >> 4) * 0x9E3779B97F4A7C15ull ^ ((uintptr_t)p.second >> 3) * 31; } };
static std::unordered_map<std::pair<Expr*, Expr*>, Expr*, KeyHash> eqMemo;

static Expr* eqRaw(Expr* a, Expr* b) { if (a->id > b->id) std::swap(a, b); if (a->isConst()) std::swap(a, b); return intern(O_EQ, 1, 0, a, b); }
static Expr* eqConst(Expr* a, Expr* b) { // b const
	u128 c = b->c; unsigned w = a->w;
	if (w <= 64 && (c < a->umin || c > a->umax)) return mkFalse();
	if (w == 1) return c ? a : mkNot(a);
	switch (a->op) {
		case O_ZEXT: { unsigned kw = a->k[0]->w; if (c >> kw) return mkFalse(); return mkEq(a->k[0], mkConst(c, kw)); }
		case O_SEXT: { unsigned kw = a->k[0]->w; if ((sextTo128(c & maskOf(kw), kw) & maskOf(w)) != c) return mkFalse(); return mkEq(a->k[0], mkConst(c, kw)); }
		case O_CONCAT: { unsigned lw = a->k[1]->w; Expr* l = mkEq(a->k[1], mkConst(c, lw)); if (l->isConst() && !l->c) return l; return mkAnd1(mkEq(a->k[0], mkConst(c >> lw, a->k[0]->w)), l); }
		case O_ADD: if (a->k[1]->isConst()) return mkEq(a->k[0], mkConst(c - a->k[1]->c, w)); break;
		case O_SUB: if (c == 0) return mkEq(a->k[0], a->k[1]); if (a->k[0]->isConst()) return mkEq(a->k[1], mkConst(a->k[0]->c - c, w)); break;
		case O_XOR: if (a->k[1]->isConst()) return mkEq(a->k[0], mkConst(c ^ a->k[1]->c, w)); if (c == 0) return mkEq(a->k[0], a->k[1]); break;
		case O_ITE: {
			auto key = std::make_pair(a, b); auto it = eqMemo.find(key); if (it != eqMemo.end()) return it->second;
			Expr* r = mkIte(a->k[0], mkEq(a->k[1], b), mkEq(a->k[2], b)); eqMemo[key] = r; return r; }
		case O_OR: if (c == 0) return mkAnd1(mkEq(a->k[0], b), mkEq(a->k[1], b)); break;
		default: break;
	}
	return eqRaw(a, b);
}
// (x & p) and (~x & q) share no bit: their sum, or and exclusive or are the same
static bool disjointAnd(Expr* a, Expr* b) {
	if (a->op != O_AND || b->op != O_AND || a->w == 1) return false;
	for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { Expr *p = a->k[i], *q = b->k[j]; if ((p->op == O_XOR && p->k[0] == q && p->k[1]->isConst() && p->k[1]->c == maskOf(p->w)) || (q->op == O_XOR && q->k[0] == p && q->k[1]->isConst() && q->k[1]->c == maskOf(q->w))) return true; if (p->isConst() && q->isConst() && !(p->c & q->c)) return true; }
	return false;
}
// sums and exclusive ors of up to 12 terms are kept in one canonical order
static Expr* acChain(Op op, Expr* a, Expr* b) {
	std::vector<Expr*> l, st{a, b}; while (!st.empty() && l.size() <= 12) { Expr* e = st.back(); st.pop_back(); if (e->op == op) { st.push_back(e->k[0]); st.push_back(e->k[1]); } else l.push_back(e); }
	if (l.size() > 12) { if (a->id > b->id) std::swap(a, b); return intern(op, a->w, 0, a, b, nullptr); }
	std::sort(l.begin(), l.end(), [](Expr* x, Expr* y) { return x->id < y->id; });
	if (op == O_ADD) for (size_t i = 0; i < l.size(); i++) for (size_t j = i + 1; j < l.size(); j++) if (disjointAnd(l[i], l[j])) { Expr* x = mkBin(O_XOR, l[i], l[j]); l.erase(l.begin() + j); l.erase(l.begin() + i); Expr* r = x; for (auto e : l) r = mkBin(O_ADD, r, e); return r; }
	if (op == O_XOR) { std::vector<Expr*> r; for (auto e : l) if (!r.empty() && r.back() == e) r.pop_back(); else r.push_back(e); l.swap(r); if (l.empty()) return mkConst(0, a->w); }
	Expr* acc = l[0]; for (size_t i = 1; i < l.size(); i++) acc = intern(op, a->w, 0, acc, l[i], nullptr); return acc;
}
Expr* mkBin(Op op, Expr* a, Expr* b) {
	if (a->w != b->w) { fprintf(stderr, "mkBin width mismatch op %d %d %d\n", op, a->w, b->w); abort(); }
	unsigned w = a->w; bool cmp = isCmp(op);
	if (a->isConst() && b->isConst()) return mkConst(foldBin(op, a->c, b->c, w), cmp ? 1 : w);
	u128 M = maskOf(w);
	switch (op) {
		case O_ADD:
			if (a->isConst()) std::swap(a, b);
			if (b->isConst()) {
				if (!b->c) return a;
				if (a->op == O_CONCAT && a->k[0]->isConst() && !(b->c & maskOf(a->k[1]->w))) return mkConcat(mkConst(a->k[0]->c + (b->c >> a->k[1]->w), a->k[0]->w), a->k[1]);
				if (a->op == O_ADD && a->k[1]->isConst()) return mkBin(O_ADD, a->k[0], mkConst(a->k[1]->c + b->c, w));
				if (a->op == O_SUB && a->k[0]->isConst()) return mkBin(O_SUB, mkConst(a->k[0]->c + b->c, w), a->k[1]);
			} else {
				if (a->op == O_ADD && a->k[1]->isConst()) return mkBin(O_ADD, mkBin(O_ADD, a->k[0], b), a->k[1]);
				if (b->op == O_ADD && b->k[1]->isConst()) return mkBin(O_ADD, mkBin(O_ADD, a, b->k[0]), b->k[1]);
				if (a->op == O_SUB && a->k[1] == b) return a->k[0];
				if (b->op == O_SUB && b->k[1] == a) return b->k[0];
				unsigned la = lowZeros(a), lb = lowZeros(b);
				if ((la && la >= w - highZeros(b)) || (lb && lb >= w - highZeros(a))) return mkBin(O_OR, a, b);
				if (disjointAnd(a, b)) return mkBin(O_XOR, a, b);
				if (a->op == O_ADD || b->op == O_ADD) return acChain(O_ADD, a, b);
				if (a->id > b->id) std::swap(a, b);
			}
			break;
		case O_SUB:
			if (a == b) return mkConst(0, w);
			if (b->isConst()) return mkBin(O_ADD, a, mkConst(-b->c, w));
			if (a->op == O_ADD) { if (a->k[0] == b) return a->k[1]; if (a->k[1] == b) return a->k[0]; }
			if (b->op == O_ADD && b->k[1]->isConst()) return mkBin(O_ADD, mkBin(O_SUB, a, b->k[0]), mkConst(-b->k[1]->c, w));
			if (a->op == O_ADD && a->k[1]->isConst()) return mkBin(O_ADD, mkBin(O_SUB, a->k[0], b), a->k[1]);
			if (b->op == O_ADD) { if (b->k[0] == a) return mkBin(O_SUB, mkConst(0, w), b->k[1]); if (b->k[1] == a) return mkBin(O_SUB, mkConst(0, w), b->k[0]); }
			break;
		case O_MUL:
			if (a->isConst()) std::swap(a, b);
			if (b->isConst()) {
				if (!b->c) return b; if (b->c == 1) return a;
				if (!(b->c & (b->c - 1))) { unsigned s = 0; while (!((b->c >> s) & 1)) s++; return mkBin(O_SHL, a, mkConst(s, w)); }
			} else if (a->id > b->id) std::swap(a, b);
			break;
		case O_UDIV: if (b->isConst()) { if (b->c == 1) return a; if (b->c && !(b->c & (b->c - 1))) { unsigned s = 0; while (!((b->c >> s) & 1)) s++; return mkBin(O_LSHR, a, mkConst(s, w)); } if (w <= 64 && a->umax < (uint64_t)b->c) return mkConst(0, w); } break;
		case O_UREM: if (b->isConst()) { if (b->c == 1) return mkConst(0, w); if (b->c && !(b->c & (b->c - 1))) return mkBin(O_AND, a, mkConst(b->c - 1, w)); if (w <= 64 && b->c && a->umax < (uint64_t)b->c) return a; } break;
		case O_AND:
			if (a->isConst()) std::swap(a, b);
			if (a == b) return a;
			if (b->isConst()) {
				if (!b->c) return b; if (b->c == M) return a;
				if (a->op == O_AND && a->k[1]->isConst()) return mkBin(O_AND, a->k[0], mkConst(a->k[1]->c & b->c, w));
				// contiguous low mask / high mask
				u128 c = b->c; if (!(c & (c + 1))) { unsigned n = 0; while ((c >> n) & 1) n++; return mkZext(mkExtract(a, 0, n), w); }
				{ unsigned lz = lowZeros(b); u128 t = c >> lz; if (lz && !(t & (t + 1))) { unsigned n = 0; while (n < 128 && ((t >> n) & 1)) n++; return mkZext(mkConcat(mkExtract(a, lz, n), mkConst(0, lz)), w); } }
			} else {
				if (w == 1) { if ((a->op == O_XOR && a->k[0] == b && a->k[1]->isConst()) || (b->op == O_XOR && b->k[0] == a && b->k[1]->isConst())) return mkFalse(); if (a->op == O_AND && (a->k[0] == b || a->k[1] == b)) return a; if (b->op == O_AND && (b->k[0] == a || b->k[1] == a)) return b; }
				if (lowZeros(a) >= w - highZeros(b) || lowZeros(b) >= w - highZeros(a)) return mkConst(0, w);
				if (a->id > b->id) std::swap(a, b);
			}
			break;
		case O_OR:
			if (a->isConst()) std::swap(a, b);
			if (a == b) return a;
			if (b->isConst()) { if (!b->c) return a; if (b->c == M) return b; if (a->op == O_OR && a->k[1]->isConst()) return mkBin(O_OR, a->k[0], mkConst(a->k[1]->c | b->c, w)); }
			else {
				if (disjointAnd(a, b)) return mkBin(O_XOR, a, b);
				if (w == 1) { if ((a->op == O_XOR && a->k[0] == b && a->k[1]->isConst()) || (b->op == O_XOR && b->k[0] == a && b->k[1]->isConst())) return mkTrue(); if (a->op == O_OR && (a->k[0] == b || a->k[1] == b)) return a; if (b->op == O_OR && (b->k[0] == a || b->k[1] == a)) return b; }
			}
			{
				unsigned la = lowZeros(a), hb = highZeros(b);
				if (la && la < w && la >= w - hb && hb < w) return mkConcat(mkExtract(a, la, w - la), mkExtract(b, 0, la));
				unsigned lb = lowZeros(b), ha = highZeros(a);
				if (lb && lb < w && lb >= w - ha && ha < w) return mkConcat(mkExtract(b, lb, w - lb), mkExtract(a, 0, lb));
			}
			if (!b->isConst() && a->id > b->id) std::swap(a, b);
			break;
		case O_XOR:
			if (a->isConst()) std::swap(a, b);
			if (a == b) return mkConst(0, w);
			if (b->isConst()) {
				if (!b->c) return a;
				if (a->op == O_XOR && a->k[1]->isConst()) return mkBin(O_XOR, a->k[0], mkConst(a->k[1]->c ^ b->c, w));
				if (w == 1) switch (a->op) { case O_ULT: return mkBin(O_ULE, a->k[1], a->k[0]); case O_ULE: return mkBin(O_ULT, a->k[1], a->k[0]); case O_SLT: return mkBin(O_SLE, a->k[1], a->k[0]); case O_SLE: return mkBin(O_SLT, a->k[1], a->k[0]); default: break; }
			} else { if (w > 1 && (a->op == O_XOR || b->op == O_XOR)) { if (a->op == O_XOR && a->k[1]->isConst()) return mkBin(O_XOR, mkBin(O_XOR, a->k[0], b), a->k[1]); if (b->op == O_XOR && b->k[1]->isConst()) return mkBin(O_XOR, mkBin(O_XOR, a, b->k[0]), b->k[1]); return acChain(O_XOR, a, b); } if (a->id > b->id) std::swap(a, b); }
			break;
		case O_SHL: if (b->isConst()) { if (!b->c) return a; if (b->c >= w) return mkConst(0, w); unsigned s = (unsigned)b->c; return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s)); } break;
		case O_LSHR: if (b->isConst()) { if (!b->c) return a; if (b->c >= w) return mkConst(0, w); unsigned s = (unsigned)b->c; return mkZext(mkExtract(a, s, w - s), w); } break;
		case O_ASHR: if (b->isConst()) { if (!b->c) return a; unsigned s = b->c >= w ? w - 1 : (unsigned)b->c; return mkSext(mkExtract(a, s, w - s), w); } break;
		case O_EQ:
			if (a == b) return mkTrue();
			if (a->isConst()) std::swap(a, b);
			if (b->isConst()) return eqConst(a, b);
			if (w <= 64 && (a->umax < b->umin || b->umax < a->umin)) return mkFalse();
			if (w == 1) return mkNot(mkBin(O_XOR, a, b));
			if (a->op == O_ZEXT && b->op == O_ZEXT) { if (a->k[0]->w == b->k[0]->w) return mkEq(a->k[0], b->k[0]); unsigned mw = std::max(a->k[0]->w, b->k[0]->w); return mkEq(mkZext(a->k[0], mw), mkZext(b->k[0], mw)); }
			if (a->op == O_SEXT && b->op == O_SEXT && a->k[0]->w == b->k[0]->w) return mkEq(a->k[0], b->k[0]);
			if (a->op == O_CONCAT && b->op == O_CONCAT && a->k[1]->w == b->k[1]->w) return mkAnd1(mkEq(a->k[0], b->k[0]), mkEq(a->k[1], b->k[1]));
			if (a->op == O_ADD && b->op == O_ADD) { if (a->k[0] == b->k[0]) return mkEq(a->k[1], b->k[1]); if (a->k[1]->isConst() && b->k[1]->isConst()) return mkEq(a->k[0], mkBin(O_ADD, b->k[0], mkConst(b->k[1]->c - a->k[1]->c, w))); }
			if (a->op == O_ADD && a->k[0] == b) return mkEq(a->k[1], mkConst(0, w));
			if (b->op == O_ADD && b->k[0] == a) return mkEq(b->k[1], mkConst(0, w));
			if (a->op == O_ADD && a->k[1] == b) return mkEq(a->k[0], mkConst(0, w));
			if (b->op == O_ADD && b->k[1] == a) return mkEq(b->k[0], mkConst(0, w));
			return eqRaw(a, b);
		case O_ULT:
			if (a == b) return mkFalse();
			if (w <= 64) { if (a->umax < b->umin) return mkTrue(); if (a->umin >= b->umax) return mkFalse(); }
			if (b->isConst() && b->c == 1) return mkEq(a, mkConst(0, w));
			if (a->isConst() && a->c == 0) return mkNot(mkEq(b, a));
			if (a->op == O_ZEXT && b->op == O_ZEXT) { unsigned mw = std::max(a->k[0]->w, b->k[0]->w); return mkBin(O_ULT, mkZext(a->k[0], mw), mkZext(b->k[0], mw)); }
			if (a->op == O_ZEXT && b->isConst()) { if (b->c >> a->k[0]->w) return mkTrue(); return mkBin(O_ULT, a->k[0], mkConst(b->c, a->k[0]->w)); }
			if (b->op == O_ZEXT && a->isConst()) { if (a->c >> b->k[0]->w) return mkFalse(); return mkBin(O_ULT, mkConst(a->c, b->k[0]->w), b->k[0]); }
			if (b->isConst() && a->op == O_ITE && (a->k[1]->isConst() || a->k[2]->isConst())) return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
			if (a->isConst() && b->op == O_ITE && (b->k[1]->isConst() || b->k[2]->isConst())) return mkIte(b->k[0], mkBin(op, a, b->k[1]), mkBin(op, a, b->k[2]));
			break;
		case O_ULE:
			if (a == b) return mkTrue();
			if (w <= 64) { if (a->umax <= b->umin) return mkTrue(); if (a->umin > b->umax) return mkFalse(); }
			if (b->isConst() && b->c == 0) return mkEq(a, b);
			if (b->isConst() && b->c != M) return mkBin(O_ULT, a, mkConst(b->c + 1, w));
			if (a->isConst() && a->c) return mkBin(O_ULT, mkConst(a->c - 1, w), b);
			if (a->op == O_ZEXT && b->op == O_ZEXT) { unsigned mw = std::max(a->k[0]->w, b->k[0]->w); return mkBin(O_ULE, mkZext(a->k[0], mw), mkZext(b->k[0], mw)); }
			break;
		case O_SLT: case O_SLE:
			if (a == b) return op == O_SLE ? mkTrue() : mkFalse();
			if (highZeros(a) && highZeros(b)) return mkBin(op == O_SLT ? O_ULT : O_ULE, a, b);
			if (b->isConst() && !((b->c >> (w - 1)) & 1) && false) break;
			if (op == O_SLE && b->isConst() && b->c != (M >> 1)) return mkBin(O_SLT, a, mkConst(b->c + 1, w));
			if (op == O_SLE && a->isConst() && a->c != ((u128)1 << (w - 1))) return mkBin(O_SLT, mkConst(a->c - 1, w), b);
			{
				// sign-extended operands: narrow
				auto fits = [&](Expr* c, unsigned kw) { return c->isConst() && (sextTo128(c->c & maskOf(kw), kw) & M) == c->c; };
				if (a->op == O_SEXT && b->op == O_SEXT && a->k[0]->w == b->k[0]->w) return mkBin(op, a->k[0], b->k[0]);
				if (a->op == O_SEXT && fits(b, a->k[0]->w)) return mkBin(op, a->k[0], mkConst(b->c, a->k[0]->w));
				if (b->op == O_SEXT && fits(a, b->k[0]->w)) return mkBin(op, mkConst(a->c, b->k[0]->w), b->k[0]);
				if (a->op == O_SEXT && b->isConst()) return mkConst((b->c >> (w - 1)) & 1 ? 0 : 1, 1);
				if (b->op == O_SEXT && a->isConst()) return mkConst((a->c >> (w - 1)) & 1 ? 1 : 0, 1);
				if (highZeros(a) && b->isConst() && ((b->c >> (w - 1)) & 1)) return mkFalse();
				if (highZeros(b) && a->isConst() && ((a->c >> (w - 1)) & 1)) return mkTrue();
			}
			if (b->isConst() && a->op == O_ITE && (a->k[1]->isConst() || a->k[2]->isConst())) return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
			if (a->isConst() && b->op == O_ITE && (b->k[1]->isConst() || b->k[2]->isConst())) return mkIte(b->k[0], mkBin(op, a, b->k[1]), mkBin(op, a, b->k[2]));
			break;
		default: break;
	}
	return intern(op, cmp ? 1 : w, 0, a, b);
}
Expr* mkIte(Expr* c, Expr* a, Expr* b) {
	if (c->isConst()) return c->c ? a : b;
	if (a == b) return a;
	if (c->op == O_XOR && c->k[1]->isConst()) return mkIte(c->k[0], b, a);
	if (a->w > 1 && (c->op == O_ULT || c->op == O_SLT) && c->k[0]->isConst()) return mkIte(mkNot(c), b, a);
	if (a->w == 1) {
		if (a->isConst()) return a->c ? mkOr1(c, b) : mkAnd1(mkNot(c), b);
		if (b->isConst()) return b->c ? mkOr1(mkNot(c), a) : mkAnd1(c, a);
		if (a == c) return mkOr1(c, b); if (b == c) return mkAnd1(c, a);
	}
	if (a->op == O_ITE && a->k[0] == c) return mkIte(c, a->k[1], b);
	if (b->op == O_ITE && b->k[0] == c) return mkIte(c, a, b->k[2]);
	if (b->op == O_ITE && b->k[1] == a) return mkIte(mkOr1(c, b->k[0]), a, b->k[2]);
	if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->w == b->k[0]->w) return mkZext(mkIte(c, a->k[0], b->k[0]), a->w);
	if (a->op == O_ZEXT && b->isConst() && !(b->c >> a->k[0]->w)) return mkZext(mkIte(c, a->k[0], mkConst(b->c, a->k[0]->w)), a->w);
	if (b->op == O_ZEXT && a->isConst() && !(a->c >> b->k[0]->w)) return mkZext(mkIte(c, mkConst(a->c, b->k[0]->w), b->k[0]), b->w);
	return intern(O_ITE, a->w, 0, c, a, b);
}
static Expr* extractNew(Expr* e, unsigned lo, unsigned w);
Expr* mkExtract(Expr* e, unsigned lo, unsigned w) {
	if (w == 0 || lo + w > e->w) { fprintf(stderr, "bad extract lo %u w %u of %u\n", lo, w, e->w); abort(); }
	if (lo == 0 && w == e->w) return e;
	if (e->op == O_CONST || e->op == O_VAR) return extractNew(e, lo, w);
	static std::unordered_map<uint64_t, Expr*> memo; uint64_t key = (uint64_t)e->id << 16 | lo << 8 | w; auto it = memo.find(key); if (it != memo.end()) return it->second;
	Expr* r = extractNew(e, lo, w); memo[key] = r; return r;
}
static Expr* extractNew(Expr* e, unsigned lo, unsigned w) {
	switch (e->op) {
		case O_CONST: return mkConst(e->c >> lo, w);
		case O_EXTRACT: return mkExtract(e->k[0], e->lo + lo, w);
		case O_CONCAT: { unsigned lw = e->k[1]->w; if (lo >= lw) return mkExtract(e->k[0], lo - lw, w); if (lo + w <= lw) return mkExtract(e->k[1], lo, w); return mkConcat(mkExtract(e->k[0], 0, lo + w - lw), mkExtract(e->k[1], lo, lw - lo)); }
		case O_ZEXT: { unsigned kw = e->k[0]->w; if (lo >= kw) return mkConst(0, w); if (lo + w <= kw) return mkExtract(e->k[0], lo, w); return mkZext(mkExtract(e->k[0], lo, kw - lo), w); }
		case O_SEXT: { unsigned kw = e->k[0]->w; if (lo + w <= kw) return mkExtract(e->k[0], lo, w); if (lo < kw) return mkSext(mkExtract(e->k[0], lo, kw - lo), w); return mkSext(mkExtract(e->k[0], kw - 1, 1), w); }
		case O_AND: case O_OR: case O_XOR: { Expr *x = mkExtract(e->k[0], lo, w), *y = mkExtract(e->k[1], lo, w); if (x->isConst() || y->isConst() || e->k[0]->op == O_ZEXT || e->k[1]->op == O_ZEXT) return mkBin(e->op, x, y); break; }
		case O_ADD: case O_SUB: case O_MUL: if (lo == 0) return mkBin(e->op, mkExtract(e->k[0], 0, w), mkExtract(e->k[1], 0, w)); break;
		case O_ITE: if (e->k[1]->isConst() || e->k[2]->isConst() || lo == 0) return mkIte(e->k[0], mkExtract(e->k[1], lo, w), mkExtract(e->k[2], lo, w)); break;
		default: break;
	}
	return intern(O_EXTRACT, w, 0, e, nullptr, nullptr, lo);
}
Expr* mkConcat(Expr* hi, Expr* lo) {
	unsigned w = hi->w + lo->w; if (w > 128) { fprintf(stderr, "concat too wide\n"); abort(); }
	if (hi->isConst() && lo->isConst()) return mkConst((hi->c << lo->w) | lo->c, w);
	if (hi->isConst() && !hi->c) return mkZext(lo, w);
	if (hi->op == O_ZEXT) return mkZext(mkConcat(hi->k[0], lo), w);
	if (hi->op == O_EXTRACT && lo->op == O_EXTRACT && hi->k[0] == lo->k[0] && lo->lo + lo->w == hi->lo) return mkExtract(hi->k[0], lo->lo, w);
	if (hi->op == O_EXTRACT && hi->lo >= lo->w && !lo->isConst() && mkExtract(hi->k[0], hi->lo - lo->w, lo->w) == lo) return mkExtract(hi->k[0], hi->lo - lo->w, w);
	if (lo->op == O_CONCAT) { Expr* m = lo->k[0]; if ((hi->op == O_EXTRACT && m->op == O_EXTRACT && hi->k[0] == m->k[0] && m->lo + m->w == hi->lo) || (hi->isConst() && m->isConst())) return mkConcat(mkConcat(hi, m), lo->k[1]); }
	if (hi->op == O_CONCAT) return mkConcat(hi->k[0], mkConcat(hi->k[1], lo));
	if (hi->op == O_ITE && lo->op == O_ITE && hi->k[0] == lo->k[0]) return mkIte(hi->k[0], mkConcat(hi->k[1], lo->k[1]), mkConcat(hi->k[2], lo->k[2]));
	return intern(O_CONCAT, w, 0, hi, lo);
}
Expr* mkZext(Expr* e, unsigned w) {
	if (e->w == w) return e; if (e->w > w) abort();
	if (e->isConst()) return mkConst(e->c, w);
	if (e->op == O_ZEXT) return mkZext(e->k[0], w);
	if (e->op == O_CONCAT && e->k[0]->isConst() && w <= 128) return mkConcat(mkConst(e->k[0]->c, w - e->k[1]->w), e->k[1]);
	return intern(O_ZEXT, w, 0, e);
}
Expr* mkSext(Expr* e, unsigned w) {
	if (e->w == w) return e; if (e->w > w) abort();
	if (e->isConst()) return mkConst(sextTo128(e->c, e->w), w);
	if (e->op == O_SEXT) return mkSext(e->k[0], w);
	if (e->op == O_ZEXT || highZeros(e)) return mkZext(e, w);
	if (e->op == O_ITE && (e->k[1]->isConst() && e->k[2]->isConst())) return mkIte(e->k[0], mkSext(e->k[1], w), mkSext(e->k[2], w));
	return intern(O_SEXT, w, 0, e);
}
static uint32_t curEpoch = 0;
static u128 ev(Expr* e, const Model& m) {
	if (e->op == O_CONST) return e->c;
	if (e->epoch == curEpoch) return e->val;
	u128 r;
	switch (e->op) {
		case O_VAR: r = m.get((uint32_t)e->c) & maskOf(e->w); break;
		case O_ITE: r = ev(e->k[0], m) ? ev(e->k[1], m) : ev(e->k[2], m); break;
		case O_CONCAT: r = (ev(e->k[0], m) << e->k[1]->w) | ev(e->k[1], m); break;
		case O_EXTRACT: r = (ev(e->k[0], m) >> e->lo) & maskOf(e->w); break;
		case O_ZEXT: r = ev(e->k[0], m); break;
		case O_SEXT: r = sextTo128(ev(e->k[0], m), e->k[0]->w) & maskOf(e->w); break;
		case O_AND: if (e->w == 1) { r = ev(e->k[0], m) && ev(e->k[1], m); break; } r = ev(e->k[0], m) & ev(e->k[1], m); break;
		default: r = foldBin(e->op, ev(e->k[0], m), ev(e->k[1], m), e->k[0]->w); break;
	}
	e->epoch = curEpoch; e->val = r; return r;
}
u128 evalExpr(Expr* e, const Model& m) { if (e->isConst()) return e->c; curEpoch++; return ev(e, m); }
std::string exprStr(Expr* e, int d) {
	static const char* n[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","concat","extract","zext","sext"};
	char b[64];
	if (e->op == O_CONST) { snprintf(b, 64, "%llu:%d", (unsigned long long)e->c, e->w); return b; }
	if (e->op == O_VAR) return vnames[(uint32_t)e->c];
	if (d <= 0) return "..";
	std::string s = std::string("(") + n[e->op]; if (e->op == O_EXTRACT) { snprintf(b, 64, "[%d,%d]", e->lo, e->w); s += b; } if (e->op == O_ZEXT || e->op == O_SEXT) { snprintf(b, 64, "%d", e->w); s += b; }
	for (int i = 0; i < 3; i++) if (e->k[i]) s += " " + exprStr(e->k[i], d - 1);
	return s + ")";
}
