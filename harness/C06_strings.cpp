//@ src: core/polyfill/strings.cpp
//@ quick: -DN=7 -DP=3 time=80
//@ thorough: -DN=11 -DP=4 time=800
//@ merge: std::set<char.*>::contains
//@ flags: -fno-inline
//@ bounds: every text up to N characters (7/11) of any value and every pattern, separator or replacement up to P characters (3/4); joins of up to 3 pieces of up to 2 characters
//@ reach: pred trim case split splitchar join replace replaceall empty
#include "sx.h"
#include "core/polyfill/polyfill.hpp"
using namespace Lambda;
typedef std::string str;
static bool occursAt(const str& s, const str& p, size_t i) { if (i + p.size() > s.size()) return false; bool r = true; for (size_t k = 0; k < p.size(); k++) r = r & (s[i + k] == p[k]); return r; }
static bool white(char c) { return (c == ' ') | (c == '\t') | (c == '\r') | (c == '\n'); }
static std::vector<str> refSplit(const str& s, const str& t) {
	std::vector<str> r; if (s.empty()) return r; if (t.empty()) return {s}; str cur; size_t i = 0; bool any = false;
	while (i < s.size()) { if (occursAt(s, t, i)) { r.push_back(cur); cur.clear(); i += t.size(); any = true; } else cur += s[i++]; }
	if (cur.size() || !any) r.push_back(cur); return r;
}
static void same(const std::vector<str>& a, const std::vector<str>& b) { sx_assert(a.size() == b.size(), "number of pieces"); for (size_t i = 0; i < a.size(); i++) sx_assert(sx_eq(a[i], b[i]), "piece content"); }
void sx_main() {
	switch (sx_choice(0, 7, "mode")) {
	case 0: {
		str s = sx_text(0, N, "s"), p = sx_text(0, P + 1, "p"); bool in = false; for (size_t i = 0; i + p.size() <= s.size(); i++) in = in | occursAt(s, p, i);
		sx_assert(Strings::startsWith(s, p) == occursAt(s, p, 0), "startsWith"); sx_assert(Strings::endsWith(s, p) == (p.size() <= s.size() && occursAt(s, p, s.size() - p.size())), "endsWith"); sx_assert(Strings::includes(s, p) == in, "includes");
		str q = sx_text(0, 1, "q"); bool in2 = q.empty(); for (char c : s) if (q.size()) in2 = in2 | (c == q[0]); std::vector<str> both = {p, q}; sx_assert(Strings::includes(s, both) == (in | in2), "includes any"); if (q.size()) sx_assert(Strings::includes(s, q[0]) == in2, "includes character"); sx_reach("pred"); break; }
	case 1: {
		str s = sx_text(0, N, "s"); size_t a = 0, b = s.size(); while (a < b && white(s[a])) a++; while (b > a && white(s[b - 1])) b--; str w = s.substr(a, b - a);
		const str cs = s; str t = Strings::trim(cs); sx_obs(t, "trim"); sx_assert(sx_eq(t, w), "trim"); str u = s; Strings::trim(u); sx_assert(sx_eq(u, w), "trim in place"); sx_reach(b == a ? "empty" : "trim"); break; }
	case 2: {
		str s = sx_text(0, N + 3, "s"); const str cs = s; str lo = Strings::toLowerCase(cs), up = Strings::toUpperCase(cs), ti = Strings::toTittleCase(cs), l2 = s, u2 = s, t2 = s; Strings::toLowerCase(l2); Strings::toUpperCase(u2); Strings::toTittleCase(t2);
		sx_assert(sx_eq(lo, l2) & sx_eq(up, u2) & sx_eq(ti, t2), "in-place and copying forms agree"); sx_assert(lo.size() == s.size() && up.size() == s.size() && ti.size() == s.size(), "case conversion keeps the length"); bool cap = true; sx_obs(ti, "title");
		for (size_t i = 0; i < s.size(); i++) { uint8_t c = s[i]; bool U = sx_in(c, 'A', 'Z'), L = sx_in(c, 'a', 'z'); uint8_t cl = U ? c + 32 : c, cu = L ? c - 32 : c; sx_assert((uint8_t)lo[i] == cl, "lower case"); sx_assert((uint8_t)up[i] == cu, "upper case"); sx_assert((uint8_t)ti[i] == (cap ? cu : cl), "title case"); cap = (c == ' ') | (c == '-'); } sx_reach("case"); break; }
	case 3: { str s = sx_text(0, N, "s"), t = sx_text(0, P, "t"); auto r = Strings::split(s, t); for (auto& x : r) sx_obs(x, "piece"); same(r, refSplit(s, t)); sx_reach("split"); break; }
	case 4: { str s = sx_text(0, N, "s"), t = sx_str(1, "t"); same(Strings::split(s, t[0]), refSplit(s, t)); sx_reach("splitchar"); break; }
	case 5: {
		std::vector<str> v; uint32_t n = sx_choice(0, 3, "pieces"); for (uint32_t i = 0; i < n; i++) v.push_back(sx_text(0, 2, "piece")); str t = sx_text(0, P, "t"); for (char c : t) sx_assume(c != 0); str w; for (size_t i = 0; i < v.size(); i++) { if (i) w += t; w += v[i]; }
		str r = Strings::join(v, t.c_str()); sx_obs(r, "join"); sx_assert(sx_eq(r, w), "join"); sx_reach("join"); break; }
	case 6: {
		str s = sx_text(0, N, "s"), p = sx_text(1, P, "p"), q = sx_text(0, P, "q"); str w = s; for (size_t i = 0; i < s.size(); i++) if (occursAt(s, p, i)) { w = s.substr(0, i) + q + s.substr(i + p.size()); break; }
		const str cs = s; str r = Strings::replace(cs, p, q); sx_obs(r, "replace"); sx_assert(sx_eq(r, w), "replace"); str u = s; Strings::replace(u, p, q); sx_assert(sx_eq(u, w), "replace in place"); sx_reach("replace"); break; }
	case 7: {
		sx_step_limit(2000000); str s = sx_text(0, N, "s"), p = sx_text(0, P, "p"), q = sx_text(0, P, "q"); const str cs = s; str r = Strings::replaceAll(cs, p, q); sx_obs(r, "replaceAll"); str u = s; Strings::replaceAll(u, p, q); sx_assert(sx_eq(u, r), "in-place and copying forms agree");
		if (p.size()) { str w; for (size_t i = 0; i < s.size();) { if (occursAt(s, p, i)) { w += q; i += p.size(); } else w += s[i++]; } sx_assert(sx_eq(r, w), "replaceAll"); sx_reach("replaceall"); } break; }
	}
}
