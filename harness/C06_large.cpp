//@ src: core/polyfill/strings.cpp
//@ quick: -DMAX=257 time=150
//@ thorough: -DMAX=2049 time=800
//@ merge: std::set<char.*>::contains
//@ flags: -fno-inline
//@ bounds: texts of 12 to 20 characters and of the lengths around every power of two up to MAX (257/2049), with two or three arbitrary characters at the ends or the middle, or made of repeated short blocks; patterns, separators and replacements of 0 to 300 characters out of a list; up to 40 pieces
//@ reach: trim case split join replace predicates
// Long texts.
#include "large.h"
#include "core/polyfill/polyfill.hpp"
using namespace Lambda;
typedef std::string str;
static bool occursAt(const str& s, const str& p, size_t i) { return i + p.size() <= s.size() && sx_fork(__builtin_memcmp(s.data() + i, p.data(), p.size()) == 0); }
static bool white(char c) { return (c == ' ') | (c == '\t') | (c == '\r') | (c == '\n'); }
static str rep(const char* b, size_t n) { str r, x(b); while (r.size() < n) r += x; r.resize(n); return r; }
void sx_main() {
	size_t n = sx_size(12, 20, MAX, "n");
	switch (sx_choice(0, 3, "mode")) {
	case 0: {
		str s = sx_large(n, "byte", {0, 1, -1, -2}); if (sx_choice(0, 1, "blanks")) for (size_t i = 2; i < n / 2 + 2 && i < n - 2; i++) s[i] = " \t\r\n"[i % 4]; size_t a = 0, b = n; while (a < b && sx_fork(white(s[a]))) a++; while (b > a && sx_fork(white(s[b - 1]))) b--; str w = s.substr(a, b - a); const str cs = s; sx_assert(sx_eq(Strings::trim(cs), w), "trim"); Strings::trim(s); sx_assert(sx_eq(s, w), "trim in place"); sx_reach("trim"); break; }
	case 1: {
		str s = sx_large(n, "byte", {0, 7, (long)n / 2, -1}); for (size_t i = 5; i + 1 < n; i += 9) s[i] = i % 2 ? ' ' : '-'; const str cs = s; str lo = Strings::toLowerCase(cs), up = Strings::toUpperCase(cs), ti = Strings::toTittleCase(cs); sx_assert(lo.size() == n && up.size() == n && ti.size() == n, "case conversion keeps the length"); bool cap = true;
		for (size_t i = 0; i < n; i++) { uint8_t c = s[i]; bool U = sx_in(c, 'A', 'Z'), L = sx_in(c, 'a', 'z'); uint8_t cl = U ? c + 32 : c, cu = L ? c - 32 : c; sx_assert((uint8_t)lo[i] == cl, "lower case"); sx_assert((uint8_t)up[i] == cu, "upper case"); sx_assert((uint8_t)ti[i] == (cap ? cu : cl), "title case"); cap = (c == ' ') | (c == '-'); } sx_reach("case"); break; }
	case 2: { // repeated blocks: split, join, replace
		static const char* blocks[] = {"ab", "aab", "a", "a,b", ",,x", "abcabd"}; static const char* pats[] = {"a", "ab", "aa", ",", "abd", "abcabd", ",,", "bb", "abcdefghijklmnopqrstuvwxyz"}; str s = rep(blocks[sx_choice(0, 5, "block")], n), p = pats[sx_choice(0, 8, "pattern")]; uint32_t q = sx_choice(0, 4, "with"); str w = q == 0 ? str() : q == 1 ? p + p : q == 2 ? str("x") : q == 3 ? str(300, 'r') : p.substr(0, p.size() - 1); if (n > 40 && q == 3) sx_drop(); if (sx_choice(0, 1, "tail")) sx_sym(&s[n - 1], 1, "byte"); else sx_sym(&s[n / 2], 1, "byte");
		str all, one; std::vector<str> pieces; str cur; bool any = false, tail = false; for (size_t i = 0; i < n;) { if (occursAt(s, p, i)) { all += w; if (!any) one = s.substr(0, i) + w + s.substr(i + p.size()); pieces.push_back(cur); cur.clear(); i += p.size(); any = true; } else { all += s[i]; cur += s[i++]; } } if (!any) one = s; if (cur.size()) pieces.push_back(cur); (void)tail;
		const str cs = s; sx_assert(sx_eq(Strings::replaceAll(cs, p, w), all), "replaceAll"); sx_assert(sx_eq(Strings::replace(cs, p, w), one), "replace"); auto g = Strings::split(s, p); sx_assert(g.size() == pieces.size(), "number of pieces"); for (size_t i = 0; i < g.size() && i < pieces.size(); i++) sx_assert(sx_eq(g[i], pieces[i]), "piece"); str j; for (size_t i = 0; i < g.size(); i++) { if (i) j += w; j += g[i]; } sx_assert(sx_eq(Strings::join(g, w.c_str()), j), "join"); sx_reach("split"); sx_reach("join"); sx_reach("replace"); break; }
	case 3: {
		str s = sx_large(n, "byte", {0, (long)n / 2, -1}); size_t k = sx_choice(0, 3, "patlen"); k = k == 0 ? 1 : k == 1 ? n / 2 : k == 2 ? n - 1 : n; size_t at = sx_choice(0, 2, "at"); at = at == 0 ? 0 : at == 1 ? (n - k) / 2 : n - k; str p = s.substr(at, k); bool change = sx_choice(0, 1, "change"); if (change) p[k - 1] = sx_byte("last"); bool in = false; for (size_t i = 0; i + k <= n && !in; i++) in = occursAt(s, p, i);
		sx_assert(Strings::includes(s, p) == in, "includes"); sx_assert(Strings::startsWith(s, p) == occursAt(s, p, 0), "startsWith"); sx_assert(Strings::endsWith(s, p) == occursAt(s, p, n - k), "endsWith"); sx_assert(!Strings::includes(s, s + "x") && !Strings::startsWith(s, s + "x") && !Strings::endsWith(s, "x" + s), "longer patterns"); sx_reach("predicates"); break; }
	}
}
