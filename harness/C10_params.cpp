//@ src: core/http/urlsearchparams.cpp core/http/kvcontainer.cpp core/polyfill/strings.cpp
//@ quick: -DN=7 time=200
//@ thorough: -DN=9 time=850
//@ merge: std::set<char.*>::contains
//@ flags: -fno-inline
//@ bounds: every query text up to N bytes (7/9) of any values, with or without a leading '?'; parameters set by the application with keys and values of 1..2 characters
//@ reach: parsed qvalue roundtrip set hit
#include "sx.h"
#include "core/http/http.hpp"
using namespace Lambda::HTTP;
typedef std::string str;
static bool white(char c) { return (c == ' ') | (c == '\t') | (c == '\r') | (c == '\n'); }
static str trim(const str& s) { size_t a = 0, b = s.size(); while (a < b && white(s[a])) a++; while (b > a && white(s[b - 1])) b--; return s.substr(a, b - a); }
static str low(const str& s) { str r = s; for (auto& c : r) c = sx_in(c, 'A', 'Z') ? c + 32 : c; return r; }
typedef std::vector<std::pair<str, str>> M;
static str* find(M& m, const str& k) { for (auto& e : m) if (sx_fork(sx_eq(e.first, k))) return &e.second; return nullptr; }
static void check(const URLSearchParams& p, M& m, const char* what) { auto en = p.entries(); sx_assert(en.size() == m.size(), what); for (auto& e : en) { str* f = find(m, e.first); sx_assert(f && sx_eq(*f, e.second), what); } for (auto& e : m) { sx_assert(p.has(e.first), what); sx_assert(sx_eq(p.get(e.first), e.second), what); } }
static bool hasq(const str& s) { bool r = false; for (char c : s) r = r | (c == '?'); return r; }
void sx_main() {
	M m;
	if (sx_choice(0, 1, "mode") == 0) {
		str s = sx_text(0, N, "query"); size_t i = 0; if (s.size() && sx_fork(s[0] == '?')) i = 1; else { bool eq = false; for (char c : s) { sx_assume(eq | (c != '?')); eq = eq | (c == '=') | (c == '&'); } } // text before a first '?' would be a URL path
		URLSearchParams p(s); bool q = false;
		while (i < s.size()) {
			size_t e = i; while (e < s.size() && !sx_fork(s[e] == '&')) e++; str x = s.substr(i, e - i); i = e + 1; size_t k = 0; while (k < x.size() && !sx_fork(x[k] == '=')) k++; if (k == x.size()) continue; str n = trim(x.substr(0, k)), v = trim(x.substr(k + 1)); if (n.empty() || v.empty()) continue;
			if (sx_fork(hasq(n))) q = true; if (hasq(v)) sx_reach("qvalue"); n = low(n); str* f = find(m, n); if (f) *f = v; else m.push_back({n, v});
		}
		for (auto& e : p.entries()) { sx_obs(e.first, "k"); sx_obs(e.second, "v"); } check(p, m, "parsed pairs"); sx_reach("parsed"); if (m.size()) { str u = m[0].first; for (auto& c : u) c = sx_in(c, 'a', 'z') ? c - 32 : c; sx_assert(sx_eq(p.get(u), m[0].second), "found in any letter case"); sx_reach("hit"); }
		if (!q) { str t = p.stringify(); sx_obs(t, "text"); URLSearchParams r(t); check(r, m, "serialized parameters parse to the same parameters"); URLSearchParams r2("?" + t); check(r2, m, "serialized parameters parse to the same parameters"); sx_reach("roundtrip"); }
	} else {
		URLSearchParams p; uint32_t n = sx_choice(1, 2, "n"); for (uint32_t i = 0; i < n; i++) { str k = sx_text(1, 2, "k"), v = sx_text(1, 2, "v"); for (char c : k) sx_assume(!(white(c) | (c == '&') | (c == '=') | (c == '?'))); for (char c : v) sx_assume(!(white(c) | (c == '&'))); p.set(k, v); k = low(k); str* f = find(m, k); if (f) *f = v; else m.push_back({k, v}); }
		URLSearchParams r(p.stringify()); check(r, m, "serialized parameters parse to the same parameters"); sx_reach("set");
	}
}
