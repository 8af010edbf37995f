//@ src: core/http/urlsearchparams.cpp core/http/kvcontainer.cpp core/polyfill/strings.cpp
//@ quick: -DMAX=129 time=150
//@ thorough: -DMAX=4097 time=800
//@ merge: std::set<char.*>::contains
//@ flags: -fno-inline
//@ bounds: up to 40 pairs, keys repeated or not, some lacking a key or a value; keys and values of 3 to 8 characters and of the lengths around every power of two up to MAX (129/4097) with arbitrary bytes at their ends
//@ reach: many long repeated lacking
// Many and long parameters.
#include "large.h"
#include "core/http/http.hpp"
using namespace Lambda::HTTP;
typedef std::string str;
static str low(const str& s) { str r = s; for (auto& c : r) c = sx_in(c, 'A', 'Z') ? c + 32 : c; return r; }
typedef std::vector<std::pair<str, str>> M;
static void put(M& m, const str& k, const str& v) { for (auto& e : m) if (sx_fork(sx_eq(e.first, k))) { e.second = v; return; } m.push_back({k, v}); }
static void check(const URLSearchParams& p, M& m, const char* what) { sx_assert(p.size() == m.size(), what); for (auto& e : m) { sx_assert(p.has(e.first) && sx_eq(p.get(e.first), e.second), what); str u = e.first; for (size_t i = 0; i < u.size(); i += 2) u[i] = sx_in(u[i], 'a', 'z') ? u[i] - 32 : u[i]; sx_assert(sx_eq(p.get(u), e.second), what); } }
void sx_main() {
	M m; str t;
	if (sx_choice(0, 1, "mode") == 0) {
		static const uint32_t cnt[] = {2, 3, 8, 17, 40}; uint32_t n = cnt[sx_choice(0, 4, "pairs")], kind = sx_choice(0, 2, "kind"), at = sx_choice(0, 2, "at"); at = at == 0 ? 0 : at == 1 ? n / 2 : n - 1;
		for (uint32_t i = 0; i < n; i++) { uint32_t j = kind == 1 ? i % 3 : i; str k = "k" + str(1, 'a' + j % 26) + str(1, 'A' + j / 26), v = "v" + std::to_string(i); if (i == at) { v = sx_str(2, "v"); for (char c : v) sx_assume(sx_in(c, 0x21, 0x7e) & (c != '&')); } if (i) t += "&"; if (kind == 2 && i % 4 == 1) { t += i % 8 == 1 ? "=" + v : i % 8 == 5 ? k + "=" : k; if (i == at) return; continue; } t += k + "=" + v; put(m, low(k), v); }
		if (kind == 1) sx_reach("repeated"); if (kind == 2) sx_reach("lacking"); sx_reach("many");
	} else {
		size_t n = sx_size(3, 8, MAX, "keylen"), l = sx_size(3, 8, MAX, "vallen"); if (n > 20 && l > 20 && n != l) sx_drop(); str k = sx_large(n, "key"), v = sx_large(l, "value"), k2 = k; k2[n / 2] = '_'; for (char c : str{k[0], k[n - 1], v[0], v[l - 1]}) sx_assume(sx_in(c, 0x21, 0x7e) & (c != '&') & (c != '?')); for (char c : str{k[0], k[n - 1]}) sx_assume(c != '='); t = k + "=" + v + "&" + k2 + "=2"; put(m, low(k), v); put(m, low(k2), "2"); sx_reach("long");
	}
	URLSearchParams p(t); for (auto& e : p.entries()) sx_obs(e.first + "=" + e.second, "pair"); check(p, m, "parsed pairs"); URLSearchParams q("?" + t); check(q, m, "parsed pairs"); URLSearchParams r(p.stringify()); check(r, m, "serialized parameters parse to the same parameters"); p.set("new", "x"); put(m, "new", "x"); p.del(m[0].first); m.erase(m.begin()); check(p, m, "after changing them");
}
