//@ src: core/http/cookies.cpp core/http/response.cpp core/http/kvcontainer.cpp core/http/body.cpp core/http/status.cpp core/polyfill/strings.cpp
//@ quick: -DMAX=129 time=150
//@ thorough: -DMAX=4097 time=800
//@ merge: std::set<char.*>::contains
//@ flags: -fno-inline
//@ bounds: cookie headers of up to 20 cookies and set and delete sequences of up to 12 operations on up to 20 names; names and values of 3 to 6 characters and of the lengths around every power of two up to MAX (129/4097) with arbitrary bytes at the ends
//@ reach: many long received ops
// Many and long cookies.
#include "large.h"
#include "core/http/http.hpp"
using namespace Lambda::HTTP;
typedef std::string str;
static str low(const str& s) { str r = s; for (auto& c : r) c = sx_in(c, 'A', 'Z') ? c + 32 : c; return r; }
static str cased(str s, uint32_t m) { for (size_t i = 0; i < s.size(); i++) if (s[i] >= 'a' && s[i] <= 'z' && (m == 1 || (m == 2 && i % 2))) s[i] -= 32; return s; }
static bool plain(char c) { return sx_in(c, 0x21, 0x7e) & (c != '=') & (c != ';') & (c != ','); }
static bool starts(const str& s, const str& p) { return s.size() >= p.size() && sx_eq(s.substr(0, p.size()), p); }
struct M { std::vector<std::pair<str, str>> d, q; // q: last Set-Cookie start; an empty value of a deleted one is marked by a NUL
	void put(std::vector<std::pair<str, str>>& v, const str& k, const str& x) { for (auto& e : v) if (sx_fork(sx_eq(low(e.first), low(k)))) { e = {k, x}; return; } v.push_back({k, x}); }
	void del(const str& k) { for (size_t i = 0; i < d.size(); i++) if (sx_fork(sx_eq(low(d[i].first), low(k)))) { d.erase(d.begin() + i); break; } } };
static void check(const Cookies& c, M& m) {
	sx_assert(c.size() == m.d.size(), "number of cookies"); for (auto& e : m.d) for (uint32_t i = 0; i < 3; i++) { str k = cased(low(e.first), i); sx_assert(c.has(k) && sx_eq(c.get(k), e.second), "cookie value in any letter case"); }
	auto l = c.serialize(); sx_assert(l.size() == m.q.size(), "one Set-Cookie value per cookie set or deleted"); for (auto& q : m.q) { int n = 0; for (auto& x : l) { bool gone = q.second.size() == 1 && q.second[0] == 0; str h = q.first + "=" + (gone ? str() : q.second); if (gone ? starts(x, h + ";") : sx_eq(x, h)) n++; } sx_assert(n == 1, "Set-Cookie value"); } for (auto& x : l) sx_obs(x, "set-cookie");
}
void sx_main() {
	M m;
	if (sx_choice(0, 1, "mode") == 0) {
		uint32_t start = sx_choice(0, 4, "received"), rep = sx_choice(0, 1, "repeated"); static const uint32_t cnt[] = {0, 1, 3, 8, 20}; str h; for (uint32_t i = 0; i < cnt[start]; i++) { str k = cased("c" + str(1, 'a' + (rep ? i % 5 : i)), i % 3), v = "v" + std::to_string(i); if (i == cnt[start] / 2) { v = sx_str(2, "v"); for (char c : v) sx_assume(plain(c)); } h += (i ? "; " : "") + k + "=" + v; m.put(m.d, low(k), v); } Cookies c(h); if (start) sx_reach("received");
		static const uint32_t ops[] = {0, 1, 4, 12}; uint32_t n = ops[sx_choice(0, 3, "ops")], mul = sx_choice(0, 2, "pattern"); for (uint32_t i = 0; i < n; i++) { uint32_t j = mul == 0 ? i : mul == 1 ? i % 3 : (i * 5) % 20; str k = "c" + str(1, 'a' + j); bool last = i + 1 == n; bool del = last ? sx_choice(0, 1, "delete") : i % 3 == 2; if (del) { c.del(k); m.del(k); m.put(m.q, k, str(1, 0)); } else { str v = last ? sx_str(1, "val") : "n" + std::to_string(i); if (last) sx_assume(v[0] != 0); c.set(k, v); m.put(m.d, k, v); m.put(m.q, k, v); } sx_reach("ops"); }
		check(c, m); Cookies d(c), e; e = std::move(d); check(e, m); sx_reach("many");
	} else {
		size_t n = sx_size(3, 6, MAX, "namelen"), l = sx_size(3, 6, MAX, "vallen"); if (n > 20 && l > 20 && n != l) sx_drop(); str k = sx_large(n, "name", {-1}), v = sx_large(l, "value"); for (char c : str{k[n - 1], v[0], v[l - 1]}) sx_assume(plain(c)); Cookies c("a=1; " + k + "=" + v + "; b=2"); m.d = {{"a", "1"}, {low(k), v}, {"b", "2"}}; check(c, m); str w = sx_large(l + 1, "newvalue"); c.set(k, w); m.put(m.d, k, w); m.put(m.q, low(k), w); check(c, m); c.del(k); m.del(k); m.put(m.q, low(k), str(1, 0)); check(c, m); sx_reach("long");
	}
}
