//@ src: core/http/cookies.cpp core/http/response.cpp core/http/kvcontainer.cpp core/http/body.cpp core/http/status.cpp core/polyfill/strings.cpp
//@ quick: -DN=7 -DOPS=3 time=200
//@ thorough: -DN=9 -DOPS=4 time=850
//@ merge: std::set<char.*>::contains
//@ flags: -fno-inline
//@ bounds: every cookie header text up to N bytes (7/9); every sequence of up to OPS (3/4) set / set-with-attributes / delete operations on names of 1..2 characters and values of 0..2 characters, starting from an empty jar or from a header holding one cookie; copies, moves and assignments of the result; Set-Cookie headers of a response
//@ reach: parsed ops deleted attrs hit copy response
#include "sx.h"
#include "core/http/http.hpp"
using namespace Lambda::HTTP;
typedef std::string str;
static bool white(char c) { return (c == ' ') | (c == '\t') | (c == '\r') | (c == '\n'); }
static str trim(const str& s) { size_t a = 0, b = s.size(); while (a < b && white(s[a])) a++; while (b > a && white(s[b - 1])) b--; return s.substr(a, b - a); }
static str low(const str& s) { str r = s; for (auto& c : r) c = sx_in(c, 'A', 'Z') ? c + 32 : c; return r; }
struct Q { str key, value; int kind; str prop; };
struct Model { std::vector<std::pair<str, str>> d; std::vector<Q> q;
	str* find(const str& k) { for (auto& e : d) if (sx_fork(sx_eq(e.first, k))) return &e.second; return nullptr; }
	Q* queued(const str& k) { for (auto& e : q) if (sx_fork(sx_eq(e.key, k))) return &e; return nullptr; }
	void put(const str& k, const str& v) { auto* f = find(k); if (f) *f = v; else d.push_back({k, v}); }
	void set(const str& k, const str& v, int kind, const str& prop) { put(k, v); enq(k, v, kind, prop); }
	void enq(const str& k, const str& v, int kind, const str& prop) { Q* f = queued(k); if (f) *f = {k, v, kind, prop}; else q.push_back({k, v, kind, prop}); }
	void del(const str& k) { for (size_t i = 0; i < d.size(); i++) if (sx_fork(sx_eq(d[i].first, k))) { d.erase(d.begin() + i); break; } enq(k, "", 3, ""); } };
static bool starts(const str& s, const str& p) { return s.size() >= p.size() && __builtin_memcmp(s.data(), p.data(), p.size()) == 0; }
// an expiry date before 2020, or a non-positive Max-Age, as an attribute of the (concrete) tail of a Set-Cookie value
static bool expired(const str& tail) {
	size_t i = 0; while (i < tail.size()) {
		if (tail[i] != ';') return false; i++; while (i < tail.size() && tail[i] == ' ') i++; size_t e = tail.find(';', i); if (e == str::npos) e = tail.size(); str a = low(tail.substr(i, e - i)); i = e;
		if (a == "max-age=0" || starts(a, "max-age=-")) return true;
		if (starts(a, "expires=")) { bool month = false; for (const char* m : {"jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec"}) if (a.find(m) != str::npos) month = true; for (size_t j = 8; j + 4 <= a.size(); j++) { int y = 0, k = 0; while (k < 4 && a[j + k] >= '0' && a[j + k] <= '9') y = y * 10 + a[j + k++] - '0'; if (k == 4 && month && y >= 1601 && y < 2020) return true; } }
	} return false;
}
static bool one(const str& s, const Q& q) { // does s carry q
	str h = q.key + "=" + q.value; if (q.kind == 0) return sx_eq(s, h); if (q.kind == 1) return sx_eq(s, h + "; Secure"); if (q.kind == 2) return sx_eq(s, h + "; Path=" + q.prop + "; HttpOnly"); if (!(s.size() > h.size() && sx_fork(starts(s, h)))) return false; return expired(s.substr(h.size()));
}
static void check(const Cookies& c, Model& m) {
	sx_assert(c.size() == m.d.size(), "number of cookies"); for (auto& e : m.d) { sx_assert(c.has(e.first), "cookie present"); sx_assert(sx_eq(c.get(e.first), e.second), "cookie value"); } auto en = c.entries(); sx_assert(en.size() == m.d.size(), "cookie entries"); for (auto& e : en) { str* f = m.find(e.first); sx_assert(f && sx_eq(*f, e.second), "cookie entry"); sx_obs(e.first, "name"); sx_obs(e.second, "value"); }
	auto l = c.serialize(); for (auto& x : l) sx_obs(x, "set-cookie"); sx_assert(l.size() == m.q.size(), "one Set-Cookie value per cookie set or deleted"); if (l.size() != m.q.size()) return; std::vector<bool> used(l.size());
	for (auto& q : m.q) { bool ok = false; for (size_t i = 0; i < l.size() && !ok; i++) if (!used[i] && sx_fork(one(l[i], q))) { ok = true; used[i] = true; } sx_assert(ok, "Set-Cookie value with the last value and attributes"); if (q.kind == 3) sx_reach("deleted"); if (q.kind == 2) sx_reach("attrs"); }
}
void sx_main() {
	Model m;
	if (sx_choice(0, 1, "mode") == 0) {
		str s = sx_text(0, N, "header"); Cookies c(s); size_t i = 0;
		while (i < s.size()) {
			size_t e = i; while (e + 1 < s.size() && !sx_fork((s[e] == ';') & (s[e + 1] == ' '))) e++; bool sep = e + 1 < s.size(); if (!sep) e = s.size(); str p = s.substr(i, e - i); i = sep ? e + 2 : s.size();
			size_t k = 0; while (k < p.size() && !sx_fork(p[k] == '=')) k++; if (k == p.size()) continue; str n = trim(p.substr(0, k)), v = trim(p.substr(k + 1)); if (n.empty() || v.empty()) continue; m.put(low(n), v);
		}
		check(c, m); sx_reach("parsed"); return;
	}
	Cookies c; uint32_t start = sx_choice(0, 1, "start"); str hk;
	if (start) { hk = sx_str(1, "hk"); str hv = sx_str(1, "hv"); for (char x : {hk[0], hv[0]}) sx_assume(!(white(x) | (x == '=') | (x == ';'))); c = Cookies(hk + "=" + hv); m.put(low(hk), hv); }
	uint32_t n = sx_choice(start ? 0 : 1, OPS, "ops");
	for (uint32_t i = 0; i < n; i++) {
		str k = sx_text(1, n < 3 ? 2 : 1, "key"); uint32_t op = sx_choice(0, 3, "op"); if (op == 3) { c.del(k); m.del(low(k)); continue; }
		str v = sx_str(i % 3, "val");
		if (op == 0) { c.set(k, v); m.set(low(k), v, 0, ""); } else if (op == 1) { c.set(k, v, {"Secure"}); m.set(low(k), v, 1, ""); } else { str p = sx_str(1, "prop"); c.set(k, v, {{"Path", p}, "HttpOnly"}); m.set(low(k), v, 2, p); }
	}
	uint32_t how = n == 1 ? sx_choice(0, 6, "how") : 0;
	if (how == 0) { check(c, m); str q = sx_text(1, 1, "probe"); str* f = m.find(low(q)); sx_assert(c.has(q) == (f != nullptr), "found in any letter case"); sx_assert(sx_eq(c.get(q), f ? *f : str()), "value in any letter case"); if (f) sx_reach("hit"); }
	if (how == 1) { Cookies d(c); c.set("zz", "1"); check(d, m); sx_reach("copy"); }
	if (how == 2) { Cookies d; d.set("zz", "1"); d = c; c.del("q"); check(d, m); }
	if (how == 3) { Cookies d(std::move(c)); check(d, m); }
	if (how == 4) { Cookies d; d.set("zz", "1"); d = std::move(c); check(d, m); }
	if (how == 5) { Cookies& r = c; c = r; check(c, m); }
	if (how == 6) { Response r; r.setCookies(c); auto l = r.headers.getAll("set-cookie"); sx_assert(l.size() == m.q.size(), "response carries each Set-Cookie value once"); for (size_t i = 0; i < l.size() && i < m.q.size(); i++) sx_assert(one(l[i], m.q[i]), "response Set-Cookie value"); sx_reach("response"); }
	sx_reach("ops");
}
