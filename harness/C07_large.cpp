//@ src: core/http/kvcontainer.cpp core/polyfill/strings.cpp
//@ quick: -DM=5 -DMAX=129 time=150
//@ thorough: -DM=9 -DMAX=2049 time=800
//@ merge: std::set<char.*>::contains
//@ flags: -fno-inline
//@ bounds: containers of up to 40 keys with up to 12 values each, built by append, set or from a list, in three orders; then up to two operations on any of the keys in upper, lower or mixed case or on a new key; keys and values of 3 to 6 characters and of the lengths around every power of two up to MAX (129/2049) with arbitrary first and last bytes
//@ reach: many long op list
// Many and long entries.
#include "large.h"
#include "core/http/http.hpp"
using namespace Lambda::HTTP;
typedef std::string str;
static str low(const str& s) { str r = s; for (auto& c : r) c = sx_in(c, 'A', 'Z') ? c + 32 : c; return r; }
static str cased(str s, uint32_t m) { for (size_t i = 0; i < s.size(); i++) if (s[i] >= 'a' && s[i] <= 'z' && (m == 1 || (m == 2 && i % 2))) s[i] -= 32; return s; }
struct Model { std::vector<std::pair<str, std::vector<str>>> d;
	std::vector<str>* find(const str& k) { for (auto& e : d) if (sx_fork(sx_eq(e.first, k))) return &e.second; return nullptr; }
	void append(const str& k, const str& v) { auto* f = find(k); if (f) f->push_back(v); else d.push_back({k, {v}}); }
	void set(const str& k, const str& v) { auto* f = find(k); if (f) *f = {v}; else d.push_back({k, {v}}); }
	void del(const str& k) { for (size_t i = 0; i < d.size(); i++) if (sx_fork(sx_eq(d[i].first, k))) { d.erase(d.begin() + i); return; } } };
static void check(const Headers& h, Model& m) {
	sx_assert(h.size() == m.d.size(), "size is the number of keys"); size_t tot = 0; for (auto& e : m.d) tot += e.second.size(); auto en = h.entries(); sx_assert(en.size() == tot, "entry list size");
	for (auto& e : m.d) { auto a = h.getAll(e.first); sx_assert(a.size() == e.second.size(), "number of values"); for (size_t i = 0; i < a.size(); i++) sx_assert(sx_eq(a[i], e.second[i]), "values in insertion order"); sx_assert(h.has(e.first) && sx_eq(h.get(e.first), e.second[0]), "first value"); str u = cased(e.first, 1); sx_assert(h.has(u) && sx_eq(h.get(u), e.second[0]), "found in capitals"); }
	for (size_t i = 0; i < en.size();) { auto* f = m.find(en[i].first); sx_assert(f, "entry list key"); if (!f) return; for (auto& v : *f) { sx_assert(i < en.size() && sx_eq(en[i].second, v), "entry list values"); i++; } }
}
void sx_main() {
	Model m; uint32_t mode = sx_choice(0, 1, "mode");
	if (mode == 0) {
		static const uint32_t nk[] = {2, 3, 5, 7, 8, 9, 16, 17, 40}, nv[] = {1, 2, 3, 12}; uint32_t keys = nk[sx_choice(0, M < 8 ? M : 8, "keys")], vals = nv[sx_choice(0, 3, "values")], order = sx_choice(0, 2, "order"), list = sx_choice(0, 1, "list"); std::vector<std::pair<str, str>> all;
		for (uint32_t v = 0; v < vals; v++) for (uint32_t i = 0; i < keys; i++) { uint32_t k = order == 0 ? i : order == 1 ? keys - 1 - i : (i * 7 + 3) % keys; if (order == 2 && keys == 7) k = i; all.push_back({cased("k" + str(1, 'a' + k % 26) + str(1, 'a' + k / 26), (v + i) % 3), std::to_string(v) + "." + std::to_string(k)}); }
		Headers h; if (list) { h = Headers({all[0], all[1]}); for (size_t i = 2; i < all.size(); i++) h.append(all[i].first, all[i].second); sx_reach("list"); } else for (auto& e : all) h.append(e.first, e.second); for (auto& e : all) m.append(low(e.first), e.second);
		uint32_t n = sx_choice(0, vals < 3 && !order && !list ? 2 : 1, "ops"); for (uint32_t i = 0; i < n; i++) { uint32_t op = sx_choice(0, 2, "op"), k = sx_choice(0, 3, "which"); k = k == 0 ? 0 : k == 1 ? keys / 2 : k == 2 ? keys - 1 : 60; str key = cased("k" + str(1, 'a' + k % 26) + str(1, 'a' + k / 26), sx_choice(0, 2, "case")), v = sx_str(1, "val"); if (op == 0) { h.set(key, v); m.set(low(key), v); } else if (op == 1) { h.append(key, v); m.append(low(key), v); } else { h.del(key); m.del(low(key)); } sx_reach("op"); }
		check(h, m); Headers c(h); check(c, m); Headers d; d = std::move(c); check(d, m); for (auto& e : d.entries()) sx_obs(e.first + e.second, "entry"); sx_reach("many");
	} else {
		size_t n = sx_size(3, 6, MAX, "keylen"), l = sx_size(3, 6, MAX, "vallen"); if (n > 20 && l > 20 && n != l) sx_drop(); str k = sx_large(n, "key"), v = sx_large(l, "value"), k2 = k; k2[n - 1] = sx_byte("other"); Headers h; h.set(k, v); m.set(low(k), v); h.append(k2, "second"); m.append(low(k2), "second"); if (sx_choice(0, 1, "again")) { str u = cased(low(k), 2); h.append(u, v + "x"); m.append(low(k), v + "x"); } check(h, m); str p = cased(low(k2), 2); sx_assert(h.has(p), "found in mixed case"); h.del(p); m.del(low(k2)); check(h, m); sx_reach("long");
	}
}
