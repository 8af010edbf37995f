//@ src: core/http/kvcontainer.cpp core/polyfill/strings.cpp
//@ quick: -DOPS=3 -DK=2 -DV=2 -DLONG=3 time=200
//@ thorough: -DOPS=4 -DK=2 -DV=2 -DLONG=3 time=850
//@ merge: std::set<char.*>::contains
//@ flags: -fno-inline
//@ bounds: every sequence of up to OPS operations (3/4) of set, append, delete, with keys of 1..2 characters (sequences of fewer than LONG (2/3) operations; 1 character for longer ones) of any byte value and values up to V bytes (2), followed by a lookup under any key; list construction from up to 2 pairs; copy, move, assignment and self-assignment of the result
//@ reach: ops hit miss list copied moved
#include "sx.h"
#include "core/http/http.hpp"
using namespace Lambda::HTTP;
typedef std::string str;
static str low(const str& s) { str r = s; for (auto& c : r) c = sx_in(c, 'A', 'Z') ? c + 32 : c; return r; }
static bool white(char c) { return (c == ' ') | (c == '\t') | (c == '\r') | (c == '\n'); }
static str trim(const str& s) { size_t a = 0, b = s.size(); while (a < b && white(s[a])) a++; while (b > a && white(s[b - 1])) b--; return s.substr(a, b - a); }
struct Model { std::vector<std::pair<str, std::vector<str>>> d;
	std::vector<str>* find(const str& k) { for (auto& e : d) if (sx_fork(sx_eq(e.first, k))) return &e.second; return nullptr; }
	void append(const str& k, const str& v) { auto* f = find(k); if (f) f->push_back(v); else d.push_back({k, {v}}); }
	void set(const str& k, const str& v) { auto* f = find(k); if (f) *f = {v}; else d.push_back({k, {v}}); }
	void del(const str& k) { for (size_t i = 0; i < d.size(); i++) if (sx_fork(sx_eq(d[i].first, k))) { d.erase(d.begin() + i); return; } } };
static void same(const std::vector<str>& a, const std::vector<str>& b) { sx_assert(a.size() == b.size(), "number of values"); for (size_t i = 0; i < a.size(); i++) sx_assert(sx_eq(a[i], b[i]), "values in insertion order"); }
static void check(const Headers& h, Model& m, bool probe, uint32_t n = 0) {
	sx_assert(h.size() == m.d.size(), "size is the number of keys"); size_t tot = 0; for (auto& e : m.d) tot += e.second.size(); auto en = h.entries(); sx_assert(en.size() == tot, "entry list size");
	for (auto& e : m.d) { same(h.getAll(e.first), e.second); sx_assert(h.has(e.first), "present"); sx_assert(sx_eq(h.get(e.first), e.second[0]), "get gives the first value"); }
	for (size_t i = 0; i < en.size();) { auto* f = m.find(en[i].first); sx_assert(f, "entry list key"); if (!f) return; for (auto& v : *f) { sx_assert(i < en.size() && sx_eq(en[i].second, v), "entry list values"); i++; } }
	for (auto& e : en) { sx_obs(e.first, "key"); sx_obs(e.second, "value"); }
	if (probe) { str q = sx_text(1, n < LONG ? K : 1, "probe"); auto* f = m.find(low(q)); sx_reach(f ? "hit" : "miss"); sx_assert(h.has(q) == (f != nullptr), "has"); same(h.getAll(q), f ? *f : std::vector<str>()); sx_assert(sx_eq(h.get(q), f ? (*f)[0] : str()), "get in any letter case"); }
}
void sx_main() {
	Headers h; Model m;
	if (sx_choice(0, 1, "mode") == 0) {
		uint32_t n = sx_choice(0, OPS, "ops");
		for (uint32_t i = 0; i < n; i++) {
			uint32_t op = sx_choice(0, 2, "op"); str k = sx_text(1, n < LONG ? K : 1, "key");
			if (op == 2) { h.del(k); m.del(low(k)); continue; }
			str v = sx_text(i % 3, i % 3 > V ? V : i % 3, "val"); if (op == 0) { h.set(k, v); m.set(low(k), v); } else { h.append(k, v); m.append(low(k), v); }
		}
		check(h, m, true, n); sx_reach("ops");
	} else {
		str a = sx_text(1, 2, "k1"), b = sx_text(1, 1, "k2"), v = sx_text(0, 2, "v1"), w = sx_text(0, 1, "v2");
		Headers l({{a, v}, {b, w}}); m.append(low(trim(a)), trim(v)); m.append(low(trim(b)), trim(w)); check(l, m, false); sx_reach("list"); uint32_t how = sx_choice(0, 4, "how");
		if (how == 0) { Headers c(l); l.set("zz", "x"); check(c, m, false); sx_reach("copied"); }
		if (how == 1) { Headers c; c.set("q", "w"); c = l; l.del(a); check(c, m, false); }
		if (how == 2) { Headers c(std::move(l)); check(c, m, false); sx_reach("moved"); }
		if (how == 3) { Headers c; c.set("q", "w"); c = std::move(l); check(c, m, false); }
		if (how == 4) { Headers& r = l; l = r; check(l, m, false); }
	}
}
