//@ src: core/json/*.cpp core/polyfill/strings.cpp
//@ quick: -DMAX=1025 time=150
//@ thorough: -DMAX=16384 time=800
//@ merge: std::set<char.*>::contains
//@ flags: -fno-inline
//@ bounds: strings and keys of the lengths around every power of two from 15 to MAX (1025/16384) with a byte of any value at the start, the middle or the end; arrays and maps of up to 70 elements of mixed types, one a string with a symbolic byte; nesting up to 40 deep with a string between
//@ reach: long key array map deep
// Long strings, many elements and deep nesting.
#include "large.h"
#include "json_cmp.h"
static V str_(const str& s) { V v = mk('s'); v.s = s; return v; }
static V int_(int32_t i) { V v = mk('i'); v.i = i; return v; }
static V mixed(uint32_t i) { switch (i % 6) { case 0: return int_((int32_t)(i * 2654435761u)); case 1: return str_("s\\\"" + std::to_string(i)); case 2: return mk('n'); case 3: { V v = mk('b'); v.i = i & 1; return v; } case 4: { V v = mk('a'); v.a.push_back(int_(-(int32_t)i)); v.a.push_back(str_("],[")); return v; } default: { V v = mk('m'); v.m.push_back({"k:{", int_(i)}); v.m.push_back({"}", mk('a')}); return v; } } }
void sx_main() {
	V v; uint32_t shape = sx_choice(0, 4, "shape");
	if (shape < 2) { size_t n = sx_size(15, 15, MAX, "length"); uint32_t w = sx_choice(0, 2, "where"); str s = sx_large(n, "byte", {w == 0 ? 0L : w == 1 ? (long)n / 2 : -1L}); if (shape == 0) { v = str_(s); sx_reach("long"); } else { v = mk('m'); v.m.push_back({"before", int_(1)}); v.m.push_back({s, str_(s)}); v.m.push_back({"zz", mk('a')}); sx_reach("key"); } }
	else if (shape < 4) { static const uint32_t cnt[] = {3, 8, 17, 33, 70}; uint32_t n = cnt[sx_choice(0, 4, "elements")], at = sx_choice(0, 2, "at"); at = at == 0 ? 0 : at == 1 ? n / 2 : n - 1; v = mk(shape == 2 ? 'a' : 'm'); for (uint32_t i = 0; i < n; i++) { V e = i == at ? str_(sx_str(1, "s")) : mixed(i); if (shape == 2) v.a.push_back(e); else v.m.push_back({"key " + std::to_string(i * 7919 % 1000), e}); } sx_reach(shape == 2 ? "array" : "map"); }
	else { static const uint32_t dep[] = {5, 12, 40}; uint32_t n = dep[sx_choice(0, 2, "depth")], kind = sx_choice(0, 2, "kind"); v = str_(sx_str(1, "s")); for (uint32_t i = 0; i < n; i++) { V o = mk(kind == 0 || (kind == 2 && i & 1) ? 'a' : 'm'); if (o.t == 'a') { o.a.push_back(int_(i)); o.a.push_back(v); if (i % 3) o.a.push_back(mk('n')); } else { o.m.push_back({"a", v}); o.m.push_back({"b", str_("}]")}); } v = o; } sx_reach("deep"); }
	str t = JSON::stringify(prop(v)); R r(t); V back = r.value(); r.ws(); sx_assert(r.ok && r.p == t.size(), "serialized form is valid JSON"); if (r.ok) eqv(back, v, "serialized form denotes the value");
	bool threw = false; try { same(JSON::parse(t), v, "parsing the serialized form gives the value back"); } catch (const std::exception&) { threw = true; } sx_assert(!threw, "serialized form can be parsed");
}
