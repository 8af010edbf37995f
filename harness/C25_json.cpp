//@ src: core/json/*.cpp core/polyfill/strings.cpp
//@ quick: -DS=2 -DDIG=999 time=200
//@ thorough: -DS=3 -DDIG=9999 time=850
//@ merge: std::set<char.*>::contains
//@ flags: -fno-inline
//@ bounds: strings and keys of up to S bytes (2/3) of any value, strings inside of arrays and maps of one byte (two when nested) among the JSON structure characters, the backslash, a line feed, a blank and a letter; integers of absolute value up to DIG (999/9999) plus the extremes and every power of ten of the 32-bit range; arrays and maps of up to 2 elements, nested up to 3 deep
//@ reach: string int array map nested empty null bool
#include "sx.h"
#include "core/json/json.hpp"
#include <stdexcept>
using namespace Lambda;
#include "json_cmp.h"
// strings inside of other values: the bytes that matter to the structure, an escaped control byte and any other one
static str part(size_t a, size_t b, const char* n) { str s = sx_text(a, b, n); for (char c : s) sx_assume(sx_oneof(c, "\",[]{}:\\\n a")); return s; }
static V leaf(uint32_t k, size_t n) { V v; switch (k) { case 0: v.t = 's'; v.s = part(n > 1 ? n : 0, n, "s"); break; case 1: v.t = 'i'; v.i = (int32_t)sx_choice(0, 8, "small") - 4; break; case 2: v.t = 'n'; break; case 3: v.t = 'a'; break; case 4: v.t = 'm'; break; default: v.t = 'b'; v.i = k & 1; } return v; }
void sx_main() {
	V v; uint32_t shape = sx_choice(0, 6, "shape");
	switch (shape) {
	case 0: v = mk('s'); v.s = sx_text(0, S, "s"); sx_reach("string"); break;
	case 1: { v = mk('i'); uint32_t x = sx_u32("int"); v.i = (int32_t)x; uint32_t k = sx_choice(0, 13, "magnitude"); if (k == 0) sx_assume(v.i >= -DIG && v.i <= DIG); else { static const int32_t t[] = {INT32_MAX, INT32_MIN, INT32_MIN + 1, 9999, 10000, 65535, 65536, 99999, 999999, 9999999, 99999999, 999999999, 1000000000}; v.i = t[k - 1]; if (k > 3 && sx_choice(0, 1, "neg")) v.i = -v.i; } sx_reach("int"); break; }
	case 2: v = mk('b'); v.i = sx_choice(0, 1, "b"); sx_reach("bool"); break;
	case 3: { v = mk('a'); uint32_t n = sx_choice(0, 2, "n"); if (!n) sx_reach("empty"); for (uint32_t i = 0; i < n; i++) v.a.push_back(leaf(sx_choice(0, 6, "kind"), 1)); sx_reach("array"); break; }
	case 4: { v = mk('m'); uint32_t n = sx_choice(0, 2, "n"); if (!n) sx_reach("empty"); for (uint32_t i = 0; i < n; i++) { str k = n == 1 ? sx_text(0, S, "key") : part(0, 1, "key"); for (auto& e : v.m) if (sx_fork(sx_eq(e.first, k))) sx_drop(); v.m.push_back({k, leaf(sx_choice(0, i ? 2 : 6, "kind"), 1)}); } sx_reach("map"); break; }
	case 5: { // nesting, structure characters inside strings next to structure
		uint32_t o = sx_choice(0, 3, "nest"); V in = leaf(0, 2); V mid = mk(o & 1 ? 'a' : 'm'); if (o & 1) { mid.a.push_back(in); mid.a.push_back(mk('a')); } else mid.m.push_back({part(1, 1, "key"), in}); v = mk(o & 2 ? 'a' : 'm'); if (o & 2) { v.a.push_back(mid); v.a.push_back(mk('n')); } else { v.m.push_back({"k", mid}); V t = mk('i'); t.i = 7; v.m.push_back({"kk", t}); } sx_reach("nested"); break; }
	case 6: v = mk('n'); sx_reach("null"); break;
	}
	str t; bool threw = false; try { t = JSON::stringify(prop(v)); } catch (...) { threw = true; } sx_assert(!threw, "value serialized"); if (v.t != 'm') sx_obs(t, "json");
	R r(t); V back = r.value(); r.ws(); sx_assert(r.ok && r.p == t.size(), "serialized form is valid JSON"); if (r.ok) eqv(back, v, "serialized form denotes the value");
	try { same(JSON::parse(t), v, "parsing the serialized form gives the value back"); } catch (const std::exception&) { threw = true; } sx_assert(!threw, "serialized form can be parsed");
}
