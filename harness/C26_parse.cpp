//@ src: core/json/*.cpp core/polyfill/strings.cpp
//@ quick: -DN=5 -DM=6 time=200
//@ thorough: -DN=6 -DM=8 time=850
//@ merge: std::set<char.*>::contains
//@ flags: -fno-inline
//@ bounds: every text up to N bytes (5/6) of any value, every text up to M bytes (6/8) over the characters []{}":,\ 1 a and space, 600 nested arrays; every sequence of copy, move, assignment, self-assignment and destruction of two values of any two types
//@ reach: value error deep ops mismatch
#include "sx.h"
#include "core/json/json.hpp"
#include <stdexcept>
using namespace Lambda;
typedef std::string str; typedef JSON::Property P;
static P mk(uint32_t k) { switch (k) { case 0: return P(); case 1: return P(nullptr); case 2: return P("a string longer than the small buffer"); case 3: return P(true); case 4: return P((int32_t)7); case 5: return P(1.5L); case 6: return P(JSON::Array{P(1), P("x")}); default: return P(JSON::Map{{"k", P(2)}}); } }
static bool is(const P& p, uint32_t k) { switch (k) { case 0: return p.isUndefined() && p.isNil(); case 1: return p.isNull() && p.isNil(); case 2: return p.type() == JSON::JSTypes::String && p.asString() == "a string longer than the small buffer"; case 3: return p.type() == JSON::JSTypes::Boolean && p.asBool(); case 4: return p.type() == JSON::JSTypes::Integer && p.asInt() == 7; case 5: return p.type() == JSON::JSTypes::Float && p.asFloat() == 1.5L; case 6: return p.type() == JSON::JSTypes::Array && p.asArray().size() == 2 && p.asArray()[0].asInt() == 1 && p.asArray()[1].asString() == "x"; default: return p.type() == JSON::JSTypes::Map && p.asMap().size() == 1 && p.asMap().at("k").asInt() == 2; } }
static void wrong(const P& p, uint32_t k) { // every accessor of another type reports an error
	for (uint32_t a = 2; a < 8; a++) { bool threw = false; try { switch (a) { case 2: (void)p.asString(); break; case 3: (void)p.asBool(); break; case 4: (void)p.asInt(); break; case 5: (void)p.asFloat(); break; case 6: (void)p.asArray(); break; default: (void)p.asMap(); } } catch (const std::exception&) { threw = true; } sx_assert(threw == (a != k), "accessor of another type is an error"); if (threw) sx_reach("mismatch"); }
}
static void run() {
	uint32_t a = sx_choice(0, 7, "a"), b = sx_choice(0, 7, "b"); P x = mk(a), y = mk(b); sx_assert(is(x, a) && is(y, b), "values as built"); wrong(x, a);
	uint32_t op = sx_choice(0, 5, "op");
	switch (op) {
	case 0: { P z(x); sx_assert(is(z, a), "copy"); { P t(std::move(z)); sx_assert(is(t, a), "moved value"); } z = y; sx_assert(is(z, b) && is(x, a), "assignment"); break; }
	case 1: x = y; sx_assert(is(x, b) && is(y, b), "assignment"); y = mk(a); sx_assert(is(x, b) && is(y, a), "independent after assignment"); break;
	case 2: { P& r = x; x = r; sx_assert(is(x, a), "self-assignment"); break; }
	case 3: { x = std::move(y); sx_assert(is(x, b), "move assignment"); y = mk(a); sx_assert(is(y, a) && is(x, b), "independent after move"); break; }
	case 4: { JSON::Array l{x, y, x}; P z(l); l.clear(); sx_assert(z.asArray().size() == 3 && is(z.asArray()[0], a) && is(z.asArray()[1], b) && is(z.asArray()[2], a), "array keeps its own values"); x = z; z = y; sx_assert(x.asArray().size() == 3 && is(x.asArray()[2], a), "array copied"); x = x.asArray()[1]; sx_assert(is(x, b), "assigning an element of itself"); break; }
	case 5: { JSON::Map m; m["p"] = x; m["p"] = y; m["q"] = x; P z(m); m.clear(); sx_assert(z.asMap().size() == 2 && is(z.asMap().at("p"), b) && is(z.asMap().at("q"), a), "map keeps its own values"); break; }
	}
}
void sx_main() {
	for (const char* w : {"[-1, \" \", {\"a\": null}]", "[,"}) try { JSON::parse(w); } catch (...) {} // tables that are made once
	uint32_t mode = sx_choice(0, 3, "mode");
	if (mode == 3) { uint64_t h = sx_live_heap(); run(); sx_assert(sx_live_heap() == h, "all storage is released"); sx_reach("ops"); return; }
	str t = mode == 0 ? sx_text(0, N, "text") : mode == 1 ? sx_text(0, M, "text") : str(600, '[') + sx_text(0, 1, "tail"); if (mode == 1) for (char c : t) sx_assume(sx_oneof(c, "[]{}\":,\\1a "));
	uint64_t h = sx_live_heap(); bool threw = false; { try { P p = JSON::parse(t); sx_obs((uint64_t)p.type(), "type"); } catch (const std::exception&) { threw = true; } catch (...) { sx_fail("something else than an error was thrown"); } }
	sx_obs((uint64_t)threw, "threw"); sx_reach(threw ? "error" : "value"); if (mode == 2) sx_reach("deep"); sx_assert(sx_live_heap() == h, "parsing releases all storage");
}
