//@ src: core/encoding/*.cpp
//@ quick: -DN=8 -DT=10 time=60
//@ thorough: -DN=16 -DT=16 time=800
//@ bounds: every byte string up to N bytes (8/16) and every text up to T characters of any value (10/16)
//@ reach: rt ok odd bad byteok bytebad
#include "sx.h"
#include "core/encoding/encoding.hpp"
#include <stdexcept>
using namespace Lambda;
static uint8_t up(uint8_t v) { v &= 15; return v < 10 ? '0' + v : 'A' + (v - 10); }
static bool isHex(uint8_t c) { return sx_in(c, '0', '9') | sx_in(c, 'a', 'f') | sx_in(c, 'A', 'F'); }
static uint8_t val(uint8_t c) { uint8_t r = c - '0'; r = sx_in(c, 'a', 'f') ? c - 'a' + 10 : r; r = sx_in(c, 'A', 'F') ? c - 'A' + 10 : r; return r; }
void sx_main() {
	switch (sx_choice(0, 2, "mode")) {
	case 0: {
		auto in = sx_vec(sx_choice(0, N, "n"), "in"); std::string h = Encoding::toHex(in); sx_obs(h, "hex"); sx_assert(h.size() == in.size() * 2, "two digits per byte");
		for (size_t i = 0; i < in.size(); i++) { sx_assert((uint8_t)h[2 * i] == up(in[i] >> 4), "high digit first"); sx_assert((uint8_t)h[2 * i + 1] == up(in[i]), "low digit second"); }
		std::string low = h; for (size_t i = 0; i < low.size(); i++) { bool l = sx_byte("case") & 1; low[i] = (l & sx_in(low[i], 'A', 'F')) ? low[i] + 32 : low[i]; }
		sx_assert(Encoding::fromHex(h) == in, "upper case decodes back"); sx_assert(Encoding::fromHex(low) == in, "mixed case decodes back"); sx_reach("rt"); break; }
	case 1: {
		std::string t = sx_text(0, T, "t"); bool threw = false; std::vector<uint8_t> d; try { d = Encoding::fromHex(t); } catch (const std::exception&) { threw = true; }
		sx_obs((uint64_t)threw, "threw"); sx_obs(d, "dec");
		if (t.size() % 2) { sx_assert(threw, "odd length is rejected"); sx_reach("odd"); return; }
		bool good = true; for (char c : t) good = good & isHex(c);
		if (threw) { sx_assert(!good, "hex text is accepted"); sx_reach("bad"); return; }
		sx_assert(good, "text with a character that is not a hex digit is rejected"); sx_assert(d.size() == t.size() / 2, "one byte per two digits"); for (size_t i = 0; i < d.size(); i++) sx_assert(d[i] == (uint8_t)(val(t[2 * i]) << 4 | val(t[2 * i + 1])), "decoded value"); sx_reach("ok"); break; }
	case 2: {
		Encoding::HexByte h; uint8_t a = sx_byte("a"), b = sx_byte("b"); h.string[0] = a; h.string[1] = b; h.string[2] = 0; bool threw = false; uint8_t v = 0; try { v = Encoding::hexToByte(h); } catch (const std::exception&) { threw = true; }
		bool good = isHex(a) & isHex(b); if (threw) { sx_assert(!good, "hex digits are accepted"); sx_reach("bytebad"); } else { sx_assert(good, "non-digits are rejected"); sx_assert(v == (uint8_t)(val(a) << 4 | val(b)), "byte value"); sx_reach("byteok"); }
		uint8_t x = sx_byte("x"); auto e = Encoding::byteToHex(x); sx_assert((uint8_t)e.string[0] == up(x >> 4) && (uint8_t)e.string[1] == up(x) && e.string[2] == 0, "byteToHex"); }
	}
}
