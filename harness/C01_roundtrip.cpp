//@ src: core/encoding/*.cpp
//@ quick: -DN=12 time=60
//@ thorough: -DN=24 time=800
//@ bounds: every byte string of up to N bytes (quick 12, thorough 24)
//@ reach: pad0 pad1 pad2
// Encoding matches RFC 4648 section 4 for every byte string, and decoding the encoding gives the bytes back.
#include "sx.h"
#include "core/encoding/encoding.hpp"
using namespace Lambda;
// independent RFC 4648 alphabet (arithmetic, no table)
static uint8_t b64(uint32_t v) { v &= 63; uint8_t r = '/'; r = v == 62 ? '+' : r; r = v < 62 ? '0' + (v - 52) : r; r = v < 52 ? 'a' + (v - 26) : r; r = v < 26 ? 'A' + v : r; return r; }
void sx_main() {
	auto n = sx_choice(0, N, "n"); auto in = sx_vec(n, "in");
	std::string e = Encoding::toBase64(in);
	sx_assert(e.size() == (n + 2) / 3 * 4, "encoded length is 4*ceil(n/3)");
	for (size_t i = 0; i < n; i += 3) {
		uint32_t a = in[i], b = i + 1 < n ? in[i + 1] : 0, c = i + 2 < n ? in[i + 2] : 0, w = a << 16 | b << 8 | c; size_t o = i / 3 * 4;
		sx_assert((uint8_t)e[o] == b64(w >> 18), "first character"); sx_assert((uint8_t)e[o + 1] == b64(w >> 12), "second character");
		sx_assert((uint8_t)e[o + 2] == (i + 1 < n ? b64(w >> 6) : '='), "third character"); sx_assert((uint8_t)e[o + 3] == (i + 2 < n ? b64(w) : '='), "fourth character");
	}
	auto d = Encoding::fromBase64(e); sx_obs(e, "enc"); sx_obs(d, "dec");
	sx_assert(d == in, "decoding the encoding gives the bytes back");
	std::string u = e; while (u.size() && u.back() == '=') u.pop_back(); // omitted padding
	if (u.size() != e.size()) { auto d2 = Encoding::fromBase64(u); sx_assert(d2 == in, "decoding without the padding gives the bytes back"); }
	sx_reach(n % 3 == 0 ? "pad0" : n % 3 == 1 ? "pad2" : "pad1");
}
