//@ src: core/encoding/*.cpp
//@ quick: -DN=9 time=60
//@ thorough: -DN=13 time=800
//@ bounds: every text of up to N characters, any byte values (quick 9, thorough 13)
//@ reach: ok rejected unpadded2 unpadded3
// Decoding any text never misbehaves; it yields the RFC 4648 bytes for text over the alphabet with right or omitted padding, and rejects text with foreign characters.
#include "sx.h"
#include "core/encoding/encoding.hpp"
#include <stdexcept>
using namespace Lambda;
static bool inAlpha(uint8_t c) { return sx_in(c, 'A', 'Z') | sx_in(c, 'a', 'z') | sx_in(c, '0', '9') | (c == '+') | (c == '/'); }
static uint32_t val(uint8_t c) { uint32_t r = 63; r = c == '+' ? 62 : r; r = sx_in(c, '0', '9') ? c - '0' + 52 : r; r = sx_in(c, 'a', 'z') ? c - 'a' + 26 : r; r = sx_in(c, 'A', 'Z') ? c - 'A' : r; return r; }
void sx_main() {
	auto s = sx_text(0, N, "t"); std::vector<uint8_t> d; bool threw = false;
	try { d = Encoding::fromBase64(s); } catch (const std::exception&) { threw = true; }
	sx_obs(d, "dec"); sx_obs((uint64_t)threw, "threw");
	size_t n = s.size(), p = 0; if (n && n % 4 == 0) { if (s[n - 1] == '=') { p = 1; if (s[n - 2] == '=') p = 2; } }
	bool foreign = false; for (size_t i = 0; i < n; i++) foreign = foreign | !(inAlpha(s[i]) | (s[i] == '=')); size_t len = n - p; bool good = true; for (size_t i = 0; i < len; i++) good = good & inAlpha(s[i]);
	if (good) {
		if (len % 4 == 1) { if (threw) sx_reach("rejected"); return; }
		sx_assert(!threw, "text over the alphabet decodes"); sx_assert(d.size() == len * 3 / 4, "decoded length"); if (p == 0) { if (len % 4 == 2) sx_reach("unpadded2"); if (len % 4 == 3) sx_reach("unpadded3"); } sx_reach("ok");
		for (size_t i = 0; i < d.size(); i++) { size_t q = i / 3 * 4; uint32_t w = 0; for (size_t k = 0; k < 4; k++) w = w << 6 | (q + k < len ? val(s[q + k]) : 0); sx_assert(d[i] == (uint8_t)(w >> (16 - 8 * (i % 3))), "decoded byte"); }
	} else if (foreign) { sx_assert(threw, "text with characters outside the alphabet is rejected"); sx_reach("rejected"); }
}
