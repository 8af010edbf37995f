//@ src: core/encoding/*.cpp
//@ quick: -DMAX=1025 time=100
//@ thorough: -DMAX=65537 time=600
//@ bounds: lengths of 9 to 36 and around every power of two up to MAX bytes (1025/65537), bytes at the ends and in the middle arbitrary, the others a fixed pattern of all values; in the text one arbitrary character at the start, the middle or the end
//@ reach: rt ok rejected odd
// Long inputs.
#include "large.h"
#include "core/encoding/encoding.hpp"
#include <stdexcept>
using namespace Lambda;
static char up(uint8_t v) { v &= 15; return v < 10 ? '0' + v : 'A' + (v - 10); }
static bool isHex(uint8_t c) { return sx_in(c, '0', '9') | sx_in(c, 'a', 'f') | sx_in(c, 'A', 'F'); }
void sx_main() {
	size_t n = sx_size(9, 36, MAX, "n"); bool text = sx_choice(0, 1, "mode"); std::vector<uint8_t> in(n); for (size_t i = 0; i < n; i++) in[i] = i * 167 + i / 256;
	if (!text) for (size_t p : {(size_t)0, n / 2, n - 1}) sx_sym(&in[p], 1, "byte");
	std::string w; for (uint8_t b : in) { w += up(b >> 4); w += up(b); }
	if (!text) { std::string e = Encoding::toHex(in); sx_obs(e, "hex"); sx_assert(sx_eq(e, w), "two upper-case digits per byte"); auto d = Encoding::fromHex(w); sx_assert(d.size() == n && __builtin_memcmp(d.data(), in.data(), n) == 0, "decoding gives the bytes back"); sx_reach("rt"); return; }
	uint32_t at = sx_choice(0, 5, "at"); bool threw = false; std::vector<uint8_t> d; if (at == 5) { w.pop_back(); try { d = Encoding::fromHex(w); } catch (const std::exception&) { threw = true; } sx_assert(threw, "odd length is rejected"); sx_reach("odd"); return; }
	size_t p = at == 0 ? 0 : at == 1 ? n : at == 2 ? w.size() - 1 : at == 3 ? w.size() - 2 : n + 1; uint8_t c = sx_byte("char"); w[p] = c; try { d = Encoding::fromHex(w); } catch (const std::exception&) { threw = true; }
	sx_assert(threw == !isHex(c), "exactly the text with a foreign character is rejected"); if (threw) { sx_reach("rejected"); return; } sx_reach("ok"); sx_assert(d.size() == n, "decoded length"); for (size_t i = 0; i < n; i++) if (i != p / 2) sx_assert(d[i] == in[i], "the other bytes are unchanged");
}
