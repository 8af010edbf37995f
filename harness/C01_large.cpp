//@ src: core/encoding/*.cpp
//@ quick: -DMAX=1025 time=100
//@ thorough: -DMAX=65537 time=600
//@ bounds: lengths of 13 to 36 and around every power of two up to MAX bytes (1025/65537), bytes at the ends and in the middle arbitrary, the others a fixed pattern of all values; in the encoded text one arbitrary character at the start, the middle or the end
//@ reach: rt ok rejected
// Long inputs.
#include "large.h"
#include "core/encoding/encoding.hpp"
#include <stdexcept>
using namespace Lambda;
static char b64(uint32_t v) { v &= 63; uint8_t r = '/'; r = v == 62 ? '+' : r; r = v < 62 ? '0' + (v - 52) : r; r = v < 52 ? 'a' + (v - 26) : r; r = v < 26 ? 'A' + v : r; return r; }
static bool inAlpha(uint8_t c) { return sx_in(c, 'A', 'Z') | sx_in(c, 'a', 'z') | sx_in(c, '0', '9') | (c == '+') | (c == '/'); }
void sx_main() {
	size_t n = sx_size(13, 36, MAX, "n"); bool text = sx_choice(0, 1, "mode"); std::vector<uint8_t> in(n); for (size_t i = 0; i < n; i++) in[i] = i * 167 + i / 256;
	if (!text) for (size_t p : {(size_t)0, n / 2, n - 1}) sx_sym(&in[p], 1, "byte");
	std::string w; for (size_t i = 0; i < n; i += 3) { uint32_t a = in[i], b = i + 1 < n ? in[i + 1] : 0, c = i + 2 < n ? in[i + 2] : 0, v = a << 16 | b << 8 | c; w += b64(v >> 18); w += b64(v >> 12); w += i + 1 < n ? b64(v >> 6) : '='; w += i + 2 < n ? b64(v) : '='; }
	if (!text) { std::string e = Encoding::toBase64(in); sx_obs(e, "enc"); sx_assert(sx_eq(e, w), "the standard encoding"); auto d = Encoding::fromBase64(w); sx_assert(d.size() == n && __builtin_memcmp(d.data(), in.data(), n) == 0, "decoding gives the bytes back"); while (w.back() == '=') w.pop_back(); auto d2 = Encoding::fromBase64(w); sx_assert(d2.size() == n && __builtin_memcmp(d2.data(), in.data(), n) == 0, "decoding without the padding gives the bytes back"); sx_reach("rt"); return; }
	uint32_t at = sx_choice(0, 4, "at"); size_t p = at == 0 ? 0 : at == 1 ? w.size() / 2 : at == 2 ? w.size() - 5 : at == 3 ? (w.size() / 2 & ~3) + 3 : (w.size() / 2 & ~3) - 1; uint8_t c = sx_byte("char"); sx_assume(c != '='); w[p] = c; bool threw = false; std::vector<uint8_t> d; try { d = Encoding::fromBase64(w); } catch (const std::exception&) { threw = true; }
	bool good = inAlpha(c); sx_assert(threw == !good, "exactly the text with a foreign character is rejected"); if (threw) { sx_reach("rejected"); return; } sx_reach("ok"); sx_assert(d.size() == n, "decoded length"); for (size_t i = 0; i < n; i++) if (i / 3 != p / 4) sx_assert(d[i] == in[i], "the other bytes are unchanged");
}
