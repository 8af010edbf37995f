//@ src: core/encoding/*.cpp
//@ quick: -DMAX=513 time=100
//@ thorough: -DMAX=4097 time=600
//@ merge: std::set<char.*>::contains
//@ flags: -fno-inline
//@ bounds: lengths of 8 to 24 and around every power of two up to MAX bytes (513/4097), bytes at the ends and in the middle arbitrary, the others a fixed pattern of all values or of letters; in the encoded text one arbitrary character in the last escape
//@ reach: rt ok rejected
// Long inputs.
#include "large.h"
#include "core/encoding/encoding.hpp"
#include <stdexcept>
using namespace Lambda;
static char up(uint8_t v) { v &= 15; return v < 10 ? '0' + v : 'A' + (v - 10); }
static bool isHex(uint8_t c) { return sx_in(c, '0', '9') | sx_in(c, 'a', 'f') | sx_in(c, 'A', 'F'); }
static bool delim(uint8_t c) { return sx_oneof(c, "\"'\\/><" " %{}|^`:?#[]@!$&()*+,;="); }
void sx_main() {
	size_t n = sx_size(8, 24, MAX, "n"); uint32_t mode = sx_choice(0, 2, "mode"); std::string s(n, 'x'); for (size_t i = 0; i < n; i++) s[i] = mode == 1 ? 'a' + i % 26 : i * 37 + i / 256;
	if (mode < 2) {
		for (size_t p : {(size_t)0, n / 2, n - 1}) sx_sym(&s[p], 1, "byte"); std::string e = Encoding::encodeURIComponent(s); sx_obs(e, "enc"); size_t o = 0;
		for (size_t i = 0; i < n; i++) { sx_assert(o < e.size(), "every byte is represented"); uint8_t c = s[i]; if (e[o] == '%') { sx_assert(o + 2 < e.size(), "complete escape"); sx_assert((uint8_t)e[o + 1] == up(c >> 4) && (uint8_t)e[o + 2] == up(c), "escape is the byte in upper-case hex"); o += 3; } else { sx_assert((uint8_t)e[o] == c, "unescaped byte is itself"); sx_assert(!delim(c), "delimiters are escaped"); o++; } }
		sx_assert(o == e.size(), "nothing else is written"); sx_assert(sx_eq(Encoding::decodeURIComponent(e), s), "decoding the encoding gives the text back"); sx_reach("rt"); return;
	}
	std::string t, w; for (size_t i = 0; i + 1 < n; i++) { char c = s[i]; if (i % 3) { t += '%'; char h = up((uint8_t)c >> 4), l = up(c); if (i % 2 && h > '9') h += 32; t += h; t += l; w += c; } else { if (c == '%') c = '+'; t += c; w += c; } }
	uint8_t a = sx_byte("a"), b = sx_byte("b"); t += '%'; t += a; t += b; bool threw = false; std::string d; try { d = Encoding::decodeURIComponent(t); } catch (const std::exception&) { threw = true; } sx_assert(threw == !(isHex(a) & isHex(b)), "exactly the malformed escapes are rejected"); if (threw) { sx_reach("rejected"); return; } sx_assert(d.size() == n && __builtin_memcmp(d.data(), w.data(), w.size()) == 0, "decoded text"); sx_reach("ok");
}
