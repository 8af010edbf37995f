//@ src: core/encoding/*.cpp
//@ quick: -DN=7 -DT=9 time=60
//@ thorough: -DN=10 -DT=14 time=800
//@ merge: std::set<char.*>::contains
//@ flags: -fno-inline
//@ bounds: every byte string up to N bytes for encoding (7/10) and every text up to T bytes for decoding (9/14)
//@ reach: rt dec bad truncated
#include "sx.h"
#include "core/encoding/encoding.hpp"
#include <stdexcept>
using namespace Lambda;
static uint8_t up(uint8_t v) { v &= 15; return v < 10 ? '0' + v : 'A' + (v - 10); }
static bool isHex(uint8_t c) { return sx_in(c, '0', '9') | sx_in(c, 'a', 'f') | sx_in(c, 'A', 'F'); }
static uint8_t val(uint8_t c) { uint8_t r = c - '0'; r = sx_in(c, 'a', 'f') ? c - 'a' + 10 : r; r = sx_in(c, 'A', 'F') ? c - 'A' + 10 : r; return r; }
static bool delim(uint8_t c) { return sx_oneof(c, "\"'\\/><" " %{}|^`:?#[]@!$&()*+,;="); }
void sx_main() {
	if (sx_choice(0, 1, "mode") == 0) {
		std::string s = sx_text(0, N, "s"), e = Encoding::encodeURIComponent(s); sx_obs(e, "enc"); size_t o = 0;
		for (size_t i = 0; i < s.size(); i++) {
			sx_assert(o < e.size(), "every byte is represented"); uint8_t c = s[i];
			if (e[o] == '%') { sx_assert(o + 2 < e.size(), "complete escape"); sx_assert((uint8_t)e[o + 1] == up(c >> 4) && (uint8_t)e[o + 2] == up(c), "escape is the byte in upper-case hex"); o += 3; }
			else { sx_assert((uint8_t)e[o] == c, "unescaped byte is itself"); sx_assert(!delim(c), "delimiters are escaped"); o++; }
		}
		sx_assert(o == e.size(), "nothing else is written"); std::string d = Encoding::decodeURIComponent(e); sx_obs(d, "dec"); sx_assert(sx_eq(d, s), "decoding the encoding gives the text back"); sx_reach("rt");
	} else {
		std::string t = sx_text(0, T, "t"), d; bool threw = false; try { d = Encoding::decodeURIComponent(t); } catch (const std::exception&) { threw = true; } sx_obs((uint64_t)threw, "threw"); sx_obs(d, "dec");
		std::string r; bool bad = false;
		for (size_t i = 0; i < t.size() && !bad; i++) { if (t[i] != '%') { r += t[i]; continue; } if (i + 2 >= t.size()) { bad = true; sx_reach("truncated"); break; } if (!(isHex(t[i + 1]) & isHex(t[i + 2]))) { bad = true; break; } r += (char)(val(t[i + 1]) << 4 | val(t[i + 2])); i += 2; }
		sx_assert(threw == bad, "exactly the malformed escapes are rejected"); if (!threw) { sx_assert(sx_eq(d, r), "decoded text"); sx_reach("dec"); } else sx_reach("bad");
	}
}
