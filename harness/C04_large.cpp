//@ src: core/crypto/sha1.cpp
//@ quick: -DMAX=1025 time=100
//@ thorough: -DMAX=65537 time=600
//@ bounds: lengths of 131 to 146 and around every power of two up to MAX bytes (1025/65537), fed in pieces of 1, 13, 63, 64, 65, 127, 200 bytes or in one, as bytes or text; the last two bytes arbitrary
//@ reach: text bytes
// Long messages in many pieces.
#include "large.h"
#include "core/crypto/crypto.hpp"
using namespace Lambda;
static uint32_t rol(uint32_t x, int n) { return x << n | x >> (32 - n); }
static std::vector<uint8_t> ref(std::vector<uint8_t> m) {
	uint64_t bits = m.size() * 8; m.push_back(0x80); while (m.size() % 64 != 56) m.push_back(0); for (int i = 7; i >= 0; i--) m.push_back(bits >> (8 * i));
	uint32_t h[5] = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0};
	for (size_t b = 0; b < m.size(); b += 64) {
		uint32_t w[80]; for (int t = 0; t < 16; t++) w[t] = ((uint32_t)m[b + 4 * t] << 24) + ((uint32_t)m[b + 4 * t + 1] << 16) + ((uint32_t)m[b + 4 * t + 2] << 8) + m[b + 4 * t + 3];
		for (int t = 16; t < 80; t++) w[t] = rol(w[t - 3] ^ w[t - 8] ^ w[t - 14] ^ w[t - 16], 1);
		uint32_t a = h[0], B = h[1], c = h[2], d = h[3], e = h[4];
		for (int t = 0; t < 80; t++) { uint32_t f, k; if (t < 20) { f = (B & c) ^ (~B & d); k = 0x5a827999; } else if (t < 40) { f = B ^ c ^ d; k = 0x6ed9eba1; } else if (t < 60) { f = (B & c) ^ (B & d) ^ (c & d); k = 0x8f1bbcdc; } else { f = B ^ c ^ d; k = 0xca62c1d6; } uint32_t T = rol(a, 5) + f + e + k + w[t]; e = d; d = c; c = rol(B, 30); B = a; a = T; }
		h[0] += a; h[1] += B; h[2] += c; h[3] += d; h[4] += e;
	}
	std::vector<uint8_t> r; for (int i = 0; i < 5; i++) for (int j = 3; j >= 0; j--) r.push_back(h[i] >> (8 * j)); return r;
}
void sx_main() {
	static const size_t pieces[] = {1, 13, 63, 64, 65, 127, 200, 1 << 20}; size_t n = sx_size(131, 146, MAX, "n"), piece = pieces[sx_choice(0, 7, "piece")]; if (n > 300 && piece == 1) sx_drop(); std::string m = sx_large(n, "byte", {-1, -2}); Crypto::SHA1 h; bool text = sx_choice(0, 1, "text");
	for (size_t p = 0; p < n; p += piece) { std::string x = m.substr(p, piece); if (text) h.update(x); else h.update(sx_bytes(x)); } sx_reach(text ? "text" : "bytes");
	auto d = h.digest(); auto r = ref(sx_bytes(m)); sx_observe(d.data(), d.size(), "digest"); sx_assert(d.size() == 20, "20 bytes"); for (size_t i = 0; i < 20; i++) sx_assert(d[i] == r[i], "digest equals FIPS 180-4");
}
