//@ src: core/crypto/sha1.cpp
//@ quick: -DFULL=0 time=80
//@ thorough: -DFULL=1 time=850
//@ bounds: every message of 0..3, 53..66 and 117..130 bytes (thorough: every length 0..192), all byte values, fed in up to three updates split at 0, 1, 55, 56, 63, 64, half and all of the length (thorough: any single split), as text or bytes, on a fresh or reset object
//@ reach: short block twoblocks reset text
// Reference: FIPS 180-4 section 6.1.2 written over the whole padded message at once.
#include "sx.h"
#include "core/crypto/crypto.hpp"
using namespace Lambda;
static uint32_t rol(uint32_t x, int n) { return x << n | x >> (32 - n); }
static std::vector<uint8_t> ref(std::vector<uint8_t> m) {
	uint64_t bits = m.size() * 8; m.push_back(0x80); while (m.size() % 64 != 56) m.push_back(0); for (int i = 7; i >= 0; i--) m.push_back(bits >> (8 * i));
	uint32_t h[5] = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0};
	for (size_t b = 0; b < m.size(); b += 64) {
		uint32_t w[80]; for (int t = 0; t < 16; t++) w[t] = ((uint32_t)m[b + 4 * t] << 24) + ((uint32_t)m[b + 4 * t + 1] << 16) + ((uint32_t)m[b + 4 * t + 2] << 8) + m[b + 4 * t + 3];
		for (int t = 16; t < 80; t++) w[t] = rol(w[t - 3] ^ w[t - 8] ^ w[t - 14] ^ w[t - 16], 1);
		uint32_t a = h[0], B = h[1], c = h[2], d = h[3], e = h[4];
		for (int t = 0; t < 80; t++) { uint32_t f, k; if (t < 20) { f = (B & c) ^ (~B & d); k = 0x5a827999; } else if (t < 40) { f = B ^ c ^ d; k = 0x6ed9eba1; } else if (t < 60) { f = (B & c) ^ (B & d) ^ (c & d); k = 0x8f1bbcdc; } else { f = B ^ c ^ d; k = 0xca62c1d6; } uint32_t T = rol(a, 5) + f + e + k + w[t]; e = d; d = c; c = rol(B, 30); B = a; a = T; }
		h[0] += a; h[1] += B; h[2] += c; h[3] += d; h[4] += e;
	}
	std::vector<uint8_t> r; for (int i = 0; i < 5; i++) for (int j = 3; j >= 0; j--) r.push_back(h[i] >> (8 * j)); return r;
}
void sx_main() {
#if FULL
	size_t n = sx_choice(0, 192, "n");
#else
	size_t n = sx_choice(0, 31, "n"); n = n < 4 ? n : n < 18 ? n - 4 + 53 : n - 18 + 117;
#endif
	static const size_t cand[] = {0, 1, 55, 56, 63, 64}; size_t s1, s2; uint32_t k = sx_choice(0, 8, "split");
	if (k < 6) s1 = cand[k]; else s1 = k == 6 ? n / 2 : k == 7 ? n : (n ? n - 1 : 0); if (s1 > n) sx_drop();
#if FULL
	if (k == 0) s1 = sx_choice(0, n, "s1");
#endif
	s2 = sx_choice(0, 1, "third") ? s1 + (n - s1) / 2 : n;
	// concrete pattern with symbolic head and tail bytes would also do; all bytes are symbolic here
	auto m = sx_vec(n, "m"); std::vector<uint8_t> a(m.begin(), m.begin() + s1), b(m.begin() + s1, m.begin() + s2), c(m.begin() + s2, m.end());
	Crypto::SHA1 h; uint32_t mode = sx_choice(0, 2, "mode");
	if (mode == 1) { h.update(std::string("previous content, to be forgotten")); if (n & 1) h.digest(); h.reset(); sx_reach("reset"); }
	if (mode == 2) { h.update(std::string(a.begin(), a.end())); h.update(b).update(std::string(c.begin(), c.end())); sx_reach("text"); } else { h.update(a); h.update(b); if (s2 < n) h.update(c); }
	auto d = h.digest(); auto r = ref(m); sx_observe(d.data(), d.size(), "digest");
	sx_assert(d.size() == 20, "20 bytes"); for (size_t i = 0; i < 20; i++) sx_assert(d[i] == r[i], "digest equals FIPS 180-4");
	sx_reach(n < 56 ? "short" : n < 64 ? "block" : "twoblocks");
}
