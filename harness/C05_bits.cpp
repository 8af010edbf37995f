//@ src: core/utils/*.cpp core/crypto/uid.cpp
//@ stubs: stub_random
//@ quick: time=60
//@ bounds: every value of all six integer types; every 32-bit id (pairs of ids for uniqueness); no size bound applies
//@ reach: net store id
#include "sx.h"
#include "core/utils/utils.hpp"
#include "core/crypto/crypto.hpp"
#include <cstring>
using namespace Lambda;
template <typename T> static T get(const char* n) { T v; sx_sym(&v, sizeof v, n); return v; }
template <typename T> static void one(const char* nm) {
	T v = get<T>(nm); typedef std::make_unsigned_t<T> U; T n = Bits::netwnormx(v); unsigned char b[sizeof(T)]; memcpy(b, &n, sizeof n);
	for (size_t i = 0; i < sizeof(T); i++) sx_assert(b[i] == (unsigned char)((U)v >> (8 * (sizeof(T) - 1 - i))), "network order is big-endian in memory");
	sx_assert(Bits::netwnormx(n) == v, "network order round trip"); sx_obs((uint64_t)(U)n, "net"); sx_reach("net");
	T s = Bits::storenormx(v); memcpy(b, &s, sizeof s); for (size_t i = 0; i < sizeof(T); i++) sx_assert(b[i] == (unsigned char)((U)v >> (8 * i)), "storage order is little-endian in memory"); sx_assert(Bits::storenormx(s) == v, "storage order round trip"); sx_reach("store");
}
static bool lowhex(uint8_t c) { return sx_in(c, '0', '9') | sx_in(c, 'a', 'f'); }
void sx_main() {
	switch (sx_choice(0, 6, "type")) {
	case 0: one<int16_t>("i16"); break; case 1: one<uint16_t>("u16"); break; case 2: one<int32_t>("i32"); break; case 3: one<uint32_t>("u32"); break; case 4: one<int64_t>("i64"); break; case 5: one<uint64_t>("u64"); break;
	case 6: {
		uint32_t a = sx_u32("a"), b = sx_u32("b"); Crypto::ShortID x(a), y(b); sx_assert(x.id() == a, "the id is the number it was built from"); std::string s = x.toString(), t = y.toString(); sx_obs(s, "id");
		sx_assert(s.size() == 8, "eight digits"); for (char c : s) sx_assert(lowhex(c), "lower-case hex digit"); sx_assert(sx_eq(s, t) == (a == b), "text identifies the number");
		Crypto::ShortID c(x); sx_assert(c.id() == a && sx_eq(c.toString(), s), "copy"); Crypto::ShortID m(std::move(c)); sx_assert(m.id() == a && sx_eq(m.toString(), s), "move"); y = x; sx_assert(y.id() == a && sx_eq(y.toString(), s), "assignment");
		m.update(b); sx_assert(m.id() == b && sx_eq(m.toString(), t), "update"); sx_reach("id"); }
	}
}
