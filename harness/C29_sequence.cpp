// Long operation sequences and many keys on the storage against a plain map.
//@ src: extra/kvstorage/*.cpp
//@ shadow: fs
//@ quick: -DK=120 time=120
//@ thorough: -DK=600 time=600
//@ flags: -fno-inline
//@ reach: many rewritten removed cleared long
//@ bounds: K operations (120/600) over 3, 20 or 70 keys (some a prefix of another, one empty) in one of 4 patterns, values of 0 to 40 bytes with one arbitrary byte, the storage reopened after every 1, 7 or 50 operations or only at the end
//@ assume: the file system model (rt/shadow/fs); hash tables with the library's structure and a hash of the key's length only
#include "extra/kvstorage/kvstorage.hpp"
#include "kv_ref.h"
#include <fstream>
#include <filesystem>
#include <memory>
using namespace Lambda::Storage;
void sx_main() {
	sxfs::add("/w", sxfs::DIR_); static const uint32_t nk[] = {3, 20, 70}, every[] = {1, 7, 50, 100000}; uint32_t keys = nk[sx_choice(0, 2, "keys")], re = every[sx_choice(0, 3, "reopen")], pat = sx_choice(0, 3, "pattern"); str file = "s.ldb", c = sx_str(1, "byte");
	auto s = std::make_unique<LocalStorage>(file); Map m; auto key = [&](uint32_t i) { i %= keys; return i == 0 ? str() : str(1 + i % 9, 'a' + i % 26) + (i % 3 ? std::to_string(i) : ""); };
	for (uint32_t i = 0; i < K; i++) {
		uint32_t x = pat == 0 ? 0 : pat == 1 ? (i % 3 == 2) : pat == 2 ? (i % 29 == 28 ? 2 : i % 5 == 4) : (i / 10) % 2; str k = key(pat == 1 ? i / 3 : pat == 2 ? i * 13 : i);
		if (x == 0) { str v = str((i * 7) % 41, 'v') + (i % 11 == 3 ? c : str()) + std::to_string(i); if (pat != 0 && i % 4 == 1) v = ""; bool had = at_(m, k) >= 0; s->setItem(k, v); set_(m, k, v); if (had) sx_reach("rewritten"); if (v.size() > 30) sx_reach("long"); } else if (x == 1) { if (at_(m, k) >= 0) sx_reach("removed"); s->removeItem(k); del_(m, k); } else { s->clear(); m.clear(); sx_reach("cleared"); }
		if (i % re == re - 1) { s.reset(); s = std::make_unique<LocalStorage>(file); }
		if (i % 10 == 9) sx_assert(s->size() == m.size(), "the size is not the number of keys");
	}
	if (m.size() > 15) sx_reach("many");
	for (int r = 0; r < 2; r++) { if (r) { s.reset(); s = std::make_unique<LocalStorage>(file); } sx_assert(s->size() == m.size(), "the size is the number of keys"); for (auto& e : m) sx_assert(s->hasItem(e.first) && sx_eq(s->getItem(e.first), e.second), "a value is the last one set"); for (uint32_t i = 0; i < keys; i++) if (at_(m, key(i)) < 0) sx_assert(!s->hasItem(key(i)) && s->getItem(key(i)).empty(), "an absent key has no value"); sx_assert(!s->hasItem("never set"), "an absent key"); }
	s.reset(); sx_assert(sxfs::openfiles == 0, "a file is left open");
}
