// Operation sequences on the storage against a plain map, with closing and opening in between.
//@ src: extra/kvstorage/*.cpp
//@ shadow: fs
//@ quick: -DK=4 -DV=1 time=150
//@ thorough: -DK=5 -DV=2 time=800
//@ reach: set overwrite remove clear reopen absent
//@ bounds: K operations (4 quick, 5 thorough) out of set, remove, clear and reopen, keys of 0 or 1 bytes and values of up to V bytes (1 quick, 2 thorough), all byte values; a database file with and without a directory part, in an existing and a new directory
//@ assume: the file system model (rt/shadow/fs); hash tables with the library's structure and a hash of the key's length only
#include "extra/kvstorage/kvstorage.hpp"
#include "kv_ref.h"
#include <fstream>
#include <filesystem>
#include <memory>
using namespace Lambda::Storage;
void sx_main() {
	sxfs::add("/w", sxfs::DIR_); sxfs::add("/d", sxfs::DIR_); static const char* files[] = {"s.ldb", "/d/s.ldb", "/d/e/f/s.ldb", "./x"}; str file = files[sx_choice(0, 3, "file")];
	auto s = std::make_unique<LocalStorage>(file); Map m;
	for (int i = 0; i < K; i++) switch (sx_choice(0, 3, "op")) {
		case 0: { str k = sx_text(0, 1, "key"), v = sx_text(0, V, "value"); if (at_(m, k) >= 0) sx_reach("overwrite"); s->setItem(k, v); set_(m, k, v); sx_reach("set"); break; }
		case 1: { str k = sx_text(0, 1, "key"); if (at_(m, k) >= 0) sx_reach("remove"); s->removeItem(k); del_(m, k); break; }
		case 2: if (m.size()) sx_reach("clear"); s->clear(); m.clear(); break;
		case 3: s.reset(); s = std::make_unique<LocalStorage>(file); sx_reach("reopen"); break;
	}
	str probe = sx_text(0, 1, "probe");
	for (int r = 0; r < 2; r++) {
		if (r) { s.reset(); s = std::make_unique<LocalStorage>(file); }
		sx_assert(s->size() == m.size(), r ? "the size differs after reopening" : "the size is not the number of keys"); for (auto& e : m) { sx_assert(s->hasItem(e.first), r ? "a key is lost by reopening" : "a key is missing"); sx_assert(sx_eq(s->getItem(e.first), e.second), r ? "a value differs after reopening" : "a value is not the last one set"); }
		if (at_(m, probe) < 0) { sx_reach("absent"); sx_assert(!s->hasItem(probe), "a key that was never set or was removed is present"); sx_assert(s->getItem(probe).empty(), "an absent key has a value"); }
	}
	sx_obs(s->size(), "size"); s.reset(); sx_assert(sxfs::openfiles == 0, "a file is left open");
}
