// Keys and values of unusual lengths: stored and read back after reopening, or refused.
//@ src: extra/kvstorage/*.cpp
//@ shadow: fs
//@ quick: time=100
//@ thorough: time=100
//@ reach: kept refused
//@ bounds: keys of 255, 256, 8191, 65535, 65536, 65537 and 70000 bytes, values of 0, 255, 8184, 8192, 65535, 65536 and 70000 bytes, with symbolic first and last bytes; a second record follows
//@ assume: the file system model (rt/shadow/fs)
#include "extra/kvstorage/kvstorage.hpp"
#include "kv_ref.h"
#include <fstream>
#include <filesystem>
#include <memory>
using namespace Lambda::Storage;
static str big(size_t n, const char* nm) { str s(n, 'q'); if (n) { s[0] = (char)sx_byte(nm); s[n - 1] = (char)sx_byte(nm); } return s; }
void sx_main() {
	sxfs::add("/w", sxfs::DIR_); static const size_t kl[] = {3, 255, 256, 8191, 65535, 65536, 65537, 70000}, vl[] = {0, 255, 8184, 8192, 65535, 65536, 70000}; uint32_t a = sx_choice(0, 7, "klen"), b = sx_choice(0, 6, "vlen"); if (a > 3 && b) sx_drop();
	str k = big(kl[a], "k"), v = big(vl[b], "v"); auto s = std::make_unique<LocalStorage>("s.ldb"); s->setItem("first", "1"); bool kept = false; try { s->setItem(k, v); kept = true; } catch (const std::exception&) {} s->setItem("second", "2");
	if (kl[a] <= 65535) sx_assert(kept, "a key of this length is refused"); sx_reach(kept ? "kept" : "refused");
	for (int r = 0; r < 2; r++) { if (r) { s.reset(); try { s = std::make_unique<LocalStorage>("s.ldb"); } catch (const std::exception&) { sx_fail("the storage cannot be opened again"); } } sx_assert(s->size() == (kept ? 3u : 2u), "number of items"); sx_assert(s->hasItem(k) == kept, "the item is there if it was accepted"); if (kept) sx_assert(s->getItem(k) == v, "the value"); sx_assert(s->getItem("first") == "1" && s->getItem("second") == "2", "the other items"); }
}
