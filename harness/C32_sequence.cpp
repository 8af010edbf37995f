// Many files and long histories on the virtual filesystem against a plain list.
//@ src: extra/vfs/*.cpp
//@ src: core/polyfill/strings.cpp
//@ src: core/compression/zlib*.cpp
//@ stubs: stub_zlib
//@ shadow: fs
//@ quick: -DK=120 -DMAX=1025 time=120
//@ thorough: -DK=500 -DMAX=16384 time=600
//@ flags: -fno-inline
//@ reach: many replaced removed longname longdata
//@ bounds: K operations (120/500) out of write, remove and rename over 5 or 60 names in mixed cases, in one of 4 patterns, contents of up to 40 bytes; one file with a name or contents of a length around a power of two from 15 to MAX (1025/16384) with arbitrary bytes at its ends
//@ assume: hash tables with the library's structure and a hash of the key's length only; virtual clock
#include "large.h"
#include "extra/vfs/vfs.hpp"
#include "kv_ref.h"
#include <ctime>
#include <stdexcept>
using namespace Lambda;
struct F { str name, data; int64_t created, modified; };
static std::vector<F> fs; static int64_t now_s = 1700000000; extern "C" time_t time(time_t* t) noexcept { if (t) *t = now_s; return now_s; }
static str low(str s) { for (auto& c : s) c = (c >= 'A') & (c <= 'Z') ? c + 32 : c; return s; }
static long idx(const str& n) { str l = low(n); for (size_t i = 0; i < fs.size(); i++) if (same_(fs[i].name, l)) return i; return -1; }
static void wr(VirtualFilesystem& v, const str& n, const str& d) { long k = idx(n); v.write(n, d); if (k < 0) fs.push_back({low(n), d, now_s, now_s}); else { fs[k].data = d; fs[k].modified = now_s; } }
static void rm(VirtualFilesystem& v, const str& n) { long k = idx(n); v.remove(n); if (k >= 0) { fs.erase(fs.begin() + k); sx_reach("removed"); } }
static void mv(VirtualFilesystem& v, const str& n, const str& m) { long k = idx(n), t = idx(m); bool thrown = false; try { v.move(n, m); } catch (const std::exception&) { thrown = true; } sx_assert(thrown == (k < 0), "renaming is an error exactly for a missing file"); if (k < 0 || t == k) return; fs[k].name = low(m); if (t >= 0) { fs.erase(fs.begin() + t); sx_reach("replaced"); } }
static void check(VirtualFilesystem& v) {
	size_t total = 0; for (auto& f : fs) total += f.name.size() + f.data.size(); sx_assert(v.stats().totalFiles == fs.size() && v.stats().totalSize == total, "the statistics are wrong"); auto all = v.listAll(); sx_assert(all.size() == fs.size(), "the listing does not have one entry per file");
	for (auto& f : fs) { int c = 0; for (auto& e : all) if (same_(e.name, f.name)) { c++; sx_assert(e.size == f.data.size() && e.created == f.created && e.modified == f.modified, "a listed entry is wrong"); } sx_assert(c == 1, "a file is not listed exactly once"); auto r = v.read(f.name); sx_assert(r.has_value() && sx_eq(r->text(), f.data) && r->created == f.created && r->modified == f.modified, "a file reads back other contents"); }
}
void sx_main() {
	VirtualFilesystem v;
	if (sx_choice(0, 1, "mode") == 0) {
		uint32_t names = sx_choice(0, 1, "names") ? 60 : 5, pat = sx_choice(0, 3, "pattern"); str c = sx_str(1, "byte"); auto name = [&](uint32_t i) { i %= names; str s = (i % 4 ? "dir/" : "") + str(1 + i % 6, 'a' + i % 26) + std::to_string(i); if (i % 3 == 1) s[0] -= 32; return s; };
		for (uint32_t i = 0; i < K; i++) { now_s += 3; str n = name(pat == 1 ? i / 3 : i * 7), d = str((i * 5) % 37, 'd') + (i % 13 == 2 ? c : str()); uint32_t x = pat == 0 ? 0 : pat == 1 ? i % 3 : pat == 2 ? (i % 7 == 6 ? 2 : i % 5 == 4) : (i / 10) % 3; if (x == 0) wr(v, n, d); else if (x == 1) rm(v, n); else mv(v, n, name(i * 11 + 1)); if (i % 40 == 39) check(v); }
		if (fs.size() > 20) sx_reach("many");
	} else {
		for (int i = 0; i < 5; i++) wr(v, "f" + std::to_string(i), str(i, 'x')); size_t n = sx_size(15, 15, MAX, "length"); str l = sx_large(n, "byte"); now_s += 3;
		if (sx_choice(0, 1, "which")) { wr(v, l, "contents"); check(v); now_s += 3; mv(v, l, "f1"); check(v); mv(v, "f2", l); sx_reach("longname"); } else { wr(v, "F3", l); check(v); now_s += 3; mv(v, "f3", "other"); wr(v, "f3", "short"); check(v); wr(v, "OTHER", ""); sx_reach("longdata"); }
	}
	check(v);
}
