// Operation sequences on the virtual filesystem against a plain map.
//@ src: extra/vfs/*.cpp
//@ src: core/polyfill/strings.cpp
//@ src: core/compression/zlib*.cpp
//@ stubs: stub_zlib
//@ shadow: fs
//@ quick: -DK=3 time=150
//@ thorough: -DK=4 time=800
//@ reach: write overwrite remove rename replace self missing absent
//@ bounds: K operations (3 quick, 4 thorough) out of write, remove and rename, names of 1 or 2 bytes and contents of 0 to 2 bytes, all byte values; then lookups under the same and other letter cases; virtual time passes between the operations
//@ assume: hash tables with the library's structure and a hash of the key's length only; virtual clock
#include "extra/vfs/vfs.hpp"
#include "kv_ref.h"
#include <ctime>
#include <stdexcept>
using namespace Lambda;
struct F { str name, data; int64_t created, modified; };
static std::vector<F> fs; static int64_t now_s = 1700000000; extern "C" time_t time(time_t* t) noexcept { if (t) *t = now_s; return now_s; } static int64_t now_() { return now_s; }
static str low(str s) { for (auto& c : s) c = (c >= 'A') & (c <= 'Z') ? c + 32 : c; return s; }
static long idx(const str& n) { str l = low(n); for (size_t i = 0; i < fs.size(); i++) if (same_(fs[i].name, l)) return i; return -1; }
static void check(VirtualFilesystem& v) {
	size_t total = 0; for (auto& f : fs) total += f.name.size() + f.data.size(); sx_assert(v.stats().totalFiles == fs.size(), "the number of files is wrong"); sx_assert(v.stats().totalSize == total, "the total size is wrong");
}
void sx_main() {
	VirtualFilesystem v;
	for (int i = 0; i < K; i++) { now_s += 5; str n = sx_text(1, 2, "name");
		switch (sx_choice(0, 2, "op")) {
			case 0: { str d = sx_text(0, 2, "data"); long k = idx(n); if (sx_choice(0, 1, "vector")) v.write(n, std::vector<uint8_t>(d.begin(), d.end())); else v.write(n, d); if (k < 0) { fs.push_back({low(n), d, now_(), now_()}); sx_reach("write"); } else { fs[k].data = d; fs[k].modified = now_(); sx_reach("overwrite"); } break; }
			case 1: { long k = idx(n); v.remove(n); if (k >= 0) { fs.erase(fs.begin() + k); sx_reach("remove"); } break; }
			case 2: { str m = sx_text(1, 2, "newname"); long k = idx(n), t = idx(m); bool thrown = false; try { v.move(n, m); } catch (const std::exception&) { thrown = true; }
				if (k < 0) { sx_assert(thrown, "renaming a missing file is not an error"); sx_reach("missing"); break; } sx_assert(!thrown, "renaming an existing file fails"); if (t == k) { sx_reach("self"); break; } fs[k].name = low(m); if (t >= 0) { fs.erase(fs.begin() + t); sx_reach("replace"); } else sx_reach("rename"); break; }
		}
		check(v);
	}
	auto all = v.listAll(); sx_assert(all.size() == fs.size(), "the listing does not have one entry per file");
	for (auto& f : fs) {
		int c = 0; for (auto& e : all) if (same_(e.name, f.name)) { c++; sx_assert(e.size == f.data.size(), "a listed size is wrong"); sx_assert(e.created == f.created, "a listed creation time is wrong"); sx_assert(e.modified == f.modified, "a listed modification time is wrong"); } sx_assert(c == 1, "a file is not listed exactly once");
		str q = f.name; for (auto& ch : q) { uint8_t up = sx_byte("upper"); ch = (ch >= 'a') & (ch <= 'z') & (up & 1) ? ch - 32 : ch; }
		auto r = v.read(q); sx_assert(r.has_value(), "a file cannot be read"); sx_assert(sx_eq(r->text(), f.data), "a file reads back other contents"); sx_assert(r->size() == f.data.size(), "a file has the wrong size"); sx_assert(r->created == f.created && r->modified == f.modified, "a file read has the wrong times");
		auto in = v.fileInfo(q); sx_assert(in.has_value() && in->size == f.data.size() && in->created == f.created && in->modified == f.modified && same_(in->name, f.name), "file info is wrong");
	}
	str p = sx_text(1, 2, "probe"); if (idx(p) < 0) { sx_reach("absent"); sx_assert(!v.read(p).has_value() && !v.fileInfo(p).has_value(), "a file that does not exist is found"); }
	sx_obs(fs.size(), "files");
}
