// Files written to an archive, the archive's bytes, and what is read back from it.
//@ src: extra/vfs/*.cpp
//@ src: core/polyfill/strings.cpp
//@ src: core/compression/zlib*.cpp
//@ stubs: threads stub_zlib
//@ shadow: fs
//@ nojoin: 1
//@ quick: -DMT=6 -DNL=9 -DSL=9 time=200
//@ thorough: -DMT=33 -DNL=15 -DSL=14 time=850
//@ reach: longname shortname gz tar empty two none boundary
//@ bounds: none, one or two files; names of 0 to 1025 bytes (the lengths around 100 and 512 quick, around 256 and 1024 as well thorough), one or two bytes of each name and four of each content arbitrary (names without NUL); contents of 0 to 3073 bytes around the multiples of 512; modification times below 2^MT (6 quick, 33 thorough) for the shortest files, a fixed one for the others; .tar, .tar.gz and .tgz
//@ assume: the file system model (rt/shadow/fs); the codec model (rt/stub_zlib.cpp)
#include "extra/vfs/formats.hpp"
#include "sxz.h"
#include "threads.h"
#include <fstream>
using namespace Lambda::VFS;
typedef std::string str;
static const size_t NLEN[] = {1, 98, 99, 100, 101, 0, 511, 512, 513, 255, 256, 155, 1023, 1024, 1025}, SLEN[] = {0, 1, 511, 512, 513, 1023, 1024, 1025, 1536, 2047, 2048, 2049, 3072, 3073};
struct F { str name, data; int64_t t; };
static str fill(size_t n, const char* nm, bool nul) { str s(n, 0); for (size_t i = 0; i < n; i++) s[i] = 'a' + (i * 7 + i / 26) % 26; const size_t at[] = {0, n / 2, n - 2, n - 1}; for (int k = 0; k < 4; k++) { size_t p = at[k]; if (p >= n || (!nul && k != (n > 99 ? 2 : 3) && !(k == 0 && n < 99))) continue; s[p] = (char)sx_byte(nm); if (!nul) sx_assume(s[p] != 0); } return s; }
// the number in an octal field of n characters: digits, then a NUL or blank
static uint64_t oct(const str& f, size_t p, size_t n) { uint64_t v = 0; for (size_t i = 0; i + 1 < n; i++) { sx_assert((f[p + i] >= '0') & (f[p + i] <= '7'), "a number in a header is not octal digits"); v = v << 3 | (uint64_t)(f[p + i] - '0'); } char e = f[p + n - 1]; sx_assert((e == 0) | (e == ' '), "a number in a header is not terminated"); return v; }
static uint64_t header(const str& f, size_t p, uint64_t& t) {
	sx_assert(p + 512 <= f.size(), "the archive ends inside a header"); sx_assert(f.substr(p + 257, 6) == str("ustar\0", 6) && f.substr(p + 263, 2) == "00", "a header is not ustar");
	uint64_t sum = 0; for (size_t i = 0; i < 512; i++) sum += i >= 148 && i < 156 ? 32 : (uint8_t)f[p + i]; sx_assert(oct(f, p + 148, 8) == sum, "a header checksum is wrong"); t = oct(f, p + 136, 12); return sx_concretize(oct(f, p + 124, 12));
}
static void data(const str& f, size_t& p, const str& want, const char* m) { sx_assert(p + want.size() <= f.size() && sx_eq(f.substr(p, want.size()), want), m); p += want.size(); while (p % 512) { sx_assert(p < f.size() && f[p] == 0, "data is not padded to the next block with zeros"); p++; } }
void sx_main() {
	sxfs::add("/w", sxfs::DIR_); const char* ext[] = {"a.tar", "b.tar.gz", "C.TGZ"}; uint32_t e = sx_choice(0, 2, "format"); uint32_t n = sx_choice(0, 2, "files"); std::vector<F> fs;
	for (uint32_t i = 0; i < n; i++) { size_t nl = i ? (sx_choice(0, 1, "longname2") ? 120 : 2) : NLEN[sx_choice(0, NL - 1, "namelen")], sl = i ? (sx_choice(0, 1, "size2") ? 512 : 3) : SLEN[sx_choice(0, SL - 1, "size")]; F x{fill(nl, "name", false), fill(sl, "data", true), 0}; x.t = i || nl != 1 || sl > 1 ? 1700000123 : (int64_t)(sx_u64("mtime") & ((1ull << MT) - 1)); sx_reach(nl >= 100 ? "longname" : "shortname"); if (!sl) sx_reach("empty"); if (sl % 512 == 0) sx_reach("boundary"); fs.push_back(x); }
	if (n == 2 && e == 2) sx_drop(); if (n == 2) sx_reach("two"); if (!n) sx_reach("none");
	Formats::SyncQueue q; for (auto& x : fs) { VirtualFile v; v.name = x.name; v.buffer.assign(x.data.begin(), x.data.end()); v.created = 5; v.modified = x.t; q.push(std::move(v)); } q.close();
	Formats::Tar::exportArchive(ext[e], q); sx_assert(sxfs::openfiles == 0, "the archive is left open"); sx_assert(sxz::live == 0, "a codec stream is not released"); auto* node = sxfs::find(str("/w/") + ext[e]); sx_assert(node, "the archive was not written"); str f = node->data;
	if (e) { sx_reach("gz"); str d; sx_assert(sxz::decode(f, d), "the compressed archive is not one complete stream"); f = d; } else sx_reach("tar");
	size_t p = 0; for (auto& x : fs) { uint64_t t; 
		if (x.name.size() >= 100) { sx_assert(f.substr(p, 14) == str("././@LongLink\0", 14) && f[p + 156] == 'L', "a long name has no long name entry"); uint64_t k = header(f, p, t); sx_assert(k == x.name.size() || k == x.name.size() + 1, "a long name's length is wrong"); p += 512; str w = x.name; if (k > w.size()) w.push_back(0); data(f, p, w, "a long name is wrong"); }
		uint64_t k = header(f, p, t); sx_assert(t == (uint64_t)x.t, "a modification time is wrong"); sx_assert(k == x.data.size(), "a size is wrong"); sx_assert((f[p + 156] == '0'), "a file's type is wrong"); if (x.name.size() < 100) { sx_assert(sx_eq(f.substr(p, x.name.size()), x.name), "a name is wrong"); for (size_t i = x.name.size(); i < 100; i++) sx_assert(f[p + i] == 0, "a name is not filled with zeros"); } p += 512; data(f, p, x.data, "a file's data is wrong"); }
	sx_assert(f.size() - p >= 1024 && (f.size() - p) % 512 == 0, "the archive does not end with two empty blocks"); for (; p < f.size(); p++) sx_assert(f[p] == 0, "the archive does not end with empty blocks");
	Formats::SyncQueue r; Formats::Tar::importArchive(ext[e], r); sx_assert(r.done(), "the queue is not closed after loading"); sx_assert(sxfs::openfiles == 0 && sxz::live == 0, "a file or codec stream is left open");
	for (auto& x : fs) { sx_assert(r.await(), "a file is not restored"); auto v = r.next(); sx_assert(sx_eq(v.name, x.name), "a file is restored under another name"); sx_assert(sx_eq(v.text(), x.data), "a file is restored with other contents"); sx_assert(v.modified == x.t, "a file is restored with another modification time"); }
	sx_assert(!r.await(), "more files are restored than were saved");
}
