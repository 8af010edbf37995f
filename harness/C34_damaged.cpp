// Archives cut short or damaged in one place.
//@ src: extra/vfs/*.cpp
//@ src: core/polyfill/strings.cpp
//@ src: core/compression/zlib*.cpp
//@ stubs: threads stub_zlib
//@ shadow: fs
//@ nojoin: 1
//@ quick: time=150
//@ thorough: -DFULL time=850
//@ reach: cut damaged trailing gz
//@ bounds: an archive of a file of 3 bytes and one of 512 bytes with a name of 101 characters, plain and compressed; cut at every length, or one byte at any position of a header (quick: the first and last header, and one byte in eight where a header has no number, type or magic) changed to any other value
//@ assume: the file system model (rt/shadow/fs); the codec model (rt/stub_zlib.cpp)
#include "extra/vfs/formats.hpp"
#include "tar_ref.h"
#include "sxz.h"
#include "threads.h"
#include <fstream>
using namespace Lambda::VFS;
typedef std::string str;
void sx_main() {
	sxfs::add("/w", sxfs::DIR_); const str n[] = {"a", str(101, 'n')}, d[] = {"abc", str(512, 'x')}; str f; size_t ends[3]; const size_t dataend[] = {515, 3072, 1 << 20}; for (int i = 0; i < 2; i++) { tarref::file(f, n[i], d[i], 1700000000 + i); ends[i] = f.size(); } tarref::end(f); ends[2] = f.size() - 512; str fz = "SX"; sxz::lit(fz, f.substr(0, 700)); sxz::lit(fz, f.substr(700)); sxz::end(fz, f.size());
	bool gz = sx_choice(0, 1, "gz"), cut = sx_choice(0, 1, "cut"); size_t at; int whole = 0; // files that lie before the damage
	if (cut) { at = gz ? sx_choice(0, fz.size() - 1, "at") : sx_choice(0, f.size() - 1, "at"); sx_reach("cut"); }
	else { static const size_t hs[] = {0, 1024 + 1024, 1024}; size_t h = hs[sx_choice(0,
#ifdef FULL
		2
#else
		1
#endif
		, "header")], b = sx_choice(0, 511, "byte"); if (b >= 148 && b < 156) sx_drop();
#ifndef FULL
		if (((b > 4 && b < 95) || (b > 160 && b < 257) || b > 270) && b % 8) sx_drop();
#endif
		 at = h + b; char v = (char)sx_byte("value"); sx_assume(v != f[at]); f[at] = v; if (gz) { fz = "SX"; sxz::lit(fz, f); sxz::end(fz, f.size()); } sx_reach("damaged"); }
	str g = gz ? fz : f; size_t plain = at; if (cut) { g.resize(at); if (gz) { sx_reach("gz"); plain = at < 2 + 3 ? 0 : at < 705 ? at - 5 : at < 708 ? 700 : at - 8; if (plain > f.size()) plain = f.size(); } }
	for (int i = 0; i < 2; i++) if (cut ? plain >= ends[i] : at >= ends[i]) whole = i + 1;
	const char* file = gz ? "a.tgz" : "a.tar"; sxfs::add(str("/w/") + file, sxfs::FILE_, g); Formats::SyncQueue q; bool thrown = false; try { Formats::Tar::importArchive(file, q); } catch (const std::exception&) { thrown = true; }
	if (cut && plain >= ends[2]) sx_reach("trailing"); else sx_assert(thrown, cut ? "an archive that is cut short is loaded without an error" : "an archive with a damaged header is loaded without an error");
	int got = 0; while (!q.empty()) { auto v = q.next(); sx_assert(got < 2 && sx_eq(v.name, n[got]) && sx_eq(v.text(), d[got]) && v.modified == 1700000000 + got, "a file is loaded that is not in the archive as it is"); got++; }
	sx_assert(got <= whole || (cut && got == whole + 1 && plain >= dataend[whole]), "a file is loaded although the damage lies before the end of its data"); sx_assert(sxfs::openfiles == 0 && sxz::live == 0, "a file or codec stream is left open");
}
