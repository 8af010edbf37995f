// Archives with arbitrary bytes in one field of a header, and files of arbitrary bytes.
//@ src: extra/vfs/*.cpp
//@ src: core/polyfill/strings.cpp
//@ src: core/compression/zlib*.cpp
//@ stubs: threads stub_zlib
//@ shadow: fs
//@ nojoin: 1
//@ quick: -DN=5 -DW=4 time=250
//@ thorough: -DN=8 -DW=6 time=850
//@ reach: loaded refused short gz field badsum
//@ bounds: one header in which one field (name, size, time, checksum, type and link name, magic) has up to W arbitrary bytes (4 quick, 6 thorough; the size 3) at its start or its end and the checksum is right, or any value; the same compressed for the end of the size and the name with a right checksum; 70 bytes of data and the end of the archive after it; files of up to N arbitrary bytes (5 quick, 8 thorough), plain and compressed, and compressed streams of that many arbitrary bytes after a sound start
//@ assume: the file system model (rt/shadow/fs); the codec model (rt/stub_zlib.cpp)
#include "extra/vfs/formats.hpp"
#include "tar_ref.h"
#include "sxz.h"
#include "threads.h"
#include <fstream>
using namespace Lambda::VFS;
typedef std::string str;
void sx_main() {
	sxz::maxlen = 1 << 13; sxfs::add("/w", sxfs::DIR_); uint32_t kind = sx_choice(0, 2, "kind"); bool gz = false, field = kind == 0, sumok = true; str f; uint64_t stored = 0; bool sound = true;
	if (field) {
		static const struct { size_t p, n; } fs[] = {{0, 100}, {124, 12}, {136, 12}, {148, 8}, {156, 101}, {257, 8}, {345, 167}}; auto w = fs[sx_choice(0, 6, "field")]; bool tail = sx_choice(0, 1, "end"); str h = tarref::header("name", 70, 1700000000); size_t n = w.p == 124 ? 3 : w.n < W ? w.n : W; for (size_t i = 0; i < n; i++) { char& c = h[w.p + (tail ? w.n - n + i : i)]; c = (char)sx_byte("field"); if (w.p == 124 && sx_fork((c >= '0') & (c <= '7'))) c = (char)sx_concretize((uint8_t)c); }
		if (w.p != 148) { tarref::oct(h, 148, 8, tarref::sum(h)); if (sx_choice(0, 1, "badsum")) { uint32_t d = sx_u32("sum"); sx_assume(d < (1u << 21)); sx_assume(d != tarref::sum(h)); tarref::oct(h, 148, 8, d); sumok = false; sx_reach("badsum"); } }
		else for (size_t i = 0; i < 8; i++) { if (i < 7) { stored = stored << 3 | (uint64_t)(h[148 + i] - '0'); sound = sound & (h[148 + i] >= '0') & (h[148 + i] <= '7'); } else sound = sound & ((h[155] == 0) | (h[155] == ' ')); }
		if (w.p == 148 && sx_fork(sound) && sx_fork(stored != tarref::sum(h))) sumok = false; f = h + str(70, 'd'); tarref::pad(f); tarref::end(f); if (sumok && (w.p == 124 ? tail : w.p == 0) && sx_choice(0, 1, "gz")) { gz = true; str z = "SX"; sxz::lit(z, f); sxz::end(z, f.size()); f = z; } sx_reach("field");
	} else if (kind == 1) { sxz::maxlen = 6; f = sx_text(0, N, "bytes"); gz = sx_choice(0, 1, "gz"); sx_reach("short"); }
	else { gz = true; sxz::maxlen = 6; f = "SX"; f += sx_text(0, N, "stream"); str t(520, 0); for (int i = 0; i < 3; i++) t[i] = (char)sx_byte("tail"); f += t; sx_reach("gz"); }
	const char* file = gz ? "a.tgz" : "a.tar"; sxfs::add(str("/w/") + file, sxfs::FILE_, f); Formats::SyncQueue q; bool thrown = false; try { Formats::Tar::importArchive(file, q); } catch (const std::exception&) { thrown = true; }
	sx_reach(thrown ? "refused" : "loaded"); if (kind == 1) sx_assert(thrown, "a file that is too short for an archive is loaded without an error"); if (!sumok) sx_assert(thrown && q.empty(), "an archive with a wrong header checksum is loaded"); sx_assert(thrown || q.done(), "the queue is not closed after loading"); sx_assert(sxfs::openfiles == 0 && sxz::live == 0, "a file or codec stream is left open");
}
