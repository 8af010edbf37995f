// Saving and loading through the filesystem's own interface, with its reader and writer threads.
//@ src: extra/vfs/*.cpp
//@ src: core/polyfill/strings.cpp
//@ src: core/compression/zlib*.cpp
//@ stubs: threads stub_zlib
//@ shadow: fs
//@ nojoin: 1
//@ races: 1
//@ quick: -DPRE=2 time=250
//@ thorough: -DPRE=4 time=850
//@ reach: saved merged refused failed
//@ bounds: a filesystem of 0 to 2 files (one name of one arbitrary byte, contents of one arbitrary byte and of 512 bytes), saved and loaded into an empty filesystem or one that holds a file of the same name; every schedule of the caller and the snapshot thread with up to PRE preemptions (2 quick, 4 thorough); an unsupported file extension, a missing file and a directory in place of the file
//@ assume: sequentially consistent execution; the file system model (rt/shadow/fs); the codec model (rt/stub_zlib.cpp)
#include "extra/vfs/vfs.hpp"
#include "sxz.h"
#include "threads.h"
#include <fstream>
#include <ctime>
using namespace Lambda;
typedef std::string str;
static str low(str s) { for (auto& c : s) c = (c >= 'A') & (c <= 'Z') ? c + 32 : c; return s; }
void sx_main() {
	sxfs::add("/w", sxfs::DIR_); sxfs::add("/w/dir.tar", sxfs::DIR_); const char* names[] = {"a.tar", "a.tgz", "a.zip", "tar", "dir.tar", "/x/a.tar"}; uint32_t e = sx_choice(0, 5, "file"); uint32_t n = sx_choice(0, 2, "files"), old = sx_choice(0, 1, "old");
	const time_t t0 = time(nullptr); VirtualFilesystem v, w; std::vector<std::pair<str, str>> fs; if (n > 0) { str nm = "?.t"; nm[0] = (char)sx_byte("name"); sx_assume(nm[0] != 0); str d(1, (char)sx_byte("data")); fs.push_back({nm, d}); } if (n > 1) fs.push_back({"dir/second", str(512, 'x')});
	for (auto& f : fs) v.write(f.first, f.second); sx_clock_ns += 7000000000ull; if (old) w.write("?.t", "old contents"); if (n && old) sx_assume(low(fs[0].first)[0] == '?' || n == 1);
	sx_preemptions = PRE; bool thrown = false; try { v.saveSnapshot(names[e]); } catch (const std::exception&) { thrown = true; } sx_assert(thrown == (e >= 2), e >= 2 ? "saving to a file that cannot be written or has an unsupported extension is not an error" : "saving fails"); sx_assert(sx_alive() == 1, "the snapshot thread outlives the call");
	if (thrown) { sx_reach(e == 2 || e == 3 ? "refused" : "failed"); try { w.loadSnapshot(names[e]); sx_fail("loading a file that does not exist or has an unsupported extension is not an error"); } catch (const std::exception&) {} sx_assert(w.stats().totalFiles == old, "a failed load changed the filesystem"); return; }
	w.loadSnapshot(names[e]); sx_preemptions = 0; sx_assert(sx_alive() == 1, "the snapshot thread outlives the call"); sx_assert(sxfs::openfiles == 0 && sxz::live == 0, "a file or codec stream is left open");
	size_t files = 0, total = 0; bool repl = false; for (auto& f : fs) { auto r = w.read(f.first); sx_assert(r.has_value(), "a file is lost"); sx_assert(sx_eq(r->text(), f.second), "a file has other contents"); sx_assert(sx_eq(r->name, low(f.first)), "a file has another name"); sx_assert(r->modified == t0, "a file has another modification time"); if (sx_fork(low(f.first) == "?.t")) repl = true; files++; total += f.first.size() + f.second.size(); }
	if (old && !repl) { auto r = w.read("?.t"); sx_assert(r.has_value() && r->text() == "old contents", "a file that is not in the archive is lost"); files++; total += 15; } if (old && repl) sx_reach("merged"); sx_reach("saved");
	sx_assert(w.stats().totalFiles == files && w.listAll().size() == files, "the number of files is wrong after loading"); sx_assert(w.stats().totalSize == total, "the total size is wrong after loading");
}
