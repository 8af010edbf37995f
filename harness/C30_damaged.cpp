// Opening a file of arbitrary content.
//@ src: extra/kvstorage/*.cpp
//@ shadow: fs
//@ quick: -DN=12 -DM=5 time=200
//@ thorough: -DN=22 -DM=8 time=800
//@ reach: opened refused
//@ bounds: any file of up to N bytes (12 quick, 22 thorough), and any file that starts with the right header and continues with up to N bytes (short cases) of arbitrary content, or with one intact record followed by a record header of arbitrary content and M bytes (5 quick, 8 thorough)
//@ assume: the file system model (rt/shadow/fs)
#include "extra/kvstorage/kvstorage.hpp"
#include "kv_ref.h"
#include <fstream>
#include <filesystem>
#include <memory>
using namespace Lambda::Storage;
void sx_main() {
	sxfs::add("/w", sxfs::DIR_); const str file = "/w/s.ldb"; str f; uint32_t kind = sx_choice(0, 2, "kind");
	if (kind == 0) f = sx_text(0, N, "file"); else { f = str("mlkvdb\3\0", 8); if (kind == 2) { rec_(f, 0, "key", "val"); f += sx_text(8 + M, 8 + M, "rest"); } else f += sx_text(0, N, "rest"); }
	sxfs::add(file, sxfs::FILE_, f); Map m; bool good = parse_(f, m); std::unique_ptr<LocalStorage> s; try { s = std::make_unique<LocalStorage>(file); } catch (const std::exception&) {}
	sx_obs(s != nullptr, "opened");
	if (!s) { sx_reach("refused"); sx_assert(!good, "an intact database is refused"); sxfs::Node* n = sxfs::find(file); sx_assert(n && n->data.size() == f.size() && sx_eq(n->data, f), "the file is altered although opening it failed"); }
	else { sx_reach("opened"); sx_assert(good, "a file that is not an intact database is opened without an error"); sx_assert(holds_(*s, m), "the contents are not those of the file"); }
}
