// The process dies after any number of the bytes and file operations issued so far have reached the file system.
//@ src: extra/kvstorage/*.cpp
//@ shadow: fs
//@ quick: -DK=3 time=200
//@ thorough: -DK=4 time=800
//@ reach: crashed opened refused inopen
//@ bounds: K operations (3 quick, 4 thorough) out of set, remove, clear and reopen on a new or an existing database of two items; keys of 1 byte, values of 0 or 1 bytes, all byte values; every crash point
//@ assume: the file system model (rt/shadow/fs): what a process wrote survives its death, stream buffers do not; a write can stop after any byte, a rename is all or nothing; power loss is not modelled
#include "extra/kvstorage/kvstorage.hpp"
#include "kv_ref.h"
#include <fstream>
#include <filesystem>
#include <memory>
using namespace Lambda::Storage;
void sx_main() {
	sxfs::add("/w", sxfs::DIR_); const str file = "/w/s.ldb"; Map m, before; if (sx_choice(0, 1, "existing")) { str f = str("mlkvdb\3\0", 8); rec_(f, 0, "a", "1"); rec_(f, 0, "b", ""); rec_(f, 0, "a", "22"); m = {{"a", "22"}, {"b", ""}}; sxfs::add(file, sxfs::FILE_, f); }
	sxfs::units = sx_choice(0, 28 + 22 * K, "crash"); long start = 0; bool torn = false; long limit = sxfs::units; std::unique_ptr<LocalStorage> s; auto begin = [&] { before = m; start = sxfs::done; };
	auto ended = [&] { torn = sxfs::done > limit && start < limit; return sxfs::done > limit; };
	auto open = [&] { s.reset(); try { s = std::make_unique<LocalStorage>(file); } catch (const std::exception&) { if (sxfs::done <= limit) throw; } };
	begin(); open(); bool crashed = ended(), inopen = crashed;
	for (int i = 0; i < K && !crashed; i++) { begin(); try { switch (sx_choice(0, 3, "op")) {
		case 0: { str k = sx_str(1, "key"), v = sx_text(0, 1, "value"); set_(m, k, v); s->setItem(k, v); break; }
		case 1: { str k = sx_str(1, "key"); del_(m, k); s->removeItem(k); break; }
		case 2: m.clear(); s->clear(); break;
		case 3: open(); inopen = sxfs::done > limit; break;
	} } catch (const std::exception&) { if (sxfs::done <= limit) throw; } crashed = ended(); }
	if (!crashed) { begin(); limit = sxfs::done; torn = false; sxfs::units = 0; } else { sx_reach("crashed"); if (inopen) sx_reach("inopen"); }
	s.reset(); sxfs::units = -1; sxfs::openfiles = 0;
	sxfs::Node* n = sxfs::find(file); str bytes = n ? n->data : str(); bool had = n != nullptr; std::unique_ptr<LocalStorage> t; try { t = std::make_unique<LocalStorage>(file); } catch (const std::exception&) {}
	if (!t) { sx_reach("refused"); sx_assert(torn && !inopen, "a storage whose process died between two operations or while opening cannot be opened"); n = sxfs::find(file); sx_assert((n != nullptr) == had && (!n || n->data == bytes), "the file is altered although opening it failed"); return; }
	sx_reach("opened"); sx_assert(torn ? holds_(*t, before) || holds_(*t, m) : start >= limit ? holds_(*t, before) : holds_(*t, m), torn ? "after the crash the contents are neither those before nor those after the interrupted operation" : "contents are lost although no operation was interrupted"); sx_obs(t->size(), "size");
}
