// The file system reports errors: full disk at any byte, files that cannot be opened or renamed.
//@ src: extra/kvstorage/*.cpp
//@ shadow: fs
//@ quick: -DK=3 time=150
//@ thorough: -DK=4 time=600
//@ reach: failedop failedopen fine
//@ bounds: K operations (3 quick, 4 thorough) out of set, remove, clear, reopen on a database of two items; from any file system call or written byte on, that call or every later one fails
//@ assume: the file system model (rt/shadow/fs)
#include "extra/kvstorage/kvstorage.hpp"
#include "kv_ref.h"
#include <fstream>
#include <filesystem>
#include <memory>
using namespace Lambda::Storage;
static int at = 0, left_ = 0; static bool hit;
static int fault(int op, const std::string&) { if (at && --at == 0) { at = 1; if (left_) { left_--; hit = true; return op == sxfs::WRITE ? 1001 + (int)sx_choice(0, 2, "written") : EIO; } at = 0; } return 0; }
void sx_main() {
	sxfs::add("/w", sxfs::DIR_); const str file = "/w/s.ldb"; str f = str("mlkvdb\3\0", 8); rec_(f, 0, "a", "1"); rec_(f, 0, "b", ""); Map m = {{"a", "1"}, {"b", ""}}; sxfs::add(file, sxfs::FILE_, f); at = sx_choice(1, 18 + 8 * K, "at"); left_ = sx_choice(0, 1, "all") ? 1000 : 1; sxfs::fault = fault; std::unique_ptr<LocalStorage> s; Map before = m; bool failed = false, open_failed = false;
	try { s = std::make_unique<LocalStorage>(file); } catch (const std::exception&) { open_failed = failed = true; }
	for (int i = 0; i < K && !failed; i++) { before = m; uint32_t op = sx_choice(0, 3, "op"); try { switch (op) {
		case 0: { str k = sx_str(1, "key"); s->setItem(k, "v"); set_(m, k, "v"); break; }
		case 1: { str k = sx_str(1, "key"); s->removeItem(k); del_(m, k); break; }
		case 2: s->clear(); m.clear(); break;
		case 3: s.reset(); s = std::make_unique<LocalStorage>(file); break;
	} } catch (const std::exception&) { failed = true; if (op == 3) { open_failed = true; s.reset(); } } }
	if (failed) { sx_assert(hit, "an operation fails although the file system works"); sx_reach(open_failed ? "failedopen" : "failedop"); if (s) sx_assert(holds_(*s, before), "an operation that failed changed the contents"); } else sx_reach("fine");
	s.reset(); sxfs::fault = nullptr; sx_assert(sxfs::openfiles == 0, "a file is left open"); sxfs::Node* n = sxfs::find(file); str bytes = n ? n->data : ""; std::unique_ptr<LocalStorage> t; try { t = std::make_unique<LocalStorage>(file); } catch (const std::exception&) {}
	if (!t) { sx_assert(failed && !open_failed, "a storage none of whose operations failed cannot be opened again"); n = sxfs::find(file); sx_assert(n && n->data == bytes, "the file is altered although opening it failed"); return; }
	sx_assert(holds_(*t, before) || (!failed && holds_(*t, m)), "an operation that succeeded is lost, or one that failed took effect"); if (!failed) sx_assert(holds_(*t, m), "an operation that succeeded is lost");
}
