// The static server when the file system reports errors.
//@ src: extra/staticserver/*.cpp core/html/renderer.cpp core/http/response.cpp core/polyfill/mimetype.cpp
//@ exclude: core/html/templatemap.cpp core/http/transport_v1.cpp core/compression/*.cpp
//@ shadow: fs
//@ merge: std::set<char.*>::contains
//@ quick: time=100
//@ thorough: time=100
//@ reach: served missing fault long
//@ bounds: five paths (a file, a directory, a missing name, names of 300 and 5000 bytes); any one or all of the file system calls from any point on fail, with any of five errors
//@ assume: the file system model (rt/shadow/fs) fails as Linux does: look-ups with an error number, opening without a file, reading with an exception from the stream buffer
#include "extra/staticserver/staticserver.hpp"
#include "core/html/html.hpp"
#include "sx.h"
#include <fstream>
#include <filesystem>
using namespace Lambda;
const std::string Lambda::HTML::Templates::servicePage = "{{svcpage_statuscode}}|{{svcpage_statustext}}|{{svcpage_message_text}}";
static int at, left_, err; static bool hit;
static int fault(int, const std::string&) { if (at && --at == 0) { at = 1; if (left_) { left_--; hit = true; sx_reach("fault"); return err; } at = 0; } return 0; }
void sx_main() {
	using sxfs::add; add("/r", sxfs::DIR_); add("/r/f.js", sxfs::FILE_, "one"); add("/r/a", sxfs::DIR_); add("/r/a/index.htm", sxfs::FILE_, "two"); StaticServer server("/r");
	std::string paths[] = {"/f.js", "/a", "/zz", "/" + std::string(300, 'x'), "/" + std::string(5000, 'y')}; uint32_t k = sx_choice(0, 4, "path"); static const int errs[] = {EACCES, EIO, ENAMETOOLONG, EMFILE, ENOENT}; err = errs[sx_choice(0, 4, "errno")]; at = sx_choice(0, 6, "at"); left_ = sx_choice(1, 2, "times") == 1 ? 1 : 1000; sxfs::fault = fault;
	auto res = server.serve(paths[k]); std::string body(res.body.buffer().begin(), res.body.buffer().end()); sx_obs(res.status.code(), "status"); const char* want = k == 0 ? "one" : k == 1 ? "two" : nullptr;
	if (res.status.code() == 200) { sx_reach("served"); sx_assert(want && body == want, "what is served is not the file's content"); } else { sx_reach("missing"); if (k >= 3) sx_reach("long"); sx_assert(res.status.code() >= 400, "status"); if (want) sx_assert(hit, "an existing file is not served"); }
	sx_assert(sxfs::openfiles == 0, "a file is left open");
}
