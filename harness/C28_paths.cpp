// The static server over a small tree inside a larger one: which file is answered for every path.
//@ src: extra/staticserver/*.cpp core/html/renderer.cpp core/http/response.cpp core/polyfill/mimetype.cpp
//@ exclude: core/html/templatemap.cpp core/http/transport_v1.cpp core/compression/*.cpp
//@ shadow: fs
//@ merge: std::set<char.*>::contains
//@ quick: -DN=8 time=120
//@ thorough: -DN=11 time=780
//@ reach: file dir index notfound root nul
//@ bounds: every path of up to N bytes (8 quick, 11 thorough), all byte values, against a fixed tree with files of the same names inside and outside the root
//@ assume: the file system model (rt/shadow/fs) resolves names as Linux does; no symbolic links
#include "extra/staticserver/staticserver.hpp"
#include "core/html/html.hpp"
#include "core/polyfill/polyfill.hpp"
#include "sx.h"
#include <fstream>
#include <filesystem>
using namespace Lambda;
const std::string Lambda::HTML::Templates::servicePage = "{{svcpage_statuscode}}|{{svcpage_statustext}}|{{svcpage_message_text}}";
static void seen(int op, const std::string& p, sxfs::Node* n) {
	if (op == sxfs::STAT) return; sx_assert(op == sxfs::OPEN_R, "the server changes the file system"); sx_assert(p.size() > 3 && p[0] == '/' && p[1] == 'r' && p[2] == '/', "a file outside the root is opened");
}
void sx_main() {
	using sxfs::add; add("/r", sxfs::DIR_); add("/f.js", sxfs::FILE_, "outside 1"); add("/n", sxfs::FILE_, "outside 2"); add("/index.html", sxfs::FILE_, "outside 3"); add("/a", sxfs::DIR_); add("/a/f.js", sxfs::FILE_, "outside 4");
	add("/r/f.js", sxfs::FILE_, "one"); add("/r/n", sxfs::FILE_, std::string("tw\0o", 4)); add("/r/a", sxfs::DIR_); add("/r/a/index.html", sxfs::FILE_, "three"); add("/r/b", sxfs::DIR_); add("/r/b/index.htm", sxfs::FILE_, ""); add("/r/d.", sxfs::DIR_); add("/r/d./g", sxfs::FILE_, "five"); add("/r/d./index.html", sxfs::FILE_, "eight"); add("/r/d./s", sxfs::DIR_); add("/r/d./s/index.html", sxfs::FILE_, "nine"); add("/r/...", sxfs::FILE_, "six"); add("/r/p", sxfs::OTHER_); add("/r/index.htm", sxfs::FILE_, "seven");
	sxfs::cwd = "/a"; sxfs::seen = seen; StaticServer server(sx_choice(0, 1, "root") ? "/r/" : "/r");
	std::string path = sx_text(0, N, "path"); auto res = server.serve(path); sx_obs(res.status.code(), "status");
	// expected
	std::vector<std::string> st; std::string cur; bool nul = false, dir = true; for (size_t i = 0; i <= path.size(); i++) { if (i == path.size() || sx_fork((path[i] == '/') | (path[i] == '\\'))) { dir = cur.empty() || (cur.size() == 1 && sx_fork(cur[0] == '.')); if (!dir && cur.size() == 2 && sx_fork((cur[0] == '.') & (cur[1] == '.'))) { dir = true; if (!st.empty()) st.pop_back(); } else if (!dir) st.push_back(cur); cur.clear(); } else cur.push_back(path[i]); }
	std::string full = "/r"; for (auto& s : st) { full += "/" + s; for (char c : s) if (sx_fork(c == 0)) nul = true; } sxfs::Node* n = nul ? nullptr : sxfs::find(full); sxfs::Node* hit = nullptr;
	if (n && n->kind == sxfs::FILE_ && !dir) { hit = n; sx_reach("file"); }
	if (n && n->kind == sxfs::DIR_) { bool dotted = false; if (!dir) for (char c : st.back()) if (c == '.') dotted = true; if (!dotted) { sx_reach("dir"); hit = sxfs::find(n->path + "/index.html"); if (!hit) hit = sxfs::find(n->path + "/index.htm"); if (hit) sx_reach("index"); if (n->path == "/r") sx_reach("root"); } }
	if (nul) sx_reach("nul");
	if (!hit) { sx_reach("notfound"); sx_assert(res.status.code() == 404, "a path that names no file is not answered with 404"); return; }
	sx_assert(res.status.code() == 200, "an existing file is not served"); std::string body(res.body.buffer().begin(), res.body.buffer().end()); sx_assert(body == hit->data, "the file's content is not what is served"); size_t d = hit->path.rfind('.'), s = hit->path.rfind('/'); std::string ext = d != std::string::npos && d > s + 1 ? hit->path.substr(d) : ""; sx_assert(res.headers.get("content-type") == Content::getExtMimetype(ext), "the type is not the one of the file's extension");
}
