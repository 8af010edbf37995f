//@ src: core/http/url.cpp core/http/urlsearchparams.cpp core/http/kvcontainer.cpp core/polyfill/strings.cpp
//@ quick: -DMAX=129 time=150
//@ thorough: -DMAX=4097 time=800
//@ merge: std::set<char.*>::contains
//@ flags: -fno-inline
//@ bounds: URLs in which one part (scheme, user, password, host, port, path, a query value, fragment) or all of them have a length of 3 to 8 characters or one around a power of two up to MAX (129/4097), arbitrary bytes at its ends; up to 30 query pairs
//@ reach: long many all
// Long parts.
#include "large.h"
#include "core/http/http.hpp"
#include <stdexcept>
using namespace Lambda::HTTP;
typedef std::string str;
static str part(size_t n, const char* name, const char* no) { str s = sx_large(n, name); for (char c : str{s[0], s[n - 1]}) { sx_assume(!sx_oneof(c, no)); sx_assume(sx_in(c, 0x21, 0x7e)); } return s; }
void sx_main() {
	size_t n = sx_size(3, 8, MAX, "len"); uint32_t which = sx_choice(0, 9, "which"), pairs = 2; static const uint32_t pc[] = {1, 3, 9, 30}; if (which == 9) { if (n > 8) sx_drop(); pairs = pc[sx_choice(0, 3, "pairs")]; }
	auto len = [&](uint32_t w, size_t d) { return which == w || which == 8 ? n : d; };
	str sc = part(len(0, 4), "scheme", ":/"), us = part(len(1, 2), "user", ":@/?#"), pw = part(len(2, 2), "pass", "@/?#"), ho = part(len(3, 3), "host", ":@/?#"), po = part(len(4, 2), "port", ":@/?#"), pa = "/" + part(len(5, 2), "path", "?#"), qv = part(len(6, 2), "query", "&#"), fr = "#" + part(len(7, 2), "frag", "");
	str q; std::vector<std::pair<str, str>> kv; for (uint32_t i = 0; i < pairs; i++) { str k = "k" + str(1, 'a' + i / 10) + str(1, '0' + i % 10), v = i == pairs / 2 ? qv : "v" + std::to_string(i); kv.push_back({k, v}); q += (i ? "&" : "") + k + "=" + v; }
	bool creds = sx_choice(0, 1, "creds"), port = sx_choice(0, 1, "port"); if (!creds) us = pw = ""; if (!port) po = ""; str text = sc + "://" + (creds ? us + ":" + pw + "@" : "") + ho + (port ? ":" + po : "") + pa + "?" + q + fr; bool threw = false; URL u; str h; try { u = URL(text); h = u.href(); } catch (const std::exception&) { threw = true; } sx_assert(!threw, "well-formed URL accepted"); if (threw) return;
	sx_assert(sx_eq(u.protocol, sc) && sx_eq(u.username, us) && sx_eq(u.password, pw) && sx_eq(u.hostname, ho) && sx_eq(u.port, po) && sx_eq(u.host, port ? ho + ":" + po : ho) && sx_eq(u.pathname, pa) && sx_eq(u.hash, fr), "parsed parts"); sx_assert(u.searchParams.size() == pairs, "query pairs"); for (auto& e : kv) sx_assert(sx_eq(u.searchParams.get(e.first), e.second), "query value"); sx_assert(sx_eq(h, text), "serialized URL is the parsed one"); sx_obs(h, "href"); sx_reach(which == 8 ? "all" : which == 9 ? "many" : "long");
}
