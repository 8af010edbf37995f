//@ src: core/http/url.cpp core/http/urlsearchparams.cpp core/http/kvcontainer.cpp core/polyfill/strings.cpp
//@ quick: -DN=7 -DL=2 time=200
//@ thorough: -DN=9 -DL=3 time=850
//@ merge: std::set<char.*>::contains
//@ flags: -fno-inline
//@ bounds: every URL built from a scheme, user, password, host, port, path, query of up to two pairs and fragment of up to L characters each (2/3) of any value allowed there; every text up to N bytes (7/9) for the error cases
//@ reach: parts creds userpart port query frag roundtrip path error nohost
#include "sx.h"
#include "core/http/http.hpp"
#include <stdexcept>
using namespace Lambda::HTTP;
typedef std::string str;
static bool white(char c) { return (c == ' ') | (c == '\t') | (c == '\r') | (c == '\n'); }
static str part(size_t lo, size_t hi, const char* name, const char* no) { str s = sx_text(lo, hi, name); for (char c : s) sx_assume(!sx_oneof(c, no)); return s; }
static void parts(const URL& u, const str& sc, const str& us, const str& pw, const str& ho, const str& po, const str& pa, const str& fr, const char* w) {
	sx_assert(sx_eq(u.protocol, sc), w); sx_assert(sx_eq(u.username, us), w); sx_assert(sx_eq(u.password, pw), w); sx_assert(sx_eq(u.hostname, ho), w); sx_assert(sx_eq(u.host, po.size() ? ho + ":" + po : ho), w); sx_assert(sx_eq(u.port, po), w); sx_assert(sx_eq(u.pathname, pa), w); sx_assert(sx_eq(u.hash, fr), w);
}
void sx_main() {
	if (sx_choice(0, 1, "mode") == 0) {
		uint32_t shape = sx_choice(0, 63, "shape"); bool creds = shape & 1, pass = shape & 2, port = shape & 4, slash = shape & 8, query = shape & 16, frag = shape & 32; if ((pass && !creds) || ((query || frag) && !slash)) sx_drop();
		bool abs = true; str sc, us, pw, ho, po, pa = "/", fr, text, q; if (!creds && !port && slash) abs = sx_choice(0, 1, "abs");
		if (abs) { sc = part(1, L, "scheme", ":/"); text = sc + "://"; if (creds) { us = part(1, L, "user", ":@/?#"); text += us; sx_reach("creds"); if (pass) { pw = part(1, L, "pass", "@/?#"); text += ":" + pw; } else sx_reach("userpart"); text += "@"; } ho = part(1, L, "host", ":@/?#"); text += ho; if (port) { po = part(1, L, "port", ":@/?#"); text += ":" + po; sx_reach("port"); } }
		if (slash) { pa = "/" + part(0, L, "path", "?#"); text += pa; }
		std::vector<std::pair<str, str>> kv;
		if (query) { uint32_t n = sx_choice(1, 2, "pairs"); str k = part(1, 1, "k", "&=#?"), v = part(1, L, "v", "&#"); for (char c : k + v) sx_assume(!white(c)); for (char c : k) sx_assume(!sx_in(c, 'A', 'Z')); kv.push_back({k, v}); q = k + "=" + v; if (n == 2) { str k2 = part(1, 1, "k2", "&=#?"), v2 = part(1, 1, "v2", "&#"); for (char c : k2 + v2) sx_assume(!white(c)); for (char c : k2) sx_assume(!sx_in(c, 'A', 'Z')); sx_assume((uint8_t)k[0] < (uint8_t)k2[0]); kv.push_back({k2, v2}); q += "&" + k2 + "=" + v2; } text += "?" + q; sx_reach("query"); }
		if (frag) { fr = "#" + sx_text(1, L, "frag"); text += fr; sx_reach("frag"); }
		bool threw = false; URL u; bool cs = sx_choice(0, 1, "cstr"); if (cs) for (char c : text) sx_assume(c != 0); try { u = cs ? URL(text.c_str()) : URL(text); } catch (const std::exception&) { threw = true; }
		sx_assert(!threw, "well-formed URL accepted"); if (threw) return; for (auto* x : {&u.protocol, &u.username, &u.password, &u.host, &u.hostname, &u.port, &u.pathname, &u.hash}) sx_obs(*x, "part");
		parts(u, sc, us, pw, ho, po, pa, fr, "parsed part"); auto en = u.searchParams.entries(); sx_assert(en.size() == kv.size(), "query pairs"); for (size_t i = 0; i < kv.size() && i < en.size(); i++) { sx_assert(sx_eq(en[i].first, kv[i].first), "query key"); sx_assert(sx_eq(en[i].second, kv[i].second), "query value"); } sx_reach("parts");
		if (!abs) { sx_reach("path"); return; }
		str h; try { h = u.href(); } catch (const std::exception&) { threw = true; } sx_assert(!threw, "URL serialized"); sx_obs(h, "href"); sx_assert(sx_eq(h, slash ? text : text + "/"), "serialized URL is the parsed one"); sx_reach("roundtrip");
	} else {
		str s = sx_text(0, N, "text"); bool threw = false; URL u; try { u = URL(s); } catch (const std::exception&) { threw = true; } sx_obs((uint64_t)threw, "threw"); sx_obs(u.hostname, "host");
		if (s.size() && sx_fork(s[0] == '/')) { sx_assert(!threw, "path accepted"); return; }
		size_t p = 0; while (p + 2 < s.size() && !sx_fork((s[p] == ':') & (s[p + 1] == '/') & (s[p + 2] == '/'))) p++; if (p + 2 >= s.size()) { sx_assert(threw, "neither URL nor path is an error"); sx_reach("error"); return; }
		size_t e = p + 3; while (e < s.size() && !sx_fork(s[e] == '/')) e++; str a = s.substr(p + 3, e - p - 3); for (char c : a) if (sx_fork((c == '?') | (c == '#'))) return; size_t at = 0; while (at < a.size() && !sx_fork(a[at] == '@')) at++; if (at < a.size()) a = a.substr(at + 1);
		if (a.empty() || sx_fork(a[0] == ':')) { sx_assert(threw, "empty host is an error"); sx_reach("nohost"); } else if (p) sx_assert(!threw, "URL with a host accepted");
	}
}
