//@ src: core/http/*.cpp core/network/tcp/connection.cpp core/network/*.cpp core/polyfill/*.cpp core/crypto/uid.cpp core/encoding/*.cpp
//@ exclude: core/compression/*.cpp
//@ stubs: stub_net stub_random stub_compress
//@ quick: -DN=4 time=250
//@ thorough: -DN=6 time=850
//@ merge: std::set<char.*>::contains
//@ flags: -fno-inline
//@ bounds: two requests on one connection, Accept-Encoding absent, any text of up to N bytes (4/6) or any list of up to 3 of br, gzip, deflate, identity, gzi, brx; content type absent, any text of up to N-1 bytes around text, html, json, xml, javascript in any letter case, (then with two fixed lists), or image/jpeg; compression on and off in options and per connection
//@ reach: br gzip deflate none image untyped second off
#include "sx.h"
#include "net.h"
#include "http_ref.h"
#include "core/http/transport.hpp"
#include "core/http/transport_impl.hpp"
using namespace Lambda; using namespace Lambda::HTTP::Transport;
typedef std::string str;
static const char* names[] = {"br", "gzip", "deflate", "identity", "gzi", "brx"};
static bool white(uint8_t c) { return (c == ' ') | (c == '\t'); }
// the coding is an element of the list (parameters make it a different element; not decided here)
static bool listed(const str& s, const str& name) { size_t p = 0; bool r = false; for (;;) { size_t e = p; while (e < s.size() && sx_fork(s[e] != ',')) e++; size_t a = p, b = e; while (a < b && sx_fork(white(s[a]))) a++; while (b > a && sx_fork(white(s[b - 1]))) b--; if (b - a == name.size()) { bool q = true; for (size_t i = a; i < b; i++) q = q & (http_lc(s[i]) == (uint8_t)name[i - a]); r = r | q; } if (e >= s.size()) break; p = e + 1; } return r; }
void sx_main() {
	Stream net; sx_net = &net; Network::ConnectionInfo info; info.hostPort = 80; Network::TCP::Connection conn(5, info); TransportOptions opts; opts.useCompression = sx_choice(0, 3, "enabled") != 0; TransportContextV1 ctx(conn, opts); uint32_t n = sx_choice(1, 2, "requests"), lastAccept = 0;
	std::vector<str> acc; std::vector<bool> plain; // plain: made of listed names with the usual separator only
	for (uint32_t i = 0; i < n; i++) { str a; bool pl = true; uint32_t k = i + 1 < n ? 3 + sx_choice(0, 1, "prev") : (lastAccept = sx_choice(0, 3, "accept")); if (k == 1) { a = sx_text(1, N, "text"); for (char c : a) sx_assume(sx_in(c, 0x20, 0x7e)); sx_assume((a[0] != ' ') & (a.back() != ' ')); pl = false; } else if (k == 2) { uint32_t m = sx_choice(1, 3, "count"); for (uint32_t j = 0; j < m; j++) a += (j ? ", " : "") + str(names[sx_choice(0, 5, "name")]); } else if (k == 3 && i + 1 < n) a = "br, gzip, deflate"; else if (k == 3) a = "GZIP"; else if (k == 4) a = ""; if (k == 3 && i + 1 == n) pl = false; net.in += "GET / HTTP/1.1\r\n" + (a.size() ? "Accept-Encoding: " + a + "\r\n" : "") + "\r\n"; acc.push_back(a); plain.push_back(pl); }
	ctx.flags.autocompress = sx_choice(0, 3, "auto") != 0;
	for (uint32_t i = 0; i < n; i++) {
		sx_assert(ctx.awaitNext(), "request"); auto q = ctx.nextRequest(); HTTP::Response res(200, {}, "body"); bool textlike = false, typed = true; str ct; uint32_t c = i + 1 < n ? 1 : sx_choice(0, 3, "type"); if (i + 1 == n && c == 2 && lastAccept != 2) sx_drop(); if (i + 1 == n && c == 2 && acc[i] != "gzip, br" && acc[i] != "identity") sx_drop(); if (i + 1 == n && lastAccept == 1 && n == 2 && c == 3) sx_drop();
		if (c == 0) { typed = false; res.headers.del("content-type"); } else if (c == 1) { ct = "text/html"; textlike = true; } else if (c == 2) { static const char* ts[] = {"text", "html", "json", "xml", "javascript"}; str t = ts[sx_choice(0, 4, "t")]; uint32_t m = sx_u32("case"); for (size_t j = 0; j < t.size(); j++) t[j] -= ((m >> j) & 1) * 32; str pre = sx_text(0, 1, "pre"), suf = sx_text(0, 1, "suf"); for (char x : pre + suf) sx_assume(sx_in(x, 0x21, 0x7e)); ct = pre + t + suf; textlike = true; } else { ct = sx_choice(0, 1, "img") ? "image/jpeg" : "application/octet-stream"; }
		if (typed) res.headers.set("Content-Type", ct); size_t at = net.out.size(); ctx.respond({res, q.id}); Resp r = http_read(net.out, at); sx_assert(r.ok && r.end == net.out.size(), "response"); if (!r.ok) return; str ce = r.get("content-encoding"); sx_assert(r.count("content-encoding") <= 1, "one encoding");
		if (i) sx_reach("second"); bool may = opts.useCompression && ctx.flags.autocompress && (textlike || !typed); if (!may) sx_reach(typed && !textlike ? "image" : "off"); if (!typed) sx_reach("untyped");
		if (ce.empty()) { sx_assert(r.body == "body", "without an encoding the body is unchanged"); sx_reach("none"); if (may && plain[i]) for (int k = 0; k < 3; k++) sx_assert(!sx_fork(listed(acc[i], names[k])), "an accepted encoding is used"); }
		else { sx_assert(may, "compressed only text-like content with compression enabled"); sx_assert(ce == "br" || ce == "gzip" || ce == "deflate", "known encoding"); sx_assert(listed(acc[i], ce), "only an encoding its own request lists"); sx_assert(r.body == str(ce == "br" ? "<br>" : ce == "gzip" ? "<gz>" : "<zlib>") + "body", "the body in the named encoding"); sx_reach(ce.c_str()); }
	}
}
