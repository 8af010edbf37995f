//@ src: core/http/*.cpp core/network/tcp/connection.cpp core/network/*.cpp core/polyfill/*.cpp core/crypto/uid.cpp core/encoding/*.cpp
//@ exclude: core/compression/*.cpp
//@ stubs: stub_net stub_random stub_compress
//@ quick: -DH=2 -DB=3 time=250
//@ thorough: -DH=3 -DB=6 time=850
//@ merge: std::set<char.*>::contains
//@ flags: -fno-inline
//@ bounds: every status the library knows; up to H header operations (2/3) on any of 2 symbolic names or the headers content-length, date, server, x-request-id, content-type and connection, values of up to 2 symbolic bytes; bodies of up to B symbolic bytes (3/6) and of 5000 bytes; header length and compression flags on and off; the system accepting writes whole, one byte at a time, in two parts or failing at any point
//@ reach: framed long twice failed default nolength
#include "sx.h"
#include "net.h"
#include "http_ref.h"
#include <ctime>
#include "core/http/transport.hpp"
#include "core/http/transport_impl.hpp"
using namespace Lambda; using namespace Lambda::HTTP::Transport;
typedef std::string str;
extern "C" time_t time(time_t* t) noexcept { if (t) *t = 1700000000; return 1700000000; }
static bool tok(uint8_t c) { return sx_in(c, 'a', 'z') | sx_in(c, 'A', 'Z') | sx_in(c, '0', '9') | (c == '-') | (c == '_'); }
static str low(str s) { for (auto& c : s) c = http_lc(c); return s; }
void sx_main() {
	Stream net; sx_net = &net; Network::ConnectionInfo info; info.hostPort = 80; Network::TCP::Connection conn(5, info); TransportOptions opts; opts.useCompression = sx_choice(0, 1, "compression"); TransportContextV1 ctx(conn, opts); net.in = "GET / HTTP/1.1\r\n\r\nGET / HTTP/1.1\r\n\r\n";
	uint32_t kind = sx_choice(0, 3, "kind"), code = 200; size_t nh = 0, extra = 0; str body; bool content = false;
	if (kind == 0) { code = sx_u32("code"); sx_assume((code >= 100) & (code < 600)); code = sx_concretize(code); } else if (kind == 1) nh = sx_choice(1, H, "nh"); else if (kind == 2) { body = sx_choice(0, 1, "long") ? str(5000, 'q') + sx_str(1, "body") : sx_text(0, B, "body"); net.maxSend = sx_choice(0, 3, "accepts"); net.maxSend = net.maxSend == 0 ? (size_t)-1 : net.maxSend == 1 ? (body.size() > 100 ? 77 : 1) : net.maxSend == 2 ? 100 : 30; } else { body = "ab"; net.failSend = sx_choice(1, 3, "fail"); net.failSent = sx_choice(0, 1, "part"); net.sendErr = sx_choice(0, 1, "err") ? EPIPE : EAGAIN; if (net.failSent) net.maxSend = 50; }
	HTTP::Status st(200); if (kind == 0) { bool known = true; try { st = HTTP::Status(code); } catch (const std::exception&) { known = false; } if (!known) sx_drop(); } else if (kind == 1 && sx_choice(0, 1, "text")) { str t = sx_str(1, "text"); sx_assume((t[0] != '\r') & (t[0] != '\n')); st = HTTP::Status(299, t); }
	HTTP::Response res(st, {}, body); str names[2] = {"x" + sx_str(1, "name"), "X-B"}; sx_assume(tok(names[0][1])); std::vector<std::pair<str, str>> want; // names in lower case
	static const char* own[] = {"content-length", "Date", "Server", "X-Request-ID", "content-type", "connection"};
	for (size_t i = 0; i < nh; i++) {
		uint32_t w = sx_choice(0, 7, "which"); str k = w < 2 ? names[w] : own[w - 2], v = w == 7 ? (sx_choice(0, 1, "conn") ? "close" : "Keep-Alive") : sx_text(1, 2, "value"); for (char c : v) sx_assume((c != '\r') & (c != '\n') & (c != ' ') & (c != '\t')); bool set = w == 7 || sx_choice(0, 1, "set");
		if (set) { res.headers.set(k, v); for (size_t j = 0; j < want.size();) if (sx_fork(sx_eq(want[j].first, low(k)))) want.erase(want.begin() + j); else j++; } else res.headers.append(k, v); want.push_back({low(k), v});
	}
	if (kind == 2) { ctx.flags.forceContentLength = sx_choice(0, 1, "length"); ctx.flags.autocompress = sx_choice(0, 1, "auto"); }
	sx_assert(ctx.awaitNext(), "request"); auto rq = ctx.nextRequest(); bool threw = false; try { ctx.respond({res, rq.id}); } catch (const std::exception&) { threw = true; }
	if (kind == 3) { sx_assert(threw || net.sends < net.failSend || net.failSent, "a response that could not be sent is an error"); sx_reach("failed"); if (threw) return; } else sx_assert(!threw, "response written");
	Resp r = http_read(net.out, 0, !ctx.flags.forceContentLength); sx_assert(r.ok, "a well-formed response"); if (!r.ok) return; if (!ctx.flags.forceContentLength) { r.body = net.out.substr(r.end); r.end = net.out.size(); sx_reach("nolength"); }
	sx_assert(r.end == net.out.size() && sx_eq(r.body, body), "exactly the body bytes"); sx_assert(r.code == (int)st.code() && sx_eq(r.text, st.text()), "status line"); sx_reach(body.size() > 4000 ? "long" : "framed");
	for (const char* k : {"date", "server", "x-request-id", "connection"}) sx_assert(r.count(k) == 1 && r.get(k).size() > 0, "date, server, request id and connection exactly once"); sx_assert(r.get("x-request-id").find(rq.id.toString()) != str::npos, "request id");
	std::vector<str> seen; size_t lines = 4 + (ctx.flags.forceContentLength ? 1 : 0); bool ct = false;
	for (auto& w : want) { if (w.first == "content-length" || w.first == "date" || w.first == "server" || w.first == "x-request-id") continue; if (w.first == "content-type") ct = true; bool done = false; for (auto& s : seen) if (sx_fork(sx_eq(s, w.first))) done = true; if (done) continue; seen.push_back(w.first);
		std::vector<str> vs; for (auto& x : want) if (sx_fork(sx_eq(x.first, w.first))) vs.push_back(x.second); std::vector<str> got; for (auto& x : r.h) if (x.first.size() == w.first.size() && sx_fork(sx_eq(x.first, w.first))) got.push_back(x.second); sx_assert(got.size() == vs.size(), "one line per value"); if (got.size() == vs.size()) for (size_t i = 0; i < vs.size(); i++) sx_assert(sx_eq(got[i], vs[i]), "header value"); if (w.first != "connection") lines += vs.size(); }
	if (!ct && ctx.flags.autocompress) { sx_assert(r.count("content-type") == 1, "default content type"); lines++; sx_reach("default"); }
	sx_assert(r.h.size() == lines, "no other headers");
	if (kind == 2 && conn.isOpen() && ctx.flags.forceContentLength) { sx_assert(ctx.awaitNext(), "next request"); auto q = ctx.nextRequest(); size_t at = net.out.size(); HTTP::Response e(404); ctx.respond({e, q.id}); Resp s = http_read(net.out, at); sx_assert(s.ok && s.code == 404 && s.body.empty() && s.end == net.out.size(), "the next response follows"); sx_reach("twice"); }
}
