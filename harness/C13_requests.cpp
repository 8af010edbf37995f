//@ src: core/http/*.cpp core/network/tcp/connection.cpp core/network/*.cpp core/polyfill/*.cpp core/crypto/uid.cpp core/encoding/*.cpp
//@ stubs: stub_net stub_random stub_compress
//@ exclude: core/compression/*.cpp

//@ quick: -DCUTS=2 -DREQ=2 -DB=2 time=300
//@ thorough: -DCUTS=3 -DREQ=3 -DB=3 time=850
//@ merge: std::set<char.*>::contains
//@ flags: -fno-inline
//@ bounds: connections with up to REQ requests (2/3) out of 8 shapes (with and without query, headers, body), header value, query value and body bytes symbolic (bodies of up to B bytes, 2/3, of any value), the bytes arriving in every split that uses up to CUTS cut points (2/3; one less with several requests), the first request's body also longer than the read buffer
//@ reach: delivered pipelined body end split
#include "sx.h"
#include "net.h"
#include "core/http/transport.hpp"
#include "core/http/transport_impl.hpp"
using namespace Lambda; using namespace Lambda::HTTP::Transport;
typedef std::string str;
struct Rq { const char* method; str path, qk, qv, hk, hv, body; bool len; };
static bool tok(uint8_t c) { return sx_in(c, 0x21, 0x7e); }
static Rq mk(uint32_t shape, bool lead) {
	Rq r{"GET", "/", "", "", "", "", "", false};
	switch (shape) {
	case 0: break;
	case 1: r.path = "/p" + sx_str(1, "path"); for (char c : r.path) sx_assume(tok(c) & (c != '?') & (c != '#')); r.qk = "k"; r.qv = sx_str(1, "query"); for (char c : r.qv) sx_assume(tok(c) & (c != '#') & (c != '&') & (c != '%') & (c != '+')); break;
	case 2: r.hk = "X-One"; r.hv = sx_str(2, "value"); for (char c : r.hv) sx_assume((tok(c) | ((uint8_t)c >= 0x80))); break;
	case 3: r.method = "POST"; r.len = true; r.body = sx_str(B, "body"); break;
	case 4: r.method = "PUT"; r.path = "/x"; r.hk = "x-two"; r.hv = sx_str(1, "value"); for (char c : r.hv) sx_assume(tok(c)); r.len = true; r.body = lead ? "GET / HTTP/1.1\r\n\r\n" : sx_str(1, "body"); break;
	case 5: r.method = "POST"; r.len = true; r.body = ""; break;
	case 6: r.method = "DELETE"; r.path = "/?"; break;
	case 7: r.method = "POST"; r.len = true; r.body = str(lead ? 4500 : 4, 'b') + sx_str(1, "body"); break;
	}
	return r;
}
static str wire(const Rq& r) { str s = str(r.method) + " " + r.path; if (r.qk.size()) s += "?" + r.qk + "=" + r.qv; s += " HTTP/1.1\r\n"; if (r.hk.size()) s += r.hk + ": " + r.hv + "\r\n"; if (r.len) s += "Content-Length: " + std::to_string(r.body.size()) + "\r\n"; return s + "\r\n" + r.body; }
void sx_main() {
	Stream net; sx_net = &net; net.end = sx_choice(0, 1, "end"); uint32_t n = sx_choice(1, REQ, "requests"); const int cuts = n == 1 ? CUTS : CUTS - 1; net.cuts = cuts; std::vector<Rq> rs;
	for (uint32_t i = 0; i < n; i++) { uint32_t sh = sx_choice(0, 7, "shape"); if (i >= 2 && sh != 0 && sh != 3) sx_drop(); rs.push_back(mk(sh, i == 0)); net.in += wire(rs.back()); }
	Network::ConnectionInfo info; info.hostPort = 80; Network::TCP::Connection conn(5, info); TransportOptions opts; TransportContextV1 ctx(conn, opts); uint32_t got = 0;
	try {
		while (ctx.isConnected() && ctx.awaitNext()) {
			auto in = ctx.nextRequest(); sx_assert(got < n, "no request that was not sent"); if (got >= n) return; const Rq& r = rs[got++]; auto& q = in.request;
			sx_assert(q.method.toString() == r.method, "method"); str p = r.path == "/?" ? "/" : r.path; sx_assert(sx_eq(q.url.pathname, p), "path"); if (r.qk.size()) sx_assert(sx_eq(q.url.searchParams.get(r.qk), r.qv), "query"); else sx_assert(q.url.searchParams.size() == 0, "no query");
			if (r.hk.size()) sx_assert(sx_eq(q.headers.get(r.hk), r.hv), "header value"); sx_assert(q.headers.size() == (r.hk.size() > 0) + r.len, "headers"); auto& b = q.body.buffer(); sx_assert(sx_eq(str((const char*)b.data(), b.size()), r.body), "body bytes"); if (r.body.size()) sx_reach("body"); sx_reach("delivered"); if (got > 1) sx_reach("pipelined"); if (net.cuts < cuts) sx_reach("split");
			ctx.respond({HTTP::Response(200), in.id});
		}
	} catch (const std::exception& e) { sx_assert(false, "well-formed requests are not refused"); }
	sx_assert(got == n, "every request is delivered"); sx_reach("end");
}
