//@ src: core/http/*.cpp core/network/tcp/connection.cpp core/network/*.cpp core/polyfill/*.cpp core/crypto/uid.cpp core/encoding/*.cpp
//@ stubs: stub_net stub_random stub_compress
//@ exclude: core/compression/*.cpp
//@ quick: -DMAX=8192 time=200 steps=200000000
//@ thorough: -DMAX=65537 time=850 steps=1000000000
//@ merge: std::set<char.*>::contains
//@ flags: -fno-inline
//@ bounds: connections with 1, 2, 5 or 12 requests, one of them with a path, query value, header value, header name or body of a length around every power of two from 15 to MAX (8192/65537) with arbitrary bytes at its ends, or with 1 to 60 headers (names repeated or not); the bytes arriving in pieces of 1, 7, 100, 1000, 2048, 4096 bytes or as large as the reader asks for
//@ reach: long many headers pieces repeated
// Long requests and long pipelines.
#include "large.h"
#include "net.h"
#include "core/http/transport.hpp"
#include "core/http/transport_impl.hpp"
using namespace Lambda; using namespace Lambda::HTTP::Transport;
typedef std::string str;
struct Rq { const char* method; str path, qv, body; std::vector<std::pair<str, str>> h; bool len; };
static void vis(const str& s, const char* no = "") { for (char c : {s[0], s[s.size() - 1]}) { sx_assume(sx_in(c, 0x21, 0x7e)); for (const char* x = no; *x; x++) sx_assume(c != *x); } }
static str wire(const Rq& r) { str s = str(r.method) + " " + r.path; if (r.qv.size()) s += "?k=" + r.qv; s += " HTTP/1.1\r\n"; for (auto& x : r.h) s += x.first + ": " + x.second + "\r\n"; if (r.len) s += "Content-Length: " + std::to_string(r.body.size()) + "\r\n"; return s + "\r\n" + r.body; }
void sx_main() {
	static const uint32_t cnts[] = {1, 2, 5, 12}; static const size_t piece[] = {(size_t)-1, 4096, 2048, 1000, 100, 7, 1};
	Stream net; sx_net = &net; uint32_t n = cnts[sx_choice(0, 3, "requests")], at = n == 1 ? 0 : sx_choice(0, n > 2 ? 2 : 1, "at"); at = at == 0 ? 0 : at == 1 ? n - 1 : n / 2; std::vector<Rq> rs;
	for (uint32_t i = 0; i < n; i++) {
		Rq r{i & 1 ? "POST" : "GET", "/r" + std::to_string(i), i % 3 == 1 ? "v" + std::to_string(i) : "", i & 1 ? str(i * 3, 'a' + i) : "", {}, (i & 1) != 0}; if (i % 4 == 2) r.h.push_back({"X-Nr", std::to_string(i)});
		if (i == at) {
			uint32_t kind = sx_choice(0, 5, "kind");
			if (kind < 5) { size_t l = sx_size(15, 15, MAX, "length"); str v = sx_large(l, "long"); sx_reach("long");
				if (kind == 0) { vis(v, "?#"); r.path = "/" + v; } else if (kind == 1) { vis(v, "#&%+="); r.qv = v; } else if (kind == 2) { vis(v); r.h.push_back({"X-Long", v}); } else if (kind == 3) { v[0] = 'x'; v[l - 1] = 'y'; r.h.push_back({v, "value"}); } else { r.method = "PUT"; r.len = true; r.body = v; } }
			else { static const uint32_t hs[] = {1, 2, 7, 16, 33, 60}; uint32_t m = hs[sx_choice(0, 5, "headers")], rep = sx_choice(0, 2, "repeat"), w = sx_choice(0, 1, "which") ? m - 1 : 0; for (uint32_t j = 0; j < m; j++) { str v = "value-" + std::to_string(j * 7919); if (j == w) { v = sx_str(2, "value"); vis(v); } r.h.push_back({"X-" + std::to_string(rep == 0 ? j : rep == 1 ? j % 4 : 0), v}); } sx_reach("headers"); if (rep) sx_reach("repeated"); }
		}
		rs.push_back(r); net.in += wire(r);
	}
	net.maxRecv = piece[sx_choice(0, 6, "piece")]; if (net.in.size() / net.maxRecv > 150) sx_drop(); if (net.maxRecv < 4096) sx_reach("pieces");
	Network::ConnectionInfo info; info.hostPort = 80; Network::TCP::Connection conn(5, info); TransportOptions opts; TransportContextV1 ctx(conn, opts); uint32_t got = 0;
	try {
		while (ctx.isConnected() && ctx.awaitNext()) {
			auto in = ctx.nextRequest(); if (got >= n) sx_fail("no request that was not sent"); const Rq& r = rs[got++]; auto& q = in.request;
			sx_assert(q.method.toString() == r.method, "method"); sx_assert(sx_eq(q.url.pathname, r.path), "path"); if (r.qv.size()) sx_assert(sx_eq(q.url.searchParams.get("k"), r.qv), "query"); else sx_assert(q.url.searchParams.size() == 0, "no query");
			size_t total = 0; for (size_t j = 0; j < r.h.size(); j++) { total++; std::vector<str> all; bool first = true; for (size_t k = 0; k < r.h.size(); k++) if (r.h[k].first == r.h[j].first) { if (k < j) first = false; all.push_back(r.h[k].second); } if (!first) continue; auto g = q.headers.getAll(r.h[j].first); sx_assert(g.size() == all.size(), "every value of the header"); if (g.size() == all.size()) for (size_t k = 0; k < g.size(); k++) sx_assert(sx_eq(g[k], all[k]), "header value"); }
			sx_assert(q.headers.entries().size() == total + r.len, "headers"); auto& b = q.body.buffer(); sx_assert(sx_eq(str((const char*)b.data(), b.size()), r.body), "body bytes"); if (got > 5) sx_reach("many"); ctx.respond({HTTP::Response(200), in.id});
		}
	} catch (const std::exception& e) { sx_fail("well-formed requests are not refused"); }
	sx_assert(got == n, "every request is delivered");
}
