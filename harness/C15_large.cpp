//@ src: core/http/*.cpp core/network/tcp/connection.cpp core/network/*.cpp core/polyfill/*.cpp core/crypto/uid.cpp core/encoding/*.cpp
//@ exclude: core/compression/*.cpp
//@ stubs: stub_net stub_random stub_compress
//@ quick: -DMAX=4097 time=150 steps=200000000
//@ thorough: -DMAX=65537 time=800 steps=1000000000
//@ merge: std::set<char.*>::contains
//@ flags: -fno-inline
//@ bounds: responses with 0 to 50 headers (set, or up to 5 values appended to a name), a header value, header name, status text or body of a length around every power of two from 15 to MAX (4097/65537) with arbitrary bytes at its ends; 1 or 4 responses on the connection; the system accepting writes whole or in parts of 1000, 64 or 1 bytes
//@ reach: long many repeated parts
// Long responses.
#include "large.h"
#include "net.h"
#include "http_ref.h"
#include <ctime>
#include "core/http/transport.hpp"
#include "core/http/transport_impl.hpp"
using namespace Lambda; using namespace Lambda::HTTP::Transport;
typedef std::string str;
extern "C" time_t time(time_t* t) noexcept { if (t) *t = 1700000000; return 1700000000; }
static void vis(const str& s) { for (char c : {s[0], s[s.size() - 1]}) sx_assume((c != '\r') & (c != '\n') & (c != ' ') & (c != '\t')); }
static str low(str s) { for (auto& c : s) c = http_lc(c); return s; }
void sx_main() {
	Stream net; sx_net = &net; Network::ConnectionInfo info; info.hostPort = 80; Network::TCP::Connection conn(5, info); TransportOptions opts; TransportContextV1 ctx(conn, opts); uint32_t rounds = sx_choice(0, 1, "rounds") ? 4 : 1; for (uint32_t i = 0; i < rounds; i++) net.in += "GET / HTTP/1.1\r\n\r\n";
	str body = "body", text = "Fine"; std::vector<std::pair<str, str>> want; uint32_t kind = sx_choice(0, 4, "kind"); HTTP::Headers h;
	auto add = [&](const str& k, const str& v) { h.append(k, v); want.push_back({k, v}); };
	if (kind == 4) { static const uint32_t hs[] = {0, 1, 3, 9, 20, 50}; uint32_t m = hs[sx_choice(0, 5, "headers")], rep = sx_choice(0, 1, "repeat"); for (uint32_t j = 0; j < m; j++) { str v = "value-" + std::to_string(j * 7919); if (j == m / 2) { v = sx_str(2, "value"); vis(v); } add("X-" + std::to_string(rep ? j % (m / 5 + 1) : j), v); } sx_reach("many"); if (rep && m > 3) sx_reach("repeated"); }
	else { size_t n = sx_size(15, 15, MAX, "length"); str l = sx_large(n, "byte"); if (kind < 2) vis(l); if (kind == 0) { add("x-a", "1"); add("X-Long", l); add("x-b", "2"); } else if (kind == 1) text = l; else if (kind == 2) { l[0] = 'q'; l[n - 1] = 'q'; add(l, "value"); add("x", "y"); } else body = l; sx_reach("long"); }
	static const size_t parts[] = {(size_t)-1, 1000, 64, 1}; net.maxSend = parts[sx_choice(0, 3, "accepts")]; if (net.maxSend < 100) { if (body.size() + text.size() > 2000 || (kind == 0 && want[1].second.size() > 2000) || (kind == 2 && want[0].first.size() > 2000)) sx_drop(); sx_reach("parts"); }
	HTTP::Response res(HTTP::Status(299, text), h, body); size_t at = 0;
	for (uint32_t i = 0; i < rounds; i++) {
		sx_assert(ctx.awaitNext(), "request"); auto q = ctx.nextRequest(); ctx.respond({res, q.id}); Resp r = http_read(net.out, at); sx_assert(r.ok, "a well-formed response"); if (!r.ok) return; at = r.end; sx_assert(at == net.out.size() && sx_eq(r.body, body), "exactly the body bytes"); sx_assert(r.code == 299 && sx_eq(r.text, text), "status line");
		for (const char* k : {"date", "server", "x-request-id", "connection", "content-length", "content-type"}) sx_assert(r.count(k) == 1, "the library's headers once"); size_t n = 0; for (auto& w : want) { std::vector<str> e; for (auto& x : want) if (low(x.first) == low(w.first)) e.push_back(x.second); auto g = r.all(low(w.first)); sx_assert(g.size() == e.size(), "one line per value"); if (g.size() == e.size()) for (size_t k = 0; k < e.size(); k++) sx_assert(sx_eq(g[k], e[k]), "header value"); n++; } sx_assert(r.h.size() == n + 6, "no other headers");
	}
}
