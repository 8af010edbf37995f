//@ src: core/http/*.cpp core/network/tcp/connection.cpp core/network/*.cpp core/polyfill/*.cpp core/crypto/uid.cpp core/encoding/*.cpp
//@ exclude: core/compression/*.cpp
//@ stubs: stub_net stub_random stub_compress
//@ quick: -DR=3 time=250
//@ thorough: -DR=4 time=850
//@ merge: std::set<char.*>::contains
//@ flags: -fno-inline
//@ bounds: up to R requests (3/4) on one connection, each with no connection header, or close or keep-alive with every letter in either case (alone or next to another option), or any text of up to 3 bytes; each response with no connection header, close or keep-alive in either case; reuse on and off; requests arriving together or one by one
//@ reach: closed open responseclose noreuse other
#include "sx.h"
#include "net.h"
#include "http_ref.h"
#include "core/http/transport.hpp"
#include "core/http/transport_impl.hpp"
using namespace Lambda; using namespace Lambda::HTTP::Transport;
typedef std::string str;
static str anycase(str s, const char* nm) { uint32_t m = sx_u32(nm); for (size_t i = 0; i < s.size(); i++) if (s[i] >= 'a' && s[i] <= 'z') s[i] -= ((m >> i) & 1) * 32; return s; }
struct Net : Stream { size_t limit = 0; ssize_t recv(int f, uint8_t* b, size_t n, int fl) override { size_t all = in.size(); str keep = in; if (limit && limit < all) in.resize(limit); ssize_t r = Stream::recv(f, b, n, fl); in = keep; return r; } };
void sx_main() {
	Net net; sx_net = &net; net.end = 0; Network::ConnectionInfo info; info.hostPort = 80; Network::TCP::Connection conn(5, info); TransportOptions opts; opts.reuseConnections = sx_choice(0, 1, "reuse"); TransportContextV1 ctx(conn, opts);
	uint32_t n = sx_choice(1, R, "requests"), together = sx_choice(0, 1, "together"); std::vector<uint32_t> kinds, resp; std::vector<size_t> ends; int special = 0;
	for (uint32_t i = 0; i < n; i++) {
		uint32_t k = sx_choice(0, 5, "request"), r = sx_choice(0, 3, "response"); str h; if (k >= 1) special++; if (r) special++; if (special > 3) sx_drop();
		if (k == 1) h = anycase("close", "case"); else if (k == 2) h = anycase("keep-alive", "case"); else if (k == 3) h = "keep-alive, " + anycase("close", "case"); else if (k == 4) { h = sx_text(1, 3, "other"); for (char c : h) sx_assume(sx_in(c, 0x21, 0x7e)); } else if (k == 5) h = "Keep-Alive, x";
		net.in += "GET /" + str(1, 'a' + i) + " HTTP/1.1\r\n" + (k ? "Connection: " + h + "\r\n" : "") + "\r\n"; kinds.push_back(k); resp.push_back(r); ends.push_back(net.in.size());
	}
	bool open = true;
	for (uint32_t i = 0; i < n && open; i++) {
		net.limit = together ? 0 : ends[i]; sx_assert(conn.isOpen() && ctx.awaitNext(), "after keep-alive the next request is read"); auto q = ctx.nextRequest(); sx_assert(q.request.url.pathname == "/" + str(1, 'a' + i), "next request"); HTTP::Response res(200, {}, "x"); uint32_t r = resp[i], k = kinds[i];
		if (r == 1) res.headers.set("Connection", anycase("close", "rcase")); else if (r == 2) res.headers.set("connection", anycase("keep-alive", "rcase")); else if (r == 3) res.headers.set("connection", "Close"); size_t at = net.out.size(); ctx.respond({res, q.id});
		Resp w = http_read(net.out, at); sx_assert(w.ok && w.end == net.out.size() && w.count("connection") == 1, "one response"); if (!w.ok) return; str c = w.get("connection"); for (auto& x : c) x = http_lc(x); bool says = sx_fork(sx_eq(c, "close")); if (!says) sx_assert(sx_eq(c, "keep-alive"), "announces close or keep-alive");
		sx_assert(conn.isOpen() == !says && net.closed == says && ctx.isConnected() == !says, "open exactly if announced");
		bool asked = k == 1 || k == 3;
		if (r == 1 || r == 3) { sx_assert(says, "a response asking to close closes"); sx_reach("responseclose"); } else if (r == 0) { if (!opts.reuseConnections) { sx_assert(says, "reuse disabled: close"); sx_reach("noreuse"); } else if (asked) sx_assert(says, "a request asking to close closes"); else if (k == 4) sx_reach("other"); else sx_assert(!says, "kept alive otherwise"); } else sx_assert(!says, "a response asking for keep-alive keeps the connection");
		open = !says; if (says) { sx_reach("closed"); int rc = net.recvs, sn = net.sends; bool more = false; try { more = ctx.awaitNext(); } catch (const std::exception&) {} sx_assert(!more, "no request after closing"); HTTP::Response late(200); Crypto::ShortID id(1); try { ctx.respond({late, id}); } catch (const std::exception&) {} sx_assert(net.recvs == rc && net.sends == sn, "nothing read or written after closing"); } else sx_reach("open");
	}
	net.limit = 0; if (open) { sx_assert(!ctx.awaitNext(), "end of stream"); sx_assert(!conn.isOpen(), "closed at end of stream"); }
}
