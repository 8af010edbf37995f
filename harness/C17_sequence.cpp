//@ src: core/http/*.cpp core/network/tcp/connection.cpp core/network/*.cpp core/polyfill/*.cpp core/crypto/uid.cpp core/encoding/*.cpp
//@ exclude: core/compression/*.cpp
//@ stubs: stub_net stub_random stub_compress
//@ quick: -DN=12 time=100
//@ thorough: -DN=20 time=600
//@ merge: std::set<char.*>::contains
//@ flags: -fno-inline
//@ bounds: N requests (12/20) on one connection, the request and the response asking to close or to stay open, in any case of the letters, at any one place each; the requests together or one by one
//@ reach: all closed
// Long connections.
#include "sx.h"
#include "net.h"
#include "http_ref.h"
#include "core/http/transport.hpp"
#include "core/http/transport_impl.hpp"
using namespace Lambda; using namespace Lambda::HTTP::Transport;
typedef std::string str;
static str anycase(str s, const char* nm) { uint32_t m = sx_u32(nm); for (size_t i = 0; i < s.size(); i++) if (s[i] >= 'a' && s[i] <= 'z') s[i] -= ((m >> i) & 1) * 32; return s; }
struct Net : Stream { size_t limit = 0; ssize_t recv(int f, uint8_t* b, size_t n, int) override { live(f); recvs++; size_t av = (limit ? limit : in.size()) - pos; if (av > n) av = n; __builtin_memcpy(b, in.data() + pos, av); pos += av; return av; } };
void sx_main() {
	Net net; sx_net = &net; Network::ConnectionInfo info; info.hostPort = 80; Network::TCP::Connection conn(5, info); TransportOptions opts; TransportContextV1 ctx(conn, opts); bool together = sx_choice(0, 1, "together"); std::vector<size_t> ends;
	uint32_t rq = sx_choice(0, N, "request"), rs = sx_choice(0, N, "response"), kq = sx_choice(0, 1, "kind"), ks = sx_choice(0, 1, "kind"); // N: nowhere
	if ((rq == N && kq) || (rs == N && ks)) sx_drop();
	for (uint32_t i = 0; i < N; i++) { net.in += "POST /" + std::to_string(i) + " HTTP/1.1\r\nContent-Length: 2\r\n" + (i == rq ? "Connection: " + anycase(kq ? "close" : "keep-alive", "case") + "\r\n" : "") + "\r\n" + str(2, 'a' + i % 26); ends.push_back(net.in.size()); }
	uint32_t last = N - 1; if (rq < N && kq && !(rs == rq && !ks)) last = rq; if (rs < N && ks && rs < last) last = rs;
	for (uint32_t i = 0; i <= last; i++) {
		net.limit = together ? 0 : ends[i]; sx_assert(conn.isOpen() && ctx.awaitNext(), "after keep-alive the next request is read"); auto q = ctx.nextRequest(); sx_assert(q.request.url.pathname == "/" + std::to_string(i), "the next request"); auto& b = q.request.body.buffer(); sx_assert(b.size() == 2 && b[0] == 'a' + i % 26 && b[1] == 'a' + i % 26, "with its body");
		HTTP::Response res(200, {}, str(i, 'x')); if (i == rs) res.headers.set("Connection", anycase(ks ? "close" : "keep-alive", "rcase")); size_t at = net.out.size(); ctx.respond({res, q.id}); Resp w = http_read(net.out, at); sx_assert(w.ok && w.end == net.out.size() && w.body == str(i, 'x') && w.count("connection") == 1, "one response"); if (!w.ok) return; str c = w.get("connection"); for (auto& x : c) x = http_lc(x);
		bool says = sx_fork(sx_eq(c, "close")); sx_assert(conn.isOpen() == !says && net.closed == says && ctx.isConnected() == !says, "open exactly if announced"); sx_assert(says == (i == last && last < N - 1) || (i == N - 1 && says == ((rq == i && kq && !(rs == i && !ks)) || (rs == i && ks))), "closed when asked to, kept alive otherwise");
	}
	if (last == N - 1) sx_reach("all"); if (net.closed) { sx_reach("closed"); int r = net.recvs; bool more = false; try { more = ctx.awaitNext(); } catch (const std::exception&) {} sx_assert(!more && net.recvs == r, "no request after closing"); }
}
