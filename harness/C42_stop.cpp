//@ src: core/server/*.cpp core/network/tcp/*.cpp core/network/*.cpp core/websocket/*.cpp core/http/*.cpp core/polyfill/*.cpp core/crypto/*.cpp core/encoding/*.cpp core/utils/*.cpp core/html/renderer.cpp core/json/*.cpp core/sse/*.cpp
//@ exclude: core/compression/*.cpp core/html/templatemap.cpp
//@ stubs: stub_net stub_random stub_compress threads
//@ races: 1
//@ nojoin: 1
//@ quick: -DN=2 -DPRE=2 time=300 steps=200000000
//@ thorough: -DN=2 -DPRE=3 time=850 steps=400000000
//@ flags: -fno-inline
//@ bounds: a service with a thread list and up to two clients, each silent, idle after a request, in a request whose handler takes two seconds, with a second request behind such a one, in a websocket or in an event stream; stopped at once, half a second or three seconds later, by shutdownn and awaitFinished, by destruction, or by another thread while this one waits, up to PRE (2/3) switches with one client and one less with two between the threads of the service at any synchronisation or system call besides the blocking ones; virtual time
//@ reach: idle slow piped ws sse other destroyed late
#include "sx.h"
#include "net.h"
#include "threads.h"
#include "http_ref.h"
#include "ws_ref.h"
#include "core/server/server.hpp"
#include "core/html/html.hpp"
using namespace Lambda;
typedef std::string str;
const std::string Lambda::HTML::Templates::servicePage = "x";
static const uint64_t S = 1000000000ull;
enum { SILENT, IDLE, SLOW, PIPED, WS, SSE_, KINDS };
struct Net : NetModel {
	std::vector<uint32_t> script; size_t at = 0; bool lopen = false, lshut = false; int lcloses = 0; bool waiting = false; int n = 0;
	struct C { str in, out; size_t pos = 0; bool open = true, shut = false; int closes = 0; uint32_t kind = 0; uint64_t timeout = 3600 * S; }; C c[4];
	C& get(int f) { sx_assert(f >= 10 && f < 10 + n && c[f - 10].open, "operation on an open socket"); return c[f - 10]; }
	int socket(int, int, int) override { lopen = true; return 3; }
	int accept(int f, struct sockaddr* a, socklen_t*) override {
		sx_yield(); SxQuiet q; if (f != 3 || !lopen || lshut) { errno = EINVAL; return -1; } if (at >= script.size()) { waiting = true; sx_wake(&waiting); while (!lshut && lopen) sx_wait(this); errno = EINVAL; return -1; }
		C& x = c[n]; x.kind = script[at++]; __builtin_memset(a, 0, 16); str id(1, '0' + n); switch (x.kind) { case SILENT: break; case IDLE: x.in = "GET /a" + id + " HTTP/1.1\r\n\r\n"; break; case SLOW: x.in = "GET /s" + id + " HTTP/1.1\r\n\r\n"; break; case PIPED: x.in = "GET /s" + id + " HTTP/1.1\r\n\r\nGET /a" + id + " HTTP/1.1\r\n\r\n"; break; case WS: x.in = "GET /w HTTP/1.1\r\nUpgrade: websocket\r\nSec-WebSocket-Key: x\r\n\r\n"; break; case SSE_: x.in = "GET /e HTTP/1.1\r\n\r\n"; break; } return 10 + n++;
	}
	ssize_t recv(int f, uint8_t* b, size_t s, int) override { sx_yield(); SxQuiet q; C& x = get(f); size_t m = x.in.size() - x.pos; if (m > s) m = s; if (!m) { uint64_t until = sx_clock_ns + x.timeout; while (!x.shut && sx_clock_ns < until) sx_wait(&x, until); if (x.shut) return 0; errno = EAGAIN; return -1; } __builtin_memcpy(b, x.in.data() + x.pos, m); x.pos += m; return m; }
	ssize_t send(int f, const uint8_t* b, size_t s, int) override { sx_yield(); SxQuiet q; C& x = get(f); if (x.shut) { errno = EPIPE; return -1; } x.out.append((const char*)b, s); return s; }
	int setsockopt(int f, int, int o, const void* v, socklen_t n) override { if (f == 3) return 0; SxQuiet q; C& x = get(f); if (o == SO_RCVTIMEO && n == sizeof(struct timeval)) { auto* t = (const struct timeval*)v; uint64_t ns = t->tv_sec * S + t->tv_usec * 1000ull; x.timeout = ns ? ns : 3600 * S; } return 0; }
	int shutdown(int f, int) override { SxQuiet q; if (f == 3) { sx_assert(lopen, "open"); lshut = true; sx_wake(this); return 0; } C& x = get(f); x.shut = true; sx_wake(&x); return 0; }
	int close(int f) override { SxQuiet q; if (f == 3) { sx_assert(lopen, "the listening socket is closed once"); lopen = false; lcloses++; sx_wake(this); return 0; } C& x = get(f); x.open = false; x.closes++; return 0; }
};
struct Running { int& n; Running(int& v) : n(v) { SxQuiet q; n++; } ~Running() { SxQuiet q; n--; } };
void sx_main() {
	sx_preemptions = 0; sx_fifo = true; Net* net = new Net; sx_net = net; uint32_t n = sx_choice(1, N, "clients"); for (uint32_t i = 0; i < n; i++) net->script.push_back(sx_choice(0, KINDS - 1, "client")); if (n > 1 && net->script[0] > net->script[1]) sx_drop();
	ServerConfig cfg; cfg.loglevel.requests = cfg.loglevel.startMessage = false; cfg.service.useThreadList = true; uint32_t how = sx_choice(0, 2, "stop"), when = sx_choice(0, 2, "when"); int running = 0, began[4] = {}, lateStart = 0; bool stopped = false;
	auto* srv = new LambdaInstance([&](const HTTP::Request& r, const RequestContext& c) -> HandlerResponse {
		Running guard(running); str p; { SxQuiet q; p = r.url.pathname; if (stopped) lateStart++; if (p.size() == 3) began[p[2] - '0']++; }
		if (p == "/w") { auto ws = c.upgrateToWebsocket(); while (ws.awaitMessage()) ws.nextMessage(); return HandlerResponse(""); }
		if (p == "/e") { auto w = c.startEventStream(); while (w.connected()) { SSE::EventMessage m; m.data = "t"; w.push(m); sx_sleep(S); } return HandlerResponse(""); }
		if (p[1] == 's') sx_sleep(2 * S); return "r" + p;
	}, cfg);
	{ SxQuiet q; while (!net->waiting) if (!sx_wait(&net->waiting, sx_clock_ns + 60 * S)) sx_fail("the service ended although it was not stopped"); } if (when) sx_sleep(when == 1 ? S / 2 : 3 * S); else sx_preemptions = PRE + 1 - n; if (when == 2) sx_reach("late"); sx_preemptions = PRE + 1 - n;
	uint64_t t0; { SxQuiet q; t0 = sx_clock_ns; }
	if (how == 0) { srv->shutdownn(); srv->awaitFinished(); } else if (how == 1) { std::thread o([&] { sx_sleep(S / 4); srv->shutdownn(); }); srv->awaitFinished(); o.join(); sx_reach("other"); } else sx_reach("destroyed");
	if (how != 2) { SxQuiet q; sx_assert(net->lcloses == 1 && !net->lopen, "no longer listening"); sx_assert(running == 0, "no handler runs any more"); stopped = true; }
	delete srv; SxQuiet q; sx_preemptions = 0; sx_assert(running == 0, "no handler runs any more"); sx_assert(sx_clock_ns <= t0 + 19 * S, "stopped within the receive timeout of an idle client"); sx_assert(net->lcloses == 1, "the listening socket is closed exactly once"); for (int i = 0; i < net->n; i++) sx_assert(net->c[i].closes == 1, "each connection is closed exactly once"); sx_assert(sx_alive() == 1, "no thread is left"); sx_assert(lateStart == 0, "nothing is handled afterwards");
	for (int i = 0; i < net->n; i++) {
		auto& c = net->c[i]; str id(1, '0' + i); Resp r = c.out.empty() ? Resp() : http_read(c.out, 0, c.kind == WS || c.kind == SSE_);
		if (c.kind == SILENT) { sx_assert(c.out.empty(), "nothing to answer"); continue; }
		if (c.kind == IDLE || c.kind == SLOW || c.kind == PIPED) { // what was begun is answered in full
			str out = c.out; size_t at = 0; int k = 0; while (at < out.size()) { Resp x = http_read(out, at); sx_assert(x.ok && x.code == 200, "whole responses"); if (!x.ok) return; sx_assert(x.body == (k == 0 && c.kind != IDLE ? "r/s" : "r/a") + id, "in order"); at = x.end; k++; } sx_assert(k == began[i] && k <= 1 + (c.kind == PIPED), "every request that was begun is answered"); sx_reach(c.kind == IDLE ? "idle" : c.kind == SLOW ? "slow" : "piped"); if (when == 2) sx_assert(k == 1 + (c.kind == PIPED), "all were answered before");
		} else if (!c.out.empty()) { if (c.kind == WS) { sx_assert(r.code == 101, "handshake"); Frame f = ws_read(c.out, r.end); sx_assert(f.ok && f.op == 8 && f.data == str("\x03\xe9") && f.end == c.out.size(), "the websocket is closed with 'going away'"); sx_reach("ws"); } else { sx_assert(r.code == 200, "event stream"); size_t at = c.out.find("\r\n\r\n") + 4; while (at < c.out.size()) { sx_assert(c.out.compare(at, 11, "data: t\r\n\r\n") == 0, "whole events"); at += 11; } sx_reach("sse"); } }
		else sx_assert(when == 0, "served");
	}
	delete net;
}
