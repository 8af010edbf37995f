//@ src: core/server/*.cpp core/network/tcp/*.cpp core/network/*.cpp core/websocket/*.cpp core/http/*.cpp core/polyfill/*.cpp core/crypto/*.cpp core/encoding/*.cpp core/utils/*.cpp core/html/renderer.cpp core/json/*.cpp core/sse/*.cpp
//@ exclude: core/compression/*.cpp core/html/templatemap.cpp
//@ stubs: stub_net stub_random stub_compress threads
//@ nojoin: 1
//@ quick: -DN=3 -DPRE=1 time=300
//@ thorough: -DN=4 -DPRE=2 time=850
//@ flags: -fno-inline
//@ bounds: up to N (3/4) connection attempts, each accepted and sending one request, failing in accept (connection aborted, out of descriptors, interrupted), failing to take its timeouts, or without a thread to serve it; with and without the thread list; stopped by shutdown or by destruction, up to PRE (1/2) switches between the threads of the service at any point besides the blocking ones; failing to set the socket up
//@ reach: served acceptfail optfail threadfail list detached destroyed
#include "sx.h"
#include "net.h"
#include "threads.h"
#include "http_ref.h"
#include "core/server/server.hpp"
#include "core/html/html.hpp"
using namespace Lambda;
typedef std::string str;
const std::string Lambda::HTML::Templates::servicePage = "x";
enum { OK, ABORTED, NOFD, INTR, NOTIMEOUT, NOTHREAD, KINDS };
struct Net : NetModel {
	std::vector<uint32_t> script; size_t at = 0; bool lopen = false, lshut = false; int lcloses = 0; struct C { str in, out; size_t pos = 0; bool open = true; int closes = 0; uint32_t kind = 0; int id = 0; }; C c[8]; int n = 0; int before = 0; bool waiting = false;
	C& get(int f) { sx_assert(f >= 10 && f < 10 + n && c[f - 10].open, "operation on an open socket"); return c[f - 10]; }
	int socket(int, int, int) override { lopen = true; return 3; }
	int accept(int f, struct sockaddr* a, socklen_t* l) override {
		sx_yield(); SxQuiet q; if (f != 3 || !lopen || lshut) { errno = EINVAL; return -1; } if (at >= script.size()) { waiting = true; sx_wake(&waiting); while (!lshut && lopen) sx_wait(this); errno = EINVAL; return -1; }
		uint32_t k = script[at++]; if (k >= ABORTED && k <= INTR) { errno = k == ABORTED ? ECONNABORTED : k == NOFD ? EMFILE : EINTR; return -1; } __builtin_memset(a, 0, 16); C& x = c[n]; x.kind = k; x.id = at - 1; x.in = "GET /" + str(1, '0' + at - 1) + " HTTP/1.1\r\nConnection: close\r\n\r\n"; if (k == NOTHREAD) sx_thread_fail = 1; return 10 + n++;
	}
	ssize_t recv(int f, uint8_t* b, size_t s, int) override { sx_yield(); SxQuiet q; C& x = get(f); size_t m = x.in.size() - x.pos; if (m > s) m = s; __builtin_memcpy(b, x.in.data() + x.pos, m); x.pos += m; return m; }
	ssize_t send(int f, const uint8_t* b, size_t s, int) override { sx_yield(); SxQuiet q; get(f).out.append((const char*)b, s); return s; }
	int setsockopt(int f, int, int, const void*, socklen_t) override { if (f == 3) return 0; if (get(f).kind == NOTIMEOUT) { errno = ENOMEM; return -1; } return 0; }
	int shutdown(int f, int) override { SxQuiet q; if (f == 3) { sx_assert(lopen, "open"); lshut = true; sx_wake(this); return 0; } get(f); return 0; }
	int close(int f) override { SxQuiet q; if (f == 3) { sx_assert(lopen, "the listening socket is closed once"); lopen = false; lcloses++; sx_wake(this); return 0; } C& x = get(f); x.open = false; x.closes++; return 0; }
};
void sx_main() {
	sx_preemptions = PRE; Net* net = new Net; sx_net = net; uint32_t n = sx_choice(0, N, "attempts"), bad = 0; for (uint32_t i = 0; i < n; i++) { uint32_t k = sx_choice(0, KINDS - 1, "attempt"); bad += k != OK; net->script.push_back(k); } if (bad > 2) sx_drop();
	ServerConfig cfg; cfg.loglevel.requests = cfg.loglevel.startMessage = false; cfg.service.useThreadList = sx_choice(0, 1, "list"); uint32_t how = sx_choice(0, 2, "stop"); int served = 0;
	auto* srv = new LambdaInstance([&](const HTTP::Request& r, const RequestContext&) -> HandlerResponse { served++; return str("r" + r.url.pathname.substr(1)); }, cfg);
	{ SxQuiet q; while (!net->waiting) if (!sx_wait(&net->waiting, sx_clock_ns + 60000000000ull)) sx_fail("the service ended although it was not stopped"); } sx_preemptions = 0; sx_sleep(1000000000ull);
	sx_assert(net->lopen && !net->lshut, "still listening"); sx_reach(cfg.service.useThreadList ? "list" : "detached");
	for (int i = 0; i < net->n; i++) { auto& c = net->c[i]; if (c.kind == OK) { Resp r = http_read(c.out, 0); sx_assert(r.ok && r.code == 200 && r.end == c.out.size() && r.body == "r" + str(1, '0' + c.id), "every accepted connection is served"); sx_reach("served"); } else { sx_assert(c.out.empty(), "nothing is sent"); sx_reach(c.kind == NOTIMEOUT ? "optfail" : "threadfail"); } sx_assert(!c.open, "and closed"); } for (uint32_t k : net->script) if (k >= ABORTED && k <= INTR) sx_reach("acceptfail");
	sx_preemptions = PRE; if (how == 0) { srv->shutdownn(); srv->awaitFinished(); sx_assert(net->lcloses == 1, "stopped"); } else if (how == 1) { srv->shutdownn(); srv->shutdownn(); } else sx_reach("destroyed"); delete srv;
	SxQuiet q; sx_assert(net->lcloses == 1, "the listening socket is closed exactly once"); for (int i = 0; i < net->n; i++) sx_assert(net->c[i].closes == 1, "each connection is closed exactly once"); sx_assert(sx_alive() == 1, "no thread is left"); delete net;
}
