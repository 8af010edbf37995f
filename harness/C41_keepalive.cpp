//@ src: core/websocket/*.cpp core/http/*.cpp core/network/tcp/connection.cpp core/network/*.cpp core/polyfill/*.cpp core/crypto/*.cpp core/encoding/*.cpp core/utils/*.cpp core/server/worker.cpp core/server/errorpage.cpp core/html/renderer.cpp core/json/*.cpp core/sse/*.cpp
//@ exclude: core/compression/*.cpp core/html/templatemap.cpp
//@ stubs: stub_net stub_random stub_compress threads
//@ nojoin: 1
//@ quick: -DDEEP=0 time=300 steps=300000000
//@ thorough: -DDEEP=1 time=850 steps=600000000
//@ flags: -fno-inline
//@ bounds: connections left idle for 42 s (120 s thorough) of virtual time whose client answers every ping after a delay of 0 to 9 s in steps of 1 s (0.5 s thorough), stops answering after 0 to 4 (9) answers, answers with one symbolic byte changed, or sends a message in two pieces up to 9 s apart; the application waiting for messages or doing something else
//@ reach: kept dropped wrong pieces message waiting
#include "sx.h"
#include "net.h"
#include "threads.h"
#include "http_ref.h"
#include "ws_ref.h"
#include "core/websocket/websocket.hpp"
#include "core/server/server_impl.hpp"
#include "core/http/transport_impl.hpp"
#include "core/html/html.hpp"
using namespace Lambda; using namespace Lambda::HTTP::Transport;
typedef std::string str;
const std::string Lambda::HTML::Templates::servicePage = "x";
static const uint64_t S = 1000000000ull;
struct Event { uint64_t at; str data; };
struct Net : Stream {
	std::vector<Event> ev; uint64_t timeout = 60 * S, start = 0; size_t seen = 0; std::vector<uint64_t> pings; uint64_t closedAt = 0; int code = 0; bool live_ = false; uint64_t delay = 0; uint32_t answers = 1000, given = 0; int wrong = -1; uint8_t wrongXor = 0; uint64_t lastAnswer = 0; bool odd = false;
	void add(uint64_t at, const str& d) { size_t i = ev.size(); while (i > 0 && ev[i - 1].at > at) i--; ev.insert(ev.begin() + i, {at, d}); }
	ssize_t recv(int f, uint8_t* b, size_t n, int fl) override {
		sx_yield(); SxQuiet q; if (!live_) return Stream::recv(f, b, n, fl);
		live(f); uint64_t until = sx_clock_ns + timeout;
		for (;;) { if (shut) return 0; if (!ev.empty() && ev[0].at <= sx_clock_ns) { size_t k = ev[0].data.size() < n ? ev[0].data.size() : n; __builtin_memcpy(b, ev[0].data.data(), k); if (k == ev[0].data.size()) ev.erase(ev.begin()); else ev[0].data.erase(0, k); return k; } if (sx_clock_ns >= until) { errno = EAGAIN; return -1; } uint64_t w = until; if (!ev.empty() && ev[0].at < w) w = ev[0].at; sx_wait(this, w); }
	}
	ssize_t send(int f, const uint8_t* b, size_t n, int fl) override { SxQuiet q; ssize_t r = Stream::send(f, b, n, fl); if (live_) look(); return r; }
	void look() { // complete frames sent so far
		for (;;) { if (seen + 2 > out.size()) return; size_t len = (uint8_t)out[seen + 1]; sx_assert(len < 126, "short, unmasked frames"); if (len > 125 || seen + 2 + len > out.size()) return; str d = out.substr(seen + 2, len); uint8_t op = out[seen]; seen += 2 + len; sx_assert(!code, "nothing after a close frame");
			if (op == 0x89) { pings.push_back(sx_clock_ns); if (given < answers) { str p = d; if (wrong >= 0 && !odd) { odd = true; p[wrong % p.size()] ^= wrongXor; } given++; lastAnswer = sx_clock_ns + delay; add(lastAnswer, ws_frame(true, 10, p, "\x12\x34\xab\xfe")); } } else if (op == 0x88) { sx_assert(len == 2, "a close reason"); code = (uint8_t)d[0] << 8 | (uint8_t)d[1]; closedAt = sx_clock_ns; } else odd = true; }
	}
	int setsockopt(int, int, int o, const void* v, socklen_t n) override { if (o == SO_RCVTIMEO && n == sizeof(struct timeval)) { auto* t = (const struct timeval*)v; uint64_t ns = t->tv_sec * S + t->tv_usec * 1000ull; timeout = ns ? ns : 3600 * S; } return 0; }
	int shutdown(int f, int h) override { SxQuiet q; int r = Stream::shutdown(f, h); sx_wake(this); return r; } int close(int f) override { SxQuiet q; return Stream::close(f); }
};
enum { ANSWERS, STOPS, WRONG, PIECES };
void sx_main() {
	sx_preemptions = 0; sx_fifo = true; Net* net = new Net; sx_net = net; net->end = 1; net->in = "GET / HTTP/1.1\r\nUpgrade: websocket\r\nSec-WebSocket-Key: x\r\n\r\n"; Network::ConnectionInfo info; info.hostPort = 80; auto* w = new WorkerContext{Network::TCP::Connection(5, info)}; TransportOptions opts;
	uint32_t mode = sx_choice(0, 3, "mode"); bool waits = !DEEP && mode == ANSWERS ? false : sx_choice(0, 1, "waiting"); uint64_t total = (DEEP ? 120 : 42) * S; net->delay = sx_choice(0, DEEP ? 18 : 9, "delay") * (DEEP ? S / 2 : S); if (mode == STOPS) net->answers = sx_choice(0, DEEP ? 9 : 4, "answers"); if (mode != ANSWERS && mode != STOPS && net->delay > S) sx_drop(); if (mode == STOPS && net->delay % (3 * S)) sx_drop();
	if (mode == WRONG) { net->wrong = sx_choice(0, 13, "at"); net->wrongXor = sx_byte("changed"); sx_assume(net->wrongXor != 0); } bool message = mode == ANSWERS && sx_choice(0, 1, "message");
	{
		TransportContextV1 ctx(w->conn, opts); if (!ctx.awaitNext()) sx_fail("request"); auto next = ctx.nextRequest(); bool threw = false, got = false, known = true; str text; uint64_t until = 0;
		{
			net->start = sx_clock_ns; until = net->start + total; net->lastAnswer = net->start; { SxQuiet q; if (message) net->add(until - 3 * S, ws_frame(true, 1, "hey", "abcd")); if (mode == PIECES) { str f = ws_frame(true, 1, "hey", "abcd"); uint32_t cut = sx_choice(1, f.size() - 1, "cut"); uint64_t at = net->start + sx_choice(0, 5, "first") * S; net->add(at, f.substr(0, cut)); net->add(at + sx_choice(1, 9, "pause") * S, f.substr(cut)); net->answers = 0; /* answers would fall into the frame */ until = at + 10 * S; } }
			Websocket::WebsocketContext ws({*w, ctx, next}); { SxQuiet q; net->seen = http_read(net->out, 0, true).end; net->live_ = true; }
			if (waits) { sx_reach("waiting"); try { while (ws.awaitMessage()) { text += ws.nextMessage().text(); got = true; break; } } catch (const std::exception&) { threw = true; } } if (sx_clock_ns < until) sx_sleep(until - sx_clock_ns);
			while (ws.hasMessage()) { text += ws.nextMessage().text(); got = true; }
			bool dead = mode == STOPS || mode == WRONG; sx_assert((net->code != 0) == (dead && (mode == WRONG || net->code != 0)), "a client that answers is kept"); if (mode == ANSWERS || mode == PIECES) { sx_assert(!threw && !net->code && !net->shut, "kept open however long it is idle"); if (message || mode == PIECES) { sx_assert(text == "hey", "and a message still arrives"); sx_reach(mode == PIECES ? "pieces" : "message"); } else sx_assert(!got, "no message"); bool sent = true; try { ws.sendMessage(Websocket::Message("ok")); } catch (...) { sent = false; } sx_assert(sent, "and can be sent to"); sx_reach("kept"); }
			if (mode == WRONG) { sx_assert(net->code == 1002 && net->shut, "an answer of other content breaks the protocol"); sx_reach("wrong"); }
			if (mode == STOPS) { uint64_t last = net->lastAnswer, lim = last + 26 * S; if (lim <= until) { sx_assert(net->code == 1002 && net->shut, "a client that no longer answers is dropped"); sx_reach("dropped"); } if (net->code) sx_assert(net->code == 1002 && net->closedAt >= last + 15 * S && net->closedAt <= lim, "not before three pings went unanswered, and not much later"); if (net->code && waits) sx_assert(threw, "the application is told"); }
			(void)known;
		}
		SxQuiet q; uint64_t prev = net->start, end = net->closedAt < until ? net->closedAt : until; for (uint64_t p : net->pings) { sx_assert(p - prev >= 5 * S && p - prev <= 5 * S + S / 2, "a ping every five seconds"); prev = p; } sx_assert(end <= prev + 5 * S + S / 2 || (net->code == 1002), "and none is left out");
	}
	delete w; SxQuiet q; sx_assert(net->closes == 1, "closed once"); delete net;
}
