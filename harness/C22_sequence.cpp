//@ src: core/websocket/*.cpp core/http/*.cpp core/network/tcp/connection.cpp core/network/*.cpp core/polyfill/*.cpp core/crypto/*.cpp core/encoding/*.cpp core/utils/*.cpp core/server/worker.cpp core/server/errorpage.cpp core/html/renderer.cpp core/json/*.cpp core/sse/*.cpp
//@ exclude: core/compression/*.cpp core/html/templatemap.cpp
//@ stubs: stub_net stub_random stub_compress threads
//@ nojoin: 1
//@ quick: -DN=30 -DMAX=4097 time=200 steps=200000000
//@ thorough: -DN=100 -DMAX=65537 time=800 steps=1000000000
//@ flags: -fno-inline
//@ bounds: conversations of N frames (30/100) in one of 4 mixes of whole messages, fragments (messages of up to 9), pings between them, of 0 to 140 bytes, one with a symbolic byte and mask; frames (whole, or the first, middle or last fragment) of a length around every power of two from 15 to MAX (4097/65537) with arbitrary bytes at their ends and an arbitrary mask; the bytes arriving in pieces of 1, 5, 100, 2048 bytes or as large as the reader asks for; the application reading as they arrive or after all have arrived
//@ reach: many long fragments ping pieces late
// Long conversations.
#include "large.h"
#include "net.h"
#include "threads.h"
#include "http_ref.h"
#include "ws_ref.h"
#include "core/websocket/websocket.hpp"
#include "core/server/server_impl.hpp"
#include "core/http/transport_impl.hpp"
#include "core/html/html.hpp"
using namespace Lambda; using namespace Lambda::HTTP::Transport;
typedef std::string str;
const std::string Lambda::HTML::Templates::servicePage = "x";
struct Net : Stream {
	int late = 0; // switches allowed while the frames are handled
	ssize_t recv(int f, uint8_t* b, size_t n, int fl) override { sx_yield(); SxQuiet q; bool dry = pos >= in.size(); if (late) { sx_preemptions = dry ? 0 : late; if (dry) late = 0; } ssize_t r = Stream::recv(f, b, n, fl); if (dry && end == 1) { sx_sleep(100000000ull); errno = EAGAIN; } return r; }
	ssize_t send(int f, const uint8_t* b, size_t n, int fl) override { SxQuiet q; return Stream::send(f, b, n, fl); }
	int shutdown(int f, int h) override { SxQuiet q; return Stream::shutdown(f, h); } int close(int f) override { SxQuiet q; return Stream::close(f); }
};
struct Msg { str data; bool bin, part; };
enum { TEXT, BIN, CONT, PING, CLOSE };
static const int ops[] = {1, 2, 0, 9, 8};
void sx_main() {
	sx_preemptions = 0; Net* net = new Net; sx_net = net; net->end = 1; net->in = "GET / HTTP/1.1\r\nUpgrade: websocket\r\nSec-WebSocket-Key: x\r\n\r\n"; Network::ConnectionInfo info; info.hostPort = 80; WorkerContext* w = new WorkerContext{Network::TCP::Connection(5, info)}; TransportOptions opts;
	std::vector<Msg> want; std::vector<str> pings; str bytes; static const size_t piece[] = {(size_t)-1, 2048, 100, 5, 1}; size_t pc = piece[sx_choice(0, 4, "piece")]; bool late = sx_choice(0, 1, "late"), bin = false, open = false;
	auto frame = [&](int op, bool fin, const str& d, const str& mask) { bytes += ws_frame(fin, op, d, mask); if (op == 9) { pings.push_back(d); return; } if (op) bin = op == 2; want.push_back({d, bin, !fin}); open = !fin; if (!fin) sx_reach("fragments"); };
	if (sx_choice(0, 1, "mode") == 0) {
		uint32_t mix = sx_choice(0, 3, "mix"), at = sx_choice(0, 2, "at") * (N / 2 - 1) + 1, parts = 0;
		for (uint32_t i = 0; i < N; i++) {
			str d = str((i * 37 + mix * 11) % 141, 'a' + i % 26), mask = {(char)(i * 3), (char)(i + 100), (char)(255 - i), (char)(i * i)}; if (i == at) { d = "x" + sx_str(1, "payload") + d; mask = sx_str(4, "mask"); }
			bool ping = mix == 2 ? i % 3 == 1 : mix == 3 && i % 7 == 5; if (ping) { if (d.size() > 125) d.resize(125); frame(9, true, d, mask); continue; }
			if (mix == 0) frame(1 + i % 2, true, d, mask); else { uint32_t len = mix == 1 ? 9 : 2 + (i % 4); bool fin = open ? ++parts >= len : i % 5 == 0; if (!open) parts = 1; frame(open ? 0 : 1 + (i / 3) % 2, fin || i + 1 == N, d, mask); }
		}
		sx_reach("many");
	} else {
		size_t n = sx_size(15, 15, MAX, "length"); uint32_t k = sx_choice(0, 3, "kind"); str l = sx_large(n, "byte"), mask = sx_str(4, "mask"), m2 = "abcd";
		if (k == 0) { frame(1, true, l, mask); frame(2, true, "next", m2); } else { frame(2, false, k == 1 ? l : "f", k == 1 ? mask : m2); frame(9, true, "p", m2); frame(0, false, k == 2 ? l : "m", k == 2 ? mask : m2); frame(0, true, k == 3 ? l : "", k == 3 ? mask : m2); frame(1, true, "next", m2); } sx_reach("long");
	}
	if (bytes.size() / pc > 600) sx_drop(); if (pc < 3000) sx_reach("pieces");
	{
		TransportContextV1 ctx(w->conn, opts); if (!ctx.awaitNext()) sx_fail("request"); auto next = ctx.nextRequest(); std::vector<Msg> got;
		{
			net->in += bytes; net->end = 1; net->maxRecv = pc; Websocket::WebsocketContext ws({*w, ctx, next}); if (late) { for (int i = 0; i < 50 && net->pos < net->in.size(); i++) sx_sleep(1000000000ull); sx_reach("late"); }
			try { while (got.size() < want.size()) { if (!ws.awaitMessage()) break; auto m = ws.nextMessage(); got.push_back({str(m.data.begin(), m.data.end()), m.binary, m.partial}); } } catch (const std::exception& e) { sx_fail("no error"); }
			sx_sleep(1000000000ull); sx_assert(!ws.hasMessage(), "no message beyond those sent");
		}
		SxQuiet q; sx_assert(got.size() == want.size(), "every data frame is received exactly once"); if (got.size() != want.size()) return;
		for (size_t i = 0; i < got.size(); i++) { sx_assert(sx_eq(got[i].data, want[i].data), "its payload unmasked, in order"); sx_assert(got[i].bin == want[i].bin, "marked as its message is"); sx_assert(got[i].part == want[i].part, "partial exactly if not final"); }
		Resp r = http_read(net->out, 0, true); sx_assert(r.ok && r.code == 101, "handshake"); size_t at = r.end, k = 0; bool closed = false; while (at < net->out.size()) { Frame f = ws_read(net->out, at); sx_assert(f.ok && f.fin && !closed, "well-formed frames, none after a close"); if (!f.ok) return; at = f.end; if (f.op == 10) { sx_assert(k < pings.size() && sx_eq(f.data, pings[k]), "a pong of the same payload"); k++; sx_reach("ping"); } else if (f.op == 8) { closed = true; sx_assert(f.data.size() == 2 && (uint8_t)f.data[0] == 3 && (uint8_t)f.data[1] == 233, "close reason"); } else sx_assert(f.op == 9, "nothing else is sent"); }
		sx_assert(k == pings.size(), "every ping is answered"); sx_assert(closed, "closed when left");
	}
	delete w; SxQuiet q; sx_assert(net->closes == 1, "closed once"); delete net;
}
