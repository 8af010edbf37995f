//@ src: core/websocket/*.cpp core/http/*.cpp core/network/tcp/connection.cpp core/network/*.cpp core/polyfill/*.cpp core/crypto/*.cpp core/encoding/*.cpp core/utils/*.cpp core/server/worker.cpp core/server/errorpage.cpp core/html/renderer.cpp core/json/*.cpp core/sse/*.cpp
//@ exclude: core/compression/*.cpp core/html/templatemap.cpp
//@ stubs: stub_net stub_random stub_compress threads
//@ races: 1
//@ nojoin: 1
//@ quick: -DDEEP=0 time=300 steps=60000000
//@ thorough: -DDEEP=1 time=850 steps=60000000
//@ flags: -fno-inline
//@ bounds: every sequence of up to three client frames (text, binary, continuation, ping, close; final or not) with payloads of 0 to 4 symbolic bytes and symbolic masks, their bytes cut at up to two places anywhere; single frames of 125, 126, 127, 255, 300 and 65536 payload bytes; the client then stays silent, disconnects or resets; the reading thread switched with the application at blocking operations and at one further point
//@ reach: data ping close partial binary long eof silent
#include "sx.h"
#include "net.h"
#include "threads.h"
#include "http_ref.h"
#include "ws_ref.h"
#include "core/websocket/websocket.hpp"
#include "core/server/server_impl.hpp"
#include "core/http/transport_impl.hpp"
#include "core/html/html.hpp"
using namespace Lambda; using namespace Lambda::HTTP::Transport;
typedef std::string str;
const std::string Lambda::HTML::Templates::servicePage = "x";
struct Net : Stream {
	int late = 0; // switches allowed while the frames are handled
	ssize_t recv(int f, uint8_t* b, size_t n, int fl) override { sx_yield(); SxQuiet q; bool dry = pos >= in.size(); if (late) { sx_preemptions = dry ? 0 : late; if (dry) late = 0; } ssize_t r = Stream::recv(f, b, n, fl); if (dry && end == 1) { sx_sleep(100000000ull); errno = EAGAIN; } return r; }
	ssize_t send(int f, const uint8_t* b, size_t n, int fl) override { SxQuiet q; return Stream::send(f, b, n, fl); }
	int shutdown(int f, int h) override { SxQuiet q; return Stream::shutdown(f, h); } int close(int f) override { SxQuiet q; return Stream::close(f); }
};
struct Msg { str data; bool bin, part; };
enum { TEXT, BIN, CONT, PING, CLOSE };
static const int ops[] = {1, 2, 0, 9, 8};
void sx_main() {
	sx_preemptions = 0; Net* net = new Net; sx_net = net; net->end = 1; net->in = "GET / HTTP/1.1\r\nUpgrade: websocket\r\nSec-WebSocket-Key: x\r\n\r\n"; Network::ConnectionInfo info; info.hostPort = 80; WorkerContext* w = new WorkerContext{Network::TCP::Connection(5, info)}; TransportOptions opts;
	std::vector<Msg> want; std::vector<str> pings; bool closes = false; uint32_t mode = sx_choice(0, 3, "mode"); str bytes; int cuts = 0, late = 0;
	if (mode == 3) { // one long frame
		static const size_t lens[] = {125, 126, 127, 255, 300, 65536}; size_t n = lens[sx_choice(0, 5, "length")]; bool bin = n < 65536 && sx_choice(0, 1, "binary"); str d; for (size_t i = 0; i < n; i++) d += (char)(i * 31 + (i >> 8)); d.replace(n - 2, 2, sx_str(2, "tail")); bytes = ws_frame(true, bin ? 2 : 1, d, "\x12\x34\xab\xfe"); want.push_back({d, bin, false}); if (n <= 300) { cuts = 1; net->edge = 16; net->wide = 64; } sx_reach("long");
		if (n < 1000 && sx_choice(0, 1, "followed")) { bytes += ws_frame(true, 1, "z", "abcd"); want.push_back({"z", false, false}); }
	} else {
		uint32_t n = mode + 1; bool open = false, openbin = false; cuts = DEEP ? (mode == 2 ? 1 : 2) : mode == 2 ? 0 : mode == 1 ? 1 : 2;
		for (uint32_t i = 0; i < n && !closes; i++) {
			uint32_t k = sx_choice(0, 4, "frame"); bool data = k <= CONT, fin = data ? sx_choice(0, 1, "final") : true; if ((k == CONT) != open && data) sx_drop(); // a message in fragments is continued before the next one starts
			size_t len = mode == 0 ? sx_choice(0, DEEP ? 9 : 5, "length") : mode == 1 ? sx_choice(0, 1, "length") * 3 : 1 + (i & 1); str d = sx_str(len, "payload"), mask = sx_str(4, "mask"); if (k == CLOSE && len == 1) sx_drop();
			bytes += ws_frame(fin, ops[k], d, mask); if (k == PING) pings.push_back(d); else if (k == CLOSE) closes = true; else { if (k != CONT) openbin = k == BIN; want.push_back({d, openbin, !fin}); open = !fin; }
		}
	}
	if (mode == 0 && sx_choice(0, 1, "interleaved")) { cuts = DEEP; late = 1 + DEEP; } else if (mode == 1 && sx_choice(0, 1, "interleaved")) { cuts = 0; late = 1 + DEEP; } uint32_t end = mode == 3 ? 0 : closes ? sx_choice(0, 1, "end") : sx_choice(0, 2, "end");
	{
		TransportContextV1 ctx(w->conn, opts); if (!ctx.awaitNext()) sx_fail("request"); auto next = ctx.nextRequest(); std::vector<Msg> got; bool threw = false;
		{
			net->in += bytes; net->end = end; net->cuts = cuts; net->late = late; Websocket::WebsocketContext ws({*w, ctx, next}); bool more = true;
			try { while (!(end == 1 && !closes && got.size() >= want.size())) { if (!ws.awaitMessage()) break; sx_assert(ws.hasMessage(), "a message is there"); auto m = ws.nextMessage(); got.push_back({str(m.data.begin(), m.data.end()), m.binary, m.partial}); sx_assert(m.size() == m.data.size(), "size"); } } catch (const std::exception& e) { threw = true; } (void)more;
			if (end == 1 && !closes) { sx_sleep(1000000000ull); sx_assert(!ws.hasMessage(), "no message beyond those sent"); sx_reach("silent"); } else sx_reach("eof");
		}
		SxQuiet q; sx_assert(got.size() == want.size(), "every data frame is received exactly once"); if (got.size() != want.size()) return;
		for (size_t i = 0; i < got.size(); i++) { sx_assert(got[i].data.size() == want[i].data.size() && sx_eq(got[i].data, want[i].data), "its payload unmasked, in order"); sx_assert(got[i].bin == want[i].bin, "marked as its message is"); sx_assert(got[i].part == want[i].part, "partial exactly if not final"); if (want[i].part) sx_reach("partial"); if (want[i].bin) sx_reach("binary"); sx_reach("data"); }
		if (end == 2 && !closes) {} else sx_assert(!threw, "no error");
		Resp r = http_read(net->out, 0, true); sx_assert(r.ok && r.code == 101, "handshake"); size_t at = r.end, k = 0; bool closed = false; while (at < net->out.size()) { Frame f = ws_read(net->out, at); sx_assert(f.ok && f.fin && !closed, "well-formed frames, none after a close"); if (!f.ok) return; at = f.end; if (f.op == 10) { sx_assert(k < pings.size() && f.data.size() == pings[k].size() && sx_eq(f.data, pings[k]), "a pong of the same payload"); k++; sx_reach("ping"); } else if (f.op == 8) { closed = true; sx_assert(f.data.size() == 2, "close reason"); uint16_t code = (uint8_t)f.data[0] << 8 | (uint8_t)f.data[1]; sx_assert(code == (closes ? 1000 : 1001), "close reason"); sx_reach("close"); } else sx_assert(f.op == 9, "nothing else is sent"); }
		sx_assert(k == pings.size(), "every ping is answered"); if (closes || end == 1) sx_assert(closed, "the close is answered");
	}
	delete w; SxQuiet q; sx_assert(net->closes == 1, "closed once"); delete net;
}
