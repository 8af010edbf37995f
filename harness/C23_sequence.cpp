//@ src: core/websocket/*.cpp core/http/*.cpp core/network/tcp/connection.cpp core/network/*.cpp core/polyfill/*.cpp core/crypto/*.cpp core/encoding/*.cpp core/utils/*.cpp core/server/worker.cpp core/server/errorpage.cpp core/html/renderer.cpp core/json/*.cpp core/sse/*.cpp
//@ exclude: core/compression/*.cpp core/html/templatemap.cpp
//@ stubs: stub_net stub_random stub_compress threads
//@ nojoin: 1
//@ quick: -DN=40 -DMAX=4097 time=200 steps=200000000
//@ thorough: -DN=150 -DMAX=65537 time=800 steps=1000000000
//@ flags: -fno-inline
//@ bounds: conversations of N messages (40/150) of mixed kinds, whole and in fragments of up to 7 parts, of 0 to 400 bytes with one symbolic byte, pings answered between them; a message of a length around every power of two from 15 to MAX (4097/65537) with arbitrary bytes at its ends; the system accepting writes whole or in parts of 100, 7 or 1 bytes
//@ reach: many long fragments pong parts
// Long conversations.
#include "large.h"
#include "net.h"
#include "threads.h"
#include "http_ref.h"
#include "ws_ref.h"
#include "core/websocket/websocket.hpp"
#include "core/server/server_impl.hpp"
#include "core/http/transport_impl.hpp"
#include "core/html/html.hpp"
using namespace Lambda; using namespace Lambda::HTTP::Transport;
typedef std::string str;
const std::string Lambda::HTML::Templates::servicePage = "x";
struct Net : Stream {
	int late = 0; // switches allowed while the frames are handled
	ssize_t recv(int f, uint8_t* b, size_t n, int fl) override { sx_yield(); SxQuiet q; bool dry = pos >= in.size(); if (late) { sx_preemptions = dry ? 0 : late; if (dry) late = 0; } ssize_t r = Stream::recv(f, b, n, fl); if (dry && end == 1) { sx_sleep(100000000ull); errno = EAGAIN; } return r; }
	ssize_t send(int f, const uint8_t* b, size_t n, int fl) override { SxQuiet q; return Stream::send(f, b, n, fl); }
	int shutdown(int f, int h) override { SxQuiet q; return Stream::shutdown(f, h); } int close(int f) override { SxQuiet q; return Stream::close(f); }
};
struct Sent { str data; int op; bool fin; };
void sx_main() {
	sx_preemptions = 0; Net* net = new Net; sx_net = net; net->end = 1; net->in = "GET / HTTP/1.1\r\nUpgrade: websocket\r\nSec-WebSocket-Key: x\r\n\r\n"; Network::ConnectionInfo info; info.hostPort = 80; WorkerContext* w = new WorkerContext{Network::TCP::Connection(5, info)}; TransportOptions opts;
	std::vector<Sent> sent; std::vector<str> pings; static const size_t parts[] = {(size_t)-1, 100, 7, 1}; net->maxSend = parts[sx_choice(0, 3, "accepts")]; if (net->maxSend < 1000) sx_reach("parts"); bool open = false; int reason = 1001;
	{
		TransportContextV1 ctx(w->conn, opts); if (!ctx.awaitNext()) sx_fail("request"); auto next = ctx.nextRequest(); Websocket::WebsocketContext ws({*w, ctx, next});
		auto put = [&](const str& d, bool bin, bool part) { sent.push_back({d, open ? 0 : bin ? 2 : 1, !part}); open = part; if (part) sx_reach("fragments"); ws.sendMessage({std::vector<uint8_t>(d.begin(), d.end()), bin, part}); };
		if (sx_choice(0, 1, "mode") == 0) {
			uint32_t mix = sx_choice(0, 2, "mix"), at = sx_choice(0, 2, "at") * (N / 2 - 1) + 1, fr = 0; bool bin = false;
			for (uint32_t i = 0; i < N; i++) { str d = str((i * 61 + mix) % 401, 'a' + i % 26); if (i == at) d += sx_str(1, "byte"); if (!open) { bin = (i / 2) % 2; fr = 0; } bool part = mix == 0 ? false : mix == 1 ? ++fr < 7 : i % 3 != 0; put(d, bin, part && i + 1 < N); if (i % 8 == 4) { str p = "ping" + std::to_string(i); net->in += ws_frame(true, 9, p, "abcd"); pings.push_back(p); sx_sleep(500000000ull); sx_reach("pong"); } }
			sx_reach("many");
		} else { size_t n = sx_size(15, 15, MAX, "length"); if (n / net->maxSend > 600) sx_drop(); str l = sx_large(n, "byte"); uint32_t k = sx_choice(0, 2, "kind"); if (k == 0) { put("f", false, true); put(l, false, true); put("", false, false); } else put(l, k == 2, false); put("next", true, false); sx_reach("long"); }
		if (sx_choice(0, 1, "close")) { ws.close(Websocket::CloseReason::MessageTooBig); reason = 1009; }
	}
	SxQuiet q; Resp r = http_read(net->out, 0, true); sx_assert(r.ok && r.code == 101, "handshake"); size_t at = r.end, i = 0, k = 0; int said = 0;
	while (at < net->out.size()) { Frame f = ws_read(net->out, at); sx_assert(f.ok, "whole frames in their shortest form, unmasked"); if (!f.ok) return; at = f.end; sx_assert(!said, "nothing after a close frame"); if (f.op == 8) { sx_assert(f.fin && f.data.size() == 2, "a close frame with its reason"); said = (uint8_t)f.data[0] << 8 | (uint8_t)f.data[1]; } else if (f.op == 10) { sx_assert(k < pings.size() && f.data == pings[k], "pong"); k++; } else { sx_assert(i < sent.size() && f.op == sent[i].op && f.fin == sent[i].fin && sx_eq(f.data, sent[i].data), "every message sent is one frame, in order"); i++; } }
	sx_assert(i == sent.size() && k == pings.size(), "every message sent is one frame"); sx_assert(said == reason, "one close frame with the reason"); delete w; sx_assert(net->closes == 1, "closed exactly once"); delete net;
}
