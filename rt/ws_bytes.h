// Arbitrary bytes sent by a websocket client: what is delivered and answered, by RFC 6455 (used by C22 and C23).
#pragma once
#include "sx.h"
#include "net.h"
#include "threads.h"
#include "http_ref.h"
#include "ws_ref.h"
#include "core/websocket/websocket.hpp"
#include "core/server/server_impl.hpp"
#include "core/http/transport_impl.hpp"
#include "core/html/html.hpp"
using namespace Lambda; using namespace Lambda::HTTP::Transport;
typedef std::string str;
const std::string Lambda::HTML::Templates::servicePage = "x";
struct Msg { str data; bool bin, part; };
void sx_main() {
	sx_preemptions = 0; Stream* net = new Stream; sx_net = net; net->end = 0; net->in = "GET / HTTP/1.1\r\nUpgrade: websocket\r\nSec-WebSocket-Key: x\r\n\r\n"; Network::ConnectionInfo info; info.hostPort = 80; WorkerContext* w = new WorkerContext{Network::TCP::Connection(5, info)}; TransportOptions opts; if (sx_choice(0, 1, "small_limit")) opts.maxRequestSize = 100;
	str b = sx_text(1, N, "bytes"); std::vector<Msg> got;
	{
		TransportContextV1 ctx(w->conn, opts); if (!ctx.awaitNext()) sx_fail("request"); auto next = ctx.nextRequest();
		{ net->in += b; net->cuts = b.size() < 10 ? CUTS : 0; Websocket::WebsocketContext ws({*w, ctx, next}); try { while (ws.awaitMessage()) { auto m = ws.nextMessage(); got.push_back({str(m.data.begin(), m.data.end()), m.binary, m.partial}); } } catch (const std::exception& e) {} }
		// the frames of b by RFC 6455, up to the first violation
		size_t p = 0, k = 0; bool open = false, openbin = false, bad = false, closed = false; int reason = 0;
		for (;;) {
			if (b.size() - p < 2) { if (p < b.size()) sx_reach("incomplete"); break; }
			int op = sx_concretize((uint8_t)b[p] & 15), rsv = (uint8_t)b[p] & 0x70; bool fin = sx_fork(((uint8_t)b[p] & 0x80) != 0), masked = sx_fork(((uint8_t)b[p + 1] & 0x80) != 0); size_t l = (uint8_t)b[p + 1] & 0x7f, h = 2 + (masked ? 4 : 0); if (sx_fork(l == 126)) h += 2; else if (sx_fork(l == 127)) h += 8;
			if (b.size() - p < h) { sx_reach("incomplete"); break; }
			uint64_t n = l; if (l == 126) n = (uint8_t)b[p + 2] << 8 | (uint8_t)b[p + 3]; else if (l == 127) { n = 0; for (int i = 0; i < 8; i++) n = n << 8 | (uint8_t)b[p + 2 + i]; }
			if (sx_fork(rsv != 0) || !(op <= 2 || (op >= 8 && op <= 10))) { bad = true; reason = 1002; break; } if (sx_fork(n > opts.maxRequestSize) || sx_fork(n + h > opts.maxRequestSize)) { bad = true; reason = 1009; sx_reach("toobig"); if (!masked) reason = 0; break; } if (!masked) { bad = true; reason = 1002; break; }
			if (op >= 8 && (!fin || n > 125)) sx_drop(); if (op == 10) sx_drop(); if (op == 0 && !open) { if (sx_fork(n > b.size() - p - h)) { sx_reach("incomplete"); break; } bad = true; reason = 1002; break; } if ((op == 1 || op == 2) && open) sx_drop(); // left open: how these are refused
			if (sx_fork(n > b.size() - p - h)) { sx_reach("incomplete"); break; }
			n = sx_concretize(n); str d = b.substr(p + h, n); for (size_t i = 0; i < n; i++) d[i] ^= b[p + h - 4 + i % 4];
			p += h + n; if (op == 8) { closed = true; break; } if (op == 9) continue; if (op) openbin = op == 2; open = !fin;
			sx_assert(k < got.size(), "every data frame is received"); if (k >= got.size()) return; sx_assert(got[k].data.size() == d.size() && sx_eq(got[k].data, d) && got[k].bin == openbin && got[k].part == !fin, "as it was sent"); k++; sx_reach("delivered");
		}
		sx_assert(k == got.size(), "nothing else is received"); Resp r = http_read(net->out, 0, true); sx_assert(r.ok, "handshake"); size_t at = r.end; int said = 0; while (at < net->out.size()) { Frame f = ws_read(net->out, at); sx_assert(f.ok && !said, "well-formed frames, none after a close"); if (!f.ok) return; at = f.end; if (f.op == 8) { sx_assert(f.data.size() == 2, "reason"); said = (uint8_t)f.data[0] << 8 | (uint8_t)f.data[1]; } }
		if (bad) { sx_assert(said && (!reason || said == reason), "a violation is answered with one close frame of its reason"); sx_reach("violated"); } else if (closed) sx_assert(said == 1000, "a close is answered"); else sx_assert(!said, "no close without a reason");
		sx_assert(net->closed, "closed at the end");
	}
	delete w; sx_assert(net->closes == 1, "closed once"); delete net;
}
