//@ src: core/websocket/*.cpp core/http/*.cpp core/network/tcp/connection.cpp core/network/*.cpp core/polyfill/*.cpp core/crypto/*.cpp core/encoding/*.cpp core/utils/*.cpp core/server/worker.cpp core/server/errorpage.cpp core/html/renderer.cpp core/json/*.cpp core/sse/*.cpp
//@ exclude: core/compression/*.cpp core/html/templatemap.cpp
//@ stubs: stub_net stub_random stub_compress threads
//@ races: 1
//@ nojoin: 1
//@ quick: -DPRE=2 -DDEEP=0 time=300 steps=60000000
//@ thorough: -DPRE=3 -DDEEP=1 time=850 steps=60000000
//@ flags: -fno-inline
//@ bounds: one thread sending up to three messages (text, binary, partial or not; 0 to 3 symbolic bytes, or one of 125, 126, 127, 65535, 65536 bytes) and closing with any reason or leaving it to the destructor; or two threads each sending or closing while the client's ping, close frame or violation is being answered or the client disconnects, with up to PRE (2/3) switches between the threads at any point; any of the first sends failing or taken in part
//@ reach: sent fragments long closed threads failed pong violation refused
#include "sx.h"
#include "net.h"
#include "threads.h"
#include "http_ref.h"
#include "ws_ref.h"
#include <thread>
#include "core/websocket/websocket.hpp"
#include "core/server/server_impl.hpp"
#include "core/http/transport_impl.hpp"
#include "core/html/html.hpp"
using namespace Lambda; using namespace Lambda::HTTP::Transport;
typedef std::string str;
const std::string Lambda::HTML::Templates::servicePage = "x";
struct Net : Stream {
	int late = 0;
	ssize_t recv(int f, uint8_t* b, size_t n, int fl) override { sx_yield(); SxQuiet q; bool dry = pos >= in.size(); if (late && !dry) { sx_preemptions = late; late = 0; } ssize_t r = Stream::recv(f, b, n, fl); if (dry && end == 1) { sx_sleep(100000000ull); errno = EAGAIN; if (shut) return 0; } return r; }
	ssize_t send(int f, const uint8_t* b, size_t n, int fl) override { sx_yield(); SxQuiet q; return Stream::send(f, b, n, fl); }
	int shutdown(int f, int h) override { sx_yield(); SxQuiet q; return Stream::shutdown(f, h); } int close(int f) override { sx_yield(); SxQuiet q; return Stream::close(f); }
};
struct Sent { str data; int op; bool fin; };
void sx_main() {
	sx_preemptions = 0; Net* net = new Net; sx_net = net; net->end = 1; net->in = "GET / HTTP/1.1\r\nUpgrade: websocket\r\nSec-WebSocket-Key: x\r\n\r\n"; Network::ConnectionInfo info; info.hostPort = 80; WorkerContext* w = new WorkerContext{Network::TCP::Connection(5, info)}; TransportOptions opts; bool threads = sx_choice(0, 1, "threads");
	std::vector<Sent> a, b; int reason = 0; bool refused = false; str inc; uint32_t ev = 0, act2 = 0; bool closedA = false;
	{
		TransportContextV1 ctx(w->conn, opts); if (!ctx.awaitNext()) sx_fail("request"); auto next = ctx.nextRequest();
		if (!threads) {
			uint32_t fail = sx_choice(0, 3, "failure"); if (fail) net->failSend = 1 + fail; if (fail == 2) net->failSent = 1; // a send taken in part is continued
			Websocket::WebsocketContext ws({*w, ctx, next}); uint32_t n = sx_choice(1, DEEP ? 3 : 2, "messages"); bool open = false, threw = false;
			for (uint32_t i = 0; i < n && !threw; i++) {
				static const size_t lens[] = {125, 126, 127, 65535, 65536}; bool big = n == 1 && sx_choice(0, 1, "big"); size_t len = big ? lens[sx_choice(0, 4, "length")] : sx_choice(0, 3, "length"); if (big && fail) sx_drop(); str d; if (big) { d.resize(len); for (size_t k = 0; k < len; k++) d[k] = k * 7 + (k >> 8); sx_reach("long"); } else d = sx_str(len, "data"); bool bin = sx_choice(0, 1, "binary"), part = sx_choice(0, 1, "partial");
				a.push_back({d, open ? 0 : bin ? 2 : 1, !part}); if (open) sx_reach("fragments"); open = part; uint32_t ctor = !bin && !part ? sx_choice(0, 1, "ctor") : 0; try { if (ctor) ws.sendMessage(d); else ws.sendMessage({std::vector<uint8_t>(d.begin(), d.end()), bin, part}); } catch (const std::exception&) { threw = true; } sx_reach("sent");
			}
			bool failing = fail == 1 || fail == 3; sx_assert(threw == (failing && a.size() >= fail), "a send that fails is an error"); if (threw) { sx_reach("failed"); a.pop_back(); }
			if (sx_choice(0, 1, "close")) { static const int rs[] = {1000, 1001, 1002, 1007, 1009, 1011}; reason = rs[sx_choice(0, 5, "reason")]; try { ws.close((Websocket::CloseReason)reason); } catch (const std::exception&) { sx_assert(failing, "closing fails only with the network"); } closedA = true; bool r = false; try { ws.sendMessage(str("late")); } catch (const std::exception&) { r = true; } sx_assert(r, "sending after closing is an error"); sx_reach("refused"); try { ws.close(Websocket::CloseReason::Normal); } catch (const std::exception&) {} } else reason = 1001;
			if (failing) reason = -1;
		} else {
			ev = sx_choice(0, 4, "client"); inc = ev == 1 ? ws_frame(true, 9, "pp", "abcd") : ev == 2 ? ws_frame(true, 8, "", "abcd") : ev == 3 ? ws_frame(true, 1, "q", "") : ""; net->in += inc; net->end = ev == 4 ? 0 : 1; act2 = sx_choice(0, 2, "second"); bool two = sx_choice(0, 1, "two");
			Websocket::WebsocketContext ws({*w, ctx, next}); bool r1 = false, r2 = false, r3 = false; sx_preemptions = PRE;
			std::thread t([&] { if (act2 == 0) { try { ws.sendMessage(str("BB")); } catch (const std::exception&) { r2 = true; } } else if (act2 == 1) { try { ws.close(Websocket::CloseReason::PolicyViolation); } catch (const std::exception&) { r2 = true; } } else { try { ws.sendMessage(std::vector<uint8_t>(300, 'C')); } catch (const std::exception&) { r2 = true; } } });
			try { ws.sendMessage(str("AA")); } catch (const std::exception&) { r1 = true; } if (two) try { ws.close(Websocket::CloseReason::GoingAway); } catch (const std::exception&) { r3 = true; }
			t.join(); sx_reach("threads"); if (!r1) a.push_back({"AA", 1, true}); if (act2 == 0 && !r2) b.push_back({"BB", 1, true}); if (act2 == 2 && !r2) b.push_back({str(300, 'C'), 2, true}); sx_preemptions = 0; sx_sleep(300000000ull);
			if (!two && act2 != 1 && (ev == 0 || ev == 1)) sx_assert(!r1 && !r2, "messages are sent while nobody closes");
		}
	}
	SxQuiet q; Resp r = http_read(net->out, 0, true); sx_assert(r.ok && r.code == 101, "handshake"); size_t at = r.end, ia = 0, ib = 0; int said = 0, pongs = 0;
	while (at < net->out.size()) {
		Frame f = ws_read(net->out, at); if (!f.ok && reason == -1) { at = net->out.size(); break; } sx_assert(f.ok, "whole frames in their shortest form, unmasked"); if (!f.ok) return; at = f.end; sx_assert(!said, "nothing after a close frame");
		if (f.op == 8) { sx_assert(f.fin && f.data.size() == 2, "a close frame with its reason"); said = (uint8_t)f.data[0] << 8 | (uint8_t)f.data[1]; sx_reach("closed"); }
		else if (f.op == 10) { sx_assert(ev == 1 && f.fin && f.data == "pp", "pong"); pongs++; sx_reach("pong"); }
		else if (ia < a.size() && a[ia].op == f.op && a[ia].fin == f.fin && a[ia].data.size() == f.data.size() && sx_fork(sx_eq(a[ia].data, f.data))) ia++; else if (ib < b.size() && b[ib].op == f.op && b[ib].fin == f.fin && b[ib].data == f.data) ib++; else sx_fail("a frame nobody sent");
	}
	sx_assert(ia == a.size() && ib == b.size(), "every message sent is one frame"); sx_assert(pongs <= 1, "one pong");
	if (!threads) { if (reason > 0) sx_assert(said == reason, "one close frame with the reason"); } else { bool ok = said == 1001 || (ev == 4 && said == 0) || (act2 == 1 && said == 1008) || (ev == 2 && said == 1000) || (ev == 3 && said == 1002); sx_assert(ok, "one close frame with a reason given"); if (said == 1002) sx_reach("violation"); }
	sx_assert(net->closed, "closed"); delete w; sx_assert(net->closes == 1, "closed exactly once"); delete net;
}
