//@ src: core/server/worker.cpp core/server/errorpage.cpp core/http/*.cpp core/sse/*.cpp core/websocket/*.cpp core/network/tcp/connection.cpp core/network/*.cpp core/polyfill/*.cpp core/crypto/*.cpp core/encoding/*.cpp core/html/renderer.cpp core/json/*.cpp core/utils/*.cpp
//@ exclude: core/compression/*.cpp core/html/templatemap.cpp
//@ stubs: stub_net stub_random stub_compress threads
//@ quick: -DREQ=2 -DFAILS=1 time=250
//@ thorough: -DREQ=3 -DFAILS=1 time=850
//@ merge: std::set<char.*>::contains
//@ flags: -fno-inline
//@ bounds: up to REQ requests (2/3) on one connection, received together or one by one, each a plain GET or POST, a malformed one, a truncated one or one asking for a websocket; per request the handler returns a response (with or without a connection header), returns nothing, throws a standard exception, an int or an upgrade error of its own, asks for a websocket and passes on or recovers from the refusal, opens an event stream (and then returns, responds or throws), opens a websocket and sends, or the worker is asked to stop meanwhile; the connection ends by end of stream, timeout, reset or another error; any one of the first sends fails; the three error page types, request logging on and off
//@ reach: response nothing exception other refused recovered sse ws stop malformed sendfail
#include "sx.h"
#include "net.h"
#include "threads.h"
#include "http_ref.h"
#include "core/server/server_impl.hpp"
#include "core/http/http.hpp"
#include "core/html/html.hpp"
using namespace Lambda; using namespace Lambda::Server;
typedef std::string str;
const std::string Lambda::HTML::Templates::servicePage = "<p>{{svcpage_statuscode}} {{svcpage_statustext}}: {{svcpage_message_text}}</p>";
struct Net : Stream {
	std::vector<size_t> ends; bool together = false; size_t served = 0;
	ssize_t recv(int f, uint8_t* b, size_t n, int fl) override {
		size_t lim = in.size(); if (!together) for (size_t e : ends) if (e > pos) { lim = e; break; }
		str keep = in; in.resize(lim); bool dry = pos >= in.size(); ssize_t r = Stream::recv(f, b, n, fl); int e = errno; in = keep; errno = e; if (r < 0 && e == EAGAIN) sx_sleep(100000000ull); return r;
	}
};
enum { RESPOND, RCLOSE, NOTHING, THROW, THROWINT, THROWUP, WSREFUSED, WSRECOVER, SSE_, SSETHROW, SSERESP, WS, STOP, KINDS };
enum { GET_, POST_, BAD, CUT, WSREQ, REQS };
void sx_main() {
	sx_preemptions = 0; Net* net = new Net; sx_net = net; net->end = sx_choice(0, 3, "end");
	Network::ConnectionInfo info; info.hostPort = 80; ServeOptions opts; opts.loglevel.requests = false; opts.loglevel.transportEvents = false; uint32_t pages = 0;
	uint32_t n = sx_choice(1, REQ, "requests"); net->together = n > 1 ? sx_choice(0, 1, "together") : 0; std::vector<uint32_t> kind, req;
	for (uint32_t i = 0; i < n; i++) {
		uint32_t q = sx_choice(0, REQS - 1, "request"), k = q == BAD || q == CUT ? 0 : sx_choice(0, KINDS - 1, "handler"); if (k == WS && q != WSREQ) sx_drop(); if (k == WSRECOVER && q == WSREQ) sx_drop(); if (q == WSREQ && k != WS && k != RESPOND && k != WSREFUSED) sx_drop(); if (q == CUT && i + 1 < n) sx_drop();
		str p = str(1, 'a' + i); net->in += q == POST_ ? "POST /" + p + " HTTP/1.1\r\nContent-Length: 3\r\n\r\nxyz" : q == BAD ? "GET /" + p + " HTTP/1.1\r\nnocolon\r\n\r\n" : q == CUT ? "GET /" + p + " HTTP/1.1\r\nHost: x\r\n" : q == WSREQ ? "GET /" + p + " HTTP/1.1\r\nUpgrade: websocket\r\nSec-WebSocket-Key: abc\r\n\r\n" : "GET /" + p + " HTTP/1.1\r\n\r\n";
		kind.push_back(k); req.push_back(q); net->ends.push_back(net->in.size());
	}
	if (n == 1) { pages = sx_choice(0, 2, "page"); opts.loglevel.requests = opts.loglevel.transportEvents = sx_choice(0, 1, "log"); } opts.errorResponseType = pages == 0 ? ErrorResponseType::HTML : pages == 1 ? ErrorResponseType::JSON : ErrorResponseType::Plain;
	if (FAILS && net->end == 0) { net->failSend = sx_choice(0, n + 1, "failing_send"); if (net->failSend) { net->sendErr = sx_choice(0, 1, "send_error") ? EPIPE : ECONNRESET; } }
	WorkerContext* w = new WorkerContext{Network::TCP::Connection(5, info)}; uint32_t called = 0; bool up = false; // up: the connection was handed to another protocol
	RequestCallback cb = [&](const HTTP::Request& rq, const RequestContext& ctx) -> HandlerResponse {
		uint32_t i = called++; sx_assert(i < n && req[i] != BAD && req[i] != CUT, "only requests that arrived whole are delivered"); sx_assert(rq.url.pathname == "/" + str(1, 'a' + i), "requests are delivered in order"); sx_assert(rq.body.buffer().size() == (req[i] == POST_ ? 3u : 0u), "with their bodies"); str body = "r" + str(1, '0' + i);
		switch (kind[i]) {
			case RESPOND: { HTTP::Response r(201, {}, body); return r; }
			case RCLOSE: { HTTP::Response r(202, {{"connection", "close"}}, body); return r; }
			case NOTHING: return {};
			case THROW: throw std::runtime_error("oops");
			case THROWINT: throw 42;
			case THROWUP: throw Server::Connection::UpgradeError("no", 426);
			case WSREFUSED: case WS: { auto c = ctx.upgrateToWebsocket(); up = true; c.sendMessage(str("hi")); if (sx_choice(0, 1, "throw_after")) throw std::runtime_error("late"); return {}; }
			case WSRECOVER: { try { auto c = ctx.upgrateToWebsocket(); sx_fail("not a websocket request"); } catch (const std::exception&) {} HTTP::Response r(203, {}, body); return r; }
			case SSE_: case SSETHROW: case SSERESP: { auto s = ctx.startEventStream(); up = true; s.push({"ev"}); if (kind[i] == SSETHROW) throw std::runtime_error("late"); if (kind[i] == SSERESP) { HTTP::Response r(200, {}, body); return r; } s.close(); return {}; }
			default: { w->shutdownFlag = true; HTTP::Response r(201, {}, body); return r; }
		}
	};
	connectionWorker(*w, opts, cb);
	int sends = net->sends; delete w; sx_assert(net->closes == 1, "the connection is closed once"); sx_assert(net->sends == sends, "nothing is sent afterwards");
	bool failed = net->failSend && sends >= net->failSend; if (failed) sx_reach("sendfail"); size_t at = 0; uint32_t i = 0; bool open = true;
	for (; i < n && open; i++) {
		uint32_t q = req[i], k = kind[i]; if (q == CUT) break; if (q != BAD) sx_assert(called > i || failed, "every request is delivered"); if (failed && called <= i && q != BAD) break;
		bool stream = k == SSE_ || k == SSETHROW || k == SSERESP; bool wsok = q == WSREQ && (k == WS || k == WSREFUSED) && !(net->together && i + 1 < n); if (q == BAD) stream = wsok = false;
		Resp r = http_read(net->out, at, stream || wsok); if (failed && !r.ok) { at = net->out.size(); open = false; i++; break; } sx_assert(r.ok, "a response per request"); if (!r.ok) return; at = r.end; str body = "r" + str(1, '0' + i); bool closing = r.get("connection") == "close";
		if (q == BAD) { sx_assert(r.code == 400 && closing, "a malformed request is refused and the connection closed"); sx_reach("malformed"); open = false; }
		else if (wsok) { sx_assert(r.code == 101, "switching protocols"); open = false; sx_reach("ws"); if (!failed) sx_assert(net->out.compare(at, 4, str("\x81\x02hi")) == 0, "the message sent"); at = net->out.size(); }
		else if (stream) { sx_assert(r.code == 200 && r.get("content-type").starts_with("text/event-stream"), "event stream"); open = false; sx_reach("sse"); if (!failed) { str ev = net->out.substr(at); sx_assert(ev.find("data: ev\r\n") == 0, "the event pushed"); } sx_assert(net->out.find("HTTP/1.1", at) == str::npos, "no second response"); at = net->out.size(); }
		else {
			int code = k == RESPOND || k == STOP ? 201 : k == RCLOSE ? 202 : k == NOTHING || k == THROW || k == THROWINT ? 500 : k == THROWUP ? 426 : k == WSRECOVER ? 203 : q == POST_ ? 405 : 400;
			sx_assert(r.code == code, "the status the handler's outcome calls for"); if (code < 400) { sx_assert(r.body == body, "the handler's response"); } else if (code == 500) sx_assert(r.body.size() > 0, "an error page");
			if (k == THROWUP || k == WSREFUSED || k == WS) { sx_assert(closing, "a refused switch closes"); sx_reach("refused"); } if (k == RCLOSE) sx_assert(closing, "a closing response closes");
			if (k == RESPOND) sx_reach("response"); if (k == NOTHING) sx_reach("nothing"); if (k == THROW) sx_reach("exception"); if (k == THROWINT) sx_reach("other"); if (k == WSRECOVER) sx_reach("recovered"); if (k == STOP) { sx_reach("stop"); open = false; }
			if (closing) open = false;
		}
	}
	sx_assert(at == net->out.size(), "no response beyond those"); sx_assert(called <= i, "nothing is delivered after the last response"); delete net;
}
