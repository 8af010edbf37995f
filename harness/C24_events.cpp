//@ src: core/websocket/*.cpp core/http/*.cpp core/network/tcp/connection.cpp core/network/*.cpp core/polyfill/*.cpp core/crypto/*.cpp core/encoding/*.cpp core/utils/*.cpp core/server/worker.cpp core/server/errorpage.cpp core/html/renderer.cpp core/json/*.cpp core/sse/*.cpp
//@ exclude: core/compression/*.cpp core/html/templatemap.cpp
//@ stubs: stub_net stub_random stub_compress
//@ quick: -DD=3 -DF=2 time=250
//@ thorough: -DD=5 -DF=3 time=850
//@ merge: std::set<char.*>::contains
//@ flags: -fno-inline
//@ bounds: one event with data of up to D (3/5) bytes, all values, type and id absent or of up to F (2/3) bytes without line breaks (and an id without NUL), any 32-bit retry value or none; or two events of up to two data bytes; then closed (also twice), left open or lost; any one send failing; clients that accept compressed content and send an origin
//@ reach: linebreak type id retry closed failed two
#include "sx.h"
#include "net.h"
#include "http_ref.h"
#include "sse_ref.h"
#include "core/sse/sse.hpp"
#include "core/http/transport_impl.hpp"
#include "core/html/html.hpp"
#include "core/server/server_impl.hpp"
using namespace Lambda; using namespace Lambda::HTTP::Transport;
const std::string Lambda::HTML::Templates::servicePage = "x";
static str lines(const str& s) { str r; for (size_t i = 0; i < s.size(); i++) { if (sx_fork(s[i] == '\r')) { r += '\n'; if (i + 1 < s.size() && sx_fork(s[i + 1] == '\n')) i++; } else r += s[i]; } return r; }
static str field(size_t max, const char* nm, bool id) { str s = sx_text(0, max, nm); for (char c : s) { sx_assume(c != '\r'); sx_assume(c != '\n'); if (id) sx_assume(c != 0); } return s; }
void sx_main() {
	Stream* net = new Stream; sx_net = net; uint32_t opt = sx_choice(0, 2, "client"); net->in = str("GET / HTTP/1.1\r\n") + (opt == 1 ? "Accept-Encoding: br, gzip\r\n" : opt == 2 ? "Origin: http://x\r\nConnection: close\r\n" : "") + "\r\n"; Network::ConnectionInfo info; info.hostPort = 80; WorkerContext* w = new WorkerContext{Network::TCP::Connection(5, info)}; TransportOptions opts; std::vector<Ev> want; size_t start = 0; bool closed = false, failed = false;
	{
		TransportContextV1 ctx(w->conn, opts); if (!ctx.awaitNext()) sx_fail("request"); auto next = ctx.nextRequest(); SSE::Writer wr({*w, ctx, next}); Resp r = http_read(net->out, 0, true); sx_assert(r.ok && r.code == 200 && r.get("content-type").starts_with("text/event-stream") && !r.count("content-encoding") && r.end == net->out.size(), "an event stream is opened"); if (!r.ok) return; start = r.end; sx_assert(wr.connected(), "connected");
		uint32_t n = opt ? 1 : sx_choice(0, 2, "events"); int sends0 = net->sends; uint32_t fail = n == 1 && opt ? 0 : sx_choice(0, 2, "failing"); if (fail) { net->failSend = sends0 + fail; net->failSent = 0; net->sendErr = EPIPE; }
		if (n == 2) sx_reach("two");
		for (uint32_t i = 0; i < n; i++) {
			Ev e; SSE::EventMessage m; bool simple = n == 2 || fail; m.data = e.data = sx_text(0, simple ? 2 : opt ? 1 : D, "data"); e.data = lines(m.data); if (e.data.find('\n') != str::npos) sx_reach("linebreak");
			if (sx_choice(0, 1, "has_type")) { m.event = e.type = simple ? str("t") : field(F, "type", false); sx_reach("type"); } if (sx_choice(0, 1, "has_id")) { m.id = e.id = simple ? str("7") : field(F, "id", true); e.hasId = true; sx_reach("id"); } if (!simple && m.data.size() < 2 && sx_choice(0, 1, "has_retry")) { uint32_t v; switch (sx_choice(0, 6, "retry")) { case 0: v = 0; break; case 1: v = 9; break; case 2: v = 10; break; case 3: v = 4294967295u; break; case 4: v = 2147483648u; break; case 5: v = 3000; break; default: v = sx_u32("ms"); sx_assume(v < 30); v = sx_concretize(v); } m.retry = v; e.retry = v; sx_reach("retry"); }
			bool open = wr.connected(), threw = false; int before = net->sends; try { wr.push(m); } catch (const std::exception&) { threw = true; } if (!open) { sx_assert(threw && net->sends == before, "pushing to a disconnected client is reported"); continue; }
			if (fail && net->sends >= net->failSend) { failed = true; sx_reach("failed"); sx_assert(threw || !wr.connected(), "a push that fails is reported or closes the stream"); } else { sx_assert(!threw, "pushed"); want.push_back(e); }
		}
		uint32_t fin = sx_choice(0, 2, "end"); bool open = wr.connected(); if (fin) { try { wr.close(); } catch (const std::exception&) {} sx_assert(!wr.connected() && net->closed, "closed"); if (open) { if (!(fail && net->sends >= net->failSend)) { Ev c; c.type = "close"; want.push_back(c); closed = true; sx_reach("closed"); } else failed = true; } if (fin == 2) { int s = net->sends; try { wr.close(); } catch (const std::exception&) {} bool t = false; try { wr.push({"x"}); } catch (const std::exception&) { t = true; } sx_assert(t && net->sends == s, "nothing is sent after closing"); } } else if (sx_choice(0, 1, "worker_stops")) { w->shutdownFlag = true; sx_assert(!wr.connected(), "not connected once the worker is to stop"); }
	}
	auto got = parse(net->out.substr(start)); sx_assert(got.size() == want.size(), "exactly one event each"); if (got.size() != want.size()) return;
	for (size_t i = 0; i < got.size(); i++) { auto &g = got[i], &x = want[i]; sx_assert(g.type.size() == x.type.size() && sx_eq(g.type, x.type), "the same type"); sx_assert(g.data.size() == x.data.size() && sx_eq(g.data, x.data), "the same data"); sx_assert(g.hasId == x.hasId && g.id.size() == x.id.size() && sx_eq(g.id, x.id), "the same id"); sx_assert(g.retry == x.retry, "the same retry value"); }
	delete w; sx_assert(net->closes == 1, "closed once"); delete net;
}
