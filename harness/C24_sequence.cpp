//@ src: core/websocket/*.cpp core/http/*.cpp core/network/tcp/connection.cpp core/network/*.cpp core/polyfill/*.cpp core/crypto/*.cpp core/encoding/*.cpp core/utils/*.cpp core/server/worker.cpp core/server/errorpage.cpp core/html/renderer.cpp core/json/*.cpp core/sse/*.cpp
//@ exclude: core/compression/*.cpp core/html/templatemap.cpp
//@ stubs: stub_net stub_random stub_compress
//@ quick: -DMAX=1025 time=150 steps=200000000
//@ thorough: -DMAX=16384 time=800 steps=1000000000
//@ nojoin: 1
//@ flags: -fno-inline
//@ bounds: 30 events of mixed fields and up to 6 lines; one event with data, type or id of a length around every power of two from 15 to MAX (1025/16384) with arbitrary bytes at its ends, or with data of 1 to 40 lines with any of the line ends and an arbitrary byte; the system accepting writes whole or in parts of 64 or 1 bytes
//@ reach: many long lines parts
// Many and long events.
#include "large.h"
#include "net.h"
#include "http_ref.h"
#include "sse_ref.h"
#include "core/sse/sse.hpp"
#include "core/http/transport_impl.hpp"
#include "core/html/html.hpp"
#include "core/server/server_impl.hpp"
using namespace Lambda; using namespace Lambda::HTTP::Transport;
const std::string Lambda::HTML::Templates::servicePage = "x";
static str lines(const str& s) { str r; for (size_t i = 0; i < s.size(); i++) { if (sx_fork(s[i] == '\r')) { r += '\n'; if (i + 1 < s.size() && sx_fork(s[i + 1] == '\n')) i++; } else r += s[i]; } return r; }
// line breaks are told apart at once
static str pin(str s) { for (auto& c : s) if (sx_is_symbolic((uint8_t)c) && sx_fork((c == '\r') | (c == '\n'))) c = (char)sx_concretize((uint8_t)c); return s; }
void sx_main() {
	Stream* net = new Stream; sx_net = net; net->in = "GET / HTTP/1.1\r\n\r\n"; Network::ConnectionInfo info; info.hostPort = 80; WorkerContext* w = new WorkerContext{Network::TCP::Connection(5, info)}; TransportOptions opts; std::vector<Ev> want; size_t start = 0;
	static const size_t parts[] = {(size_t)-1, 64, 1}; net->maxSend = parts[sx_choice(0, 2, "accepts")]; if (net->maxSend < 100) sx_reach("parts");
	{
		TransportContextV1 ctx(w->conn, opts); if (!ctx.awaitNext()) sx_fail("request"); auto next = ctx.nextRequest(); SSE::Writer wr({*w, ctx, next}); Resp r = http_read(net->out, 0, true); sx_assert(r.ok && r.code == 200, "an event stream is opened"); if (!r.ok) return; start = r.end;
		auto push = [&](const str& data, const str* type, const str* id, int64_t retry) { SSE::EventMessage m; Ev e; m.data = data; e.data = lines(data); if (type) { m.event = e.type = *type; } if (id) { m.id = e.id = *id; e.hasId = true; } if (retry >= 0) { m.retry = retry; e.retry = retry; } wr.push(m); want.push_back(e); };
		uint32_t kind = sx_choice(0, 4, "kind"); str t = "type", id = "17";
		if (kind == 4 && net->maxSend < 100) sx_drop(); if (kind == 0) { str c = pin(sx_str(1, "byte")); for (uint32_t i = 0; i < 30; i++) { str d; for (uint32_t k = 0; k < i % 7; k++) d += (k ? "\n" : "") + str("line ") + std::to_string(i * k); if (i == 13) d += c; str n = std::to_string(i); push(d, i % 3 ? &t : nullptr, i % 4 == 1 ? &n : nullptr, i % 5 == 2 ? (int64_t)i * 1000 : -1); } sx_reach("many"); }
		else if (kind == 4) { static const char* nl[] = {"\n", "\r", "\r\n"}; static const uint32_t cnt[] = {1, 2, 3, 10, 40}; uint32_t n = cnt[sx_choice(0, 4, "lines")], e = sx_choice(0, 3, "ends"), tail = sx_choice(0, 1, "tail"); str d; for (uint32_t i = 0; i < n; i++) { d += i % 4 == 3 ? str() : i == n / 2 ? pin(sx_str(1, "byte")) : "l" + std::to_string(i); if (i + 1 < n || tail) d += nl[e == 3 ? i % 3 : e]; } push(d, &t, nullptr, -1); push("next", nullptr, nullptr, -1); sx_reach("lines"); }
		else { size_t n = sx_size(15, 15, MAX, "length"); str l = pin(sx_large(n, "byte")); if (kind != 1) for (char c : {l[0], l[n - 1]}) sx_assume((c != '\r') & (c != '\n') & (c != 0)); if (net->maxSend < 100 && n > 130) sx_drop(); push(kind == 1 ? l : "x", kind == 2 ? &l : &t, kind == 3 ? &l : nullptr, -1); push("next", nullptr, &id, 5); sx_reach("long"); }
	}
	auto got = parse(net->out.substr(start)); sx_assert(got.size() == want.size(), "exactly one event each"); if (got.size() != want.size()) return;
	for (size_t i = 0; i < got.size(); i++) { auto &g = got[i], &x = want[i]; sx_assert(sx_eq(g.type, x.type), "the same type"); sx_assert(sx_eq(g.data, x.data), "the same data"); sx_assert(g.hasId == x.hasId && sx_eq(g.id, x.id), "the same id"); sx_assert(g.retry == x.retry, "the same retry value"); }
	delete w; sx_assert(net->closes == 1, "closed once"); delete net;
}
