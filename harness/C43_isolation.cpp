//@ src: core/server/worker.cpp core/server/errorpage.cpp core/http/*.cpp core/sse/*.cpp core/websocket/*.cpp core/network/tcp/connection.cpp core/network/*.cpp core/polyfill/*.cpp core/crypto/*.cpp core/encoding/*.cpp core/html/renderer.cpp core/json/*.cpp core/utils/*.cpp
//@ exclude: core/compression/*.cpp core/html/templatemap.cpp
//@ stubs: stub_net stub_random stub_compress threads
//@ races: 1
//@ nojoin: 1
//@ quick: -DPRE=1 -DKINDS=7 time=300 steps=200000000
//@ thorough: -DPRE=2 -DKINDS=7 time=850 steps=400000000
//@ flags: -fno-inline
//@ bounds: two connections served by two threads at the same time, each with one or two requests of any two of 7 kinds (query, cookies and credentials; JSON in and out; a handler that throws; a malformed request; a compressed response; digests, encodings, dates, media types and templates; an event stream), up to PRE (1/2) switches between the threads at any synchronisation or system call; data races are looked for at every memory access
//@ assume: the codec model (rt/stub_compress) instead of zlib and brotli
//@ reach: query json throws malformed compressed tools stream
#include "sx.h"
#include "net.h"
#include "threads.h"
#include "http_ref.h"
#include <thread>
#include "core/server/server_impl.hpp"
#include "core/http/transport_impl.hpp"
#include "core/crypto/crypto.hpp"
#include "core/encoding/encoding.hpp"
#include "core/polyfill/polyfill.hpp"
#include "core/html/html.hpp"
#include "core/json/json.hpp"
using namespace Lambda;
typedef std::string str;
const std::string Lambda::HTML::Templates::servicePage = "<p>${statuscode} ${statustext} ${message}</p>";
struct One : Stream { ssize_t recv(int f, uint8_t* b, size_t n, int fl) override { sx_yield(); SxQuiet q; return Stream::recv(f, b, n, fl); } ssize_t send(int f, const uint8_t* b, size_t n, int fl) override { sx_yield(); SxQuiet q; return Stream::send(f, b, n, fl); } };
struct Net : NetModel {
	One* s[4] = {}; One& get(int f) { sx_assert(f >= 5 && f < 9 && s[f - 5], "one of the two connections"); return *s[f - 5]; }
	ssize_t recv(int f, uint8_t* b, size_t n, int fl) override { return get(f).recv(f, b, n, fl); }
	ssize_t send(int f, const uint8_t* b, size_t n, int fl) override { return get(f).send(f, b, n, fl); }
	int shutdown(int f, int h) override { SxQuiet q; return get(f).shutdown(f, h); } int close(int f) override { SxQuiet q; return get(f).close(f); }
};
enum { QUERY, JSON_, THROWS, MALFORMED, COMPRESSED, TOOLS, STREAM };
static const char* const names[] = {"query", "json", "throws", "malformed", "compressed", "tools", "stream"};
static str request(uint32_t k, const str& x) {
	switch (k) {
	case QUERY: return "GET /q" + x + "?a=" + x + "%20" + x + " HTTP/1.1\r\nCookie: c=" + x + "; d=e\r\nAuthorization: Basic dTpw\r\n\r\n";
	case JSON_: { str b = "{\"k\":[1,\"" + x + "\",null]}"; return "POST /j HTTP/1.1\r\nContent-Length: " + std::to_string(b.size()) + "\r\n\r\n" + b; }
	case THROWS: return "GET /t" + x + " HTTP/1.1\r\n\r\n";
	case MALFORMED: return "GET /m" + x + " HTTP/1.1\r\nbad\r\n\r\n";
	case COMPRESSED: return "GET /z" + x + " HTTP/1.1\r\nAccept-Encoding: gzip, br\r\n\r\n";
	case TOOLS: return "GET /d" + x + " HTTP/1.1\r\n\r\n";
	default: return "GET /e" + x + " HTTP/1.1\r\n\r\n";
	}
}
static HandlerResponse handle(const HTTP::Request& r, const RequestContext& c) {
	const str& p = r.url.pathname; str x = p.substr(2);
	switch (p[1]) {
	case 'q': { auto cr = HTTP::Auth::parseBasicAuth(r.headers.get("authorization")); HTTP::Response o(201, {}, r.url.searchParams.get("a") + "|" + r.getCookies().get("c") + "|" + (cr ? cr->user : "?")); HTTP::Cookies k; k.set("s", x); o.setCookies(k); return o; }
	case 'j': { auto v = JSON::parse(r.body.text()); return JSON::stringify(v); }
	case 't': throw std::runtime_error("oops" + x);
	case 'z': return HTTP::Response(200, {{"content-type", "text/html"}}, str(40, x[0]));
	case 'd': { auto d = Crypto::SHA1().update(x).digest(); return Encoding::toHex(d) + Encoding::toBase64(d) + Encoding::encodeURIComponent("a b" + x) + Date().toUTCString() + Content::getExtMimetype("a.html") + HTML::renderTemplate("${v}", {{"v", x}}); }
	default: { auto w = c.startEventStream(); SSE::EventMessage m; m.data = x; w.push(m); w.close(); return HandlerResponse(str()); }
	}
}
static str blank(str s) { for (size_t p = 0; (p = s.find("x-request-id: ", p)) != str::npos;) { p += 14; while (p < s.size() && s[p] != '\r') s[p++] = '*'; } return s; }
static const HTTP::Transport::TransportOptions topts;
void sx_main() {
	sx_preemptions = 0; Net* net = new Net; sx_net = net; ServeOptions opts; opts.loglevel.requests = true; opts.errorResponseType = sx_choice(0, 1, "page") ? ErrorResponseType::JSON : ErrorResponseType::HTML; opts.transport.useCompression = true; uint32_t kind[2][2], n[2]; str in[2];
	for (int t = 0; t < 2; t++) { n[t] = t == 0 ? 1 : sx_choice(1, 2, "requests"); for (uint32_t i = 0; i < n[t]; i++) { kind[t][i] = sx_choice(0, KINDS - 1, "kind"); if (i + 1 < n[t] && (kind[t][i] == MALFORMED || kind[t][i] == STREAM)) sx_drop(); in[t] += request(kind[t][i], str(1, (char)('a' + 2 * t + i))); sx_reach(names[kind[t][i]]); } } if (n[1] == 1 && kind[0][0] > kind[1][0]) sx_drop(); if (n[1] == 2 && kind[1][0] != kind[0][0] && kind[1][1] != kind[0][0]) sx_drop();
	WorkerContext* w[4]; RequestCallback cb = handle; for (int i = 0; i < 4; i++) { Network::ConnectionInfo info; info.hostPort = 80; net->s[i] = new One; net->s[i]->fd = 5 + i; net->s[i]->end = 0; net->s[i]->in = in[i & 1]; w[i] = new WorkerContext{Network::TCP::Connection(5 + i, info)}; }
	sx_preemptions = PRE; { std::thread a([&] { Server::connectionWorker(*w[0], opts, cb); }), b([&] { Server::connectionWorker(*w[1], opts, cb); }); a.join(); b.join(); } sx_preemptions = 0;
	for (int t = 0; t < 2; t++) Server::connectionWorker(*w[2 + t], opts, cb); // each once more, alone
	for (int i = 0; i < 4; i++) delete w[i]; SxQuiet q;
	for (int t = 0; t < 2; t++) { str a = blank(net->s[t]->out), b = blank(net->s[2 + t]->out); sx_assert(net->s[t]->closes == 1, "closed once"); sx_assert(!b.empty() && a == b, "served as if it were alone"); } str id[4]; for (int i = 0; i < 4; i++) { const str& o = net->s[i]->out; size_t at = o.find("x-request-id: "); if (at == str::npos) sx_fail("an id"); id[i] = o.substr(at, o.find('\r', at) - at); for (int k = 0; k < i; k++) sx_assert(id[i] != id[k], "ids tell requests apart"); }
	for (auto* s : net->s) delete s; delete net;
}
