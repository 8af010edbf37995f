//@ src: core/http/*.cpp core/network/tcp/connection.cpp core/network/*.cpp core/polyfill/*.cpp core/crypto/uid.cpp core/encoding/*.cpp
//@ exclude: core/compression/*.cpp
//@ stubs: stub_net stub_random stub_compress
//@ quick: -DN=5 -DH=5 -DL=3 time=250
//@ thorough: -DN=7 -DH=7 -DL=4 time=850
//@ merge: std::set<char.*>::contains
//@ flags: -fno-inline
//@ bounds: every first line up to N bytes (5/7), alone and behind 'GET ', with and without the header end; every header block up to H bytes (5/7); every content-length text up to L bytes (3/4; of the numbers those up to 12) before up to 3 body bytes; 10 content lengths up to more than 64 bits with every configured maximum within 3 of the header size, the request size, 4, 2^31, 2^32, 2^63 and 2^64; two content-length headers; transfer encodings
//@ reach: delivered refused toolarge eof badlen headers limit
#include "sx.h"
#include "net.h"
#include "core/http/transport.hpp"
#include "core/http/transport_impl.hpp"
using namespace Lambda; using namespace Lambda::HTTP::Transport;
typedef std::string str;
static bool white(uint8_t c) { return (c == ' ') | (c == '\t') | (c == '\r') | (c == '\n'); }
static uint8_t up(uint8_t c) { return sx_in(c, 'a', 'z') ? c - 32 : c; }
struct Res { int kind = 0; int status = 0; HTTP::Request rq; }; // 0 nothing, 1 delivered, 2 refused with a status, 3 error
static Stream net;
static Res feed(const str& in, const TransportOptions& opts, int end) {
	net.in = in; net.end = end; sx_net = &net; Network::ConnectionInfo info; info.hostPort = 80; Network::TCP::Connection conn(5, info); TransportContextV1 ctx(conn, opts); Res r;
	try { if (ctx.awaitNext()) { r.rq = ctx.nextRequest().request; r.kind = 1; } }
	catch (const ProtocolError& e) { r.kind = e.respondStatus.has_value() ? 2 : 3; if (r.kind == 2) { r.status = e.respondStatus.value().code(); HTTP::Response page(e.respondStatus.value()); Crypto::ShortID id(1); ctx.respond({page, id}); } }
	catch (const std::exception& e) { r.kind = 3; }
	sx_obs((uint64_t)r.kind, "result"); sx_obs((uint64_t)r.status, "status"); sx_reach(r.kind == 1 ? "delivered" : "refused"); return r;
}
static bool known(const str& s, size_t a, size_t b) { while (a < b && sx_fork(white(s[a]))) a++; while (b > a && sx_fork(white(s[b - 1]))) b--; bool r = false; for (const char* n : {"GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "TRACE", "PATCH", "CONNECT"}) { size_t l = __builtin_strlen(n); if (l != b - a) continue; bool e = true; for (size_t i = 0; i < l; i++) e = e & (up(s[a + i]) == (uint8_t)n[i]); r = r | e; } return r; }
static str trim(const str& s) { size_t a = 0, b = s.size(); while (a < b && sx_fork(white(s[a]))) a++; while (b > a && sx_fork(white(s[b - 1]))) b--; return s.substr(a, b - a); }
void sx_main() {
	TransportOptions opts; uint32_t mode = sx_choice(0, 5, "mode");
	if (mode == 0) {
		str line = (sx_choice(0, 1, "known") ? "GET " : "") + sx_text(0, N, "line"); bool cr = false; for (char c : line) cr = cr | (c == '\r') | (c == '\n'); sx_assume(!cr); uint32_t t = sx_choice(0, 2, "tail");
		Res r = feed(line + (t == 0 ? "" : t == 1 ? "\r\n" : "\r\n\r\n"), opts, sx_choice(0, 2, "end")); if (t < 2) { sx_assert(r.kind != 1, "unfinished request is not delivered"); sx_reach("eof"); return; }
		size_t sp = 0; while (sp < line.size() && sx_fork(line[sp] != ' ')) sp++; bool ok = sx_fork(known(line, 0, sp)) && sp < line.size(); size_t e = sp + 1; while (e < line.size() && sx_fork(line[e] != ' ')) e++; ok = ok && e > sp + 1;
		if (!ok) sx_assert(r.kind != 1, "unknown method or missing target is not delivered");
	} else if (mode == 1) {
		str h = sx_text(0, H, "headers"); str in = "GET / HTTP/1.1\r\n" + h + "\r\n\r\n"; size_t at = 0; for (size_t i = 14; i + 4 <= in.size(); i++) if (sx_fork((in[i] == '\r') & (in[i + 1] == '\n') & (in[i + 2] == '\r') & (in[i + 3] == '\n'))) { at = i; break; }
		str block = at > 16 ? in.substr(16, at - 16) : ""; bool bad = false, special = false; std::vector<std::pair<str, str>> hs; size_t p = 0;
		while (p < block.size()) { size_t e = p; while (e < block.size() && !(e + 1 < block.size() && sx_fork((block[e] == '\r') & (block[e + 1] == '\n')))) e++; str l = block.substr(p, e - p); p = e + 2; size_t c = 0; while (c < l.size() && sx_fork(l[c] != ':')) c++; if (c == l.size()) { bad = true; continue; } str k = trim(l.substr(0, c)), v = trim(l.substr(c + 1)); if (k.empty()) { bad = true; continue; } hs.push_back({k, v}); }
		Res r = feed(in, opts, 0); sx_reach("headers"); if (bad) sx_assert(r.kind == 2 && r.status == 400, "a header line without ':' or a name is refused with 400"); else { sx_assert(r.kind == 1, "well-formed headers are accepted"); if (r.kind == 1) for (auto& x : hs) if (x.second.size()) { bool f = false; for (auto& v : r.rq.headers.getAll(x.first)) f = f | sx_eq(v, x.second); sx_assert(f, "header value"); } }
	} else if (mode == 2) {
		str cl = sx_text(0, L, "length"); for (char c : cl) sx_assume((c != '\r') & (c != '\n')); str t = trim(cl); bool digits = true; for (char c : t) digits = digits & sx_in(c, '0', '9'); digits = sx_fork(digits); uint64_t v = 0; if (digits) for (char c : t) v = v * 10 + (c - '0'); if (digits) { sx_assume(v <= 12); v = sx_concretize(v); } // larger numbers: next mode
		uint32_t have = sx_choice(0, 3, "have"); str body = sx_str(have, "body"); Res r = feed("POST / HTTP/1.1\r\nContent-Length: " + cl + "\r\n\r\n" + body, opts, sx_choice(0, 2, "end"));
		if (!digits) { sx_assert(r.kind != 1, "a length that is not a decimal number is not delivered"); sx_reach("badlen"); } else if (v > have) sx_assert(r.kind != 1, "truncated body is not delivered"); else { sx_assert(r.kind == 1, "complete request is delivered"); if (r.kind == 1) { auto& b = r.rq.body.buffer(); sx_assert(b.size() == v && (!v || __builtin_memcmp(b.data(), body.data(), b.size()) == 0), "exact body"); } }
	} else if (mode == 3) {
		static const char* len[] = {"0", "1", "3", "10", "100", "4294967295", "4294967296", "9223372036854775807", "18446744073709551615", "99999999999999999999999"}; static const uint64_t val[] = {0, 1, 3, 10, 100, 4294967295ull, 4294967296ull, 9223372036854775807ull, 18446744073709551615ull, ~0ull}; uint32_t k = sx_choice(0, 9, "len");
		str head = str("PUT / HTTP/1.1\r\nContent-Length: ") + len[k] + "\r\n\r\n"; unsigned __int128 total = (unsigned __int128)head.size() + val[k] + (k == 9 ? ~0ull : 0); static const uint64_t near[] = {4, 1ull << 31, 1ull << 32, 1ull << 63, ~0ull - 3}; uint32_t nk = sx_choice(0, 6, "near"); opts.maxRequestSize = (nk == 5 ? head.size() : nk == 6 ? (uint64_t)total : near[nk]) + sx_choice(0, 6, "off") - 3; bool over = total > opts.maxRequestSize; str body(val[k] <= 100 ? val[k] : 5, 'b'); if (val[k] > 100 && !over) sx_drop(); // a body that large is not sent here
		Res r = feed(head + body + "GET /next HTTP/1.1\r\n\r\n", opts, 0); sx_reach("limit"); if (over) { sx_assert(r.kind == 2 && r.status == 413, "over the maximum: 413"); sx_reach("toolarge"); } else { sx_assert(r.kind == 1, "within the maximum: delivered"); if (r.kind == 1) sx_assert(r.rq.body.size() == val[k], "body size"); }
	} else if (mode == 4) {
		str a = sx_text(1, 2, "a"), b = sx_text(1, 2, "b"); for (char c : a + b) sx_assume(sx_in(c, '0', '9')); Res r = feed("POST / HTTP/1.1\r\nContent-Length: " + a + "\r\nContent-Length: " + b + "\r\n\r\n" + str(99, 'x'), opts, 0); uint64_t x = 0, y = 0; for (char c : a) x = x * 10 + (c - '0'); for (char c : b) y = y * 10 + (c - '0'); if (sx_fork(x != y)) sx_assert(r.kind != 1, "conflicting lengths are not delivered");
	} else {
		static const char* te[] = {"chunked", "gzip, chunked", "Chunked"}; Res r = feed(str("POST / HTTP/1.1\r\nTransfer-Encoding: ") + te[sx_choice(0, 2, "te")] + "\r\n\r\n3\r\nabc\r\n0\r\n\r\n", opts, 0); sx_assert(r.kind != 1, "a body that cannot be read is not delivered without it"); // header longer than the maximum, never ending
		opts.maxRequestSize = sx_choice(0, 40, "max"); net = Stream(); Res q = feed("GET / HTTP/1.1\r\nx: " + str(60, 'y'), opts, 1); sx_assert(q.kind == 2 && q.status == 413, "endless header: 413");
	}
}
