//@ src: core/websocket/*.cpp core/http/*.cpp core/network/tcp/connection.cpp core/network/*.cpp core/polyfill/*.cpp core/crypto/*.cpp core/encoding/*.cpp core/utils/*.cpp core/server/worker.cpp core/server/errorpage.cpp core/html/renderer.cpp core/json/*.cpp core/sse/*.cpp
//@ exclude: core/compression/*.cpp core/html/templatemap.cpp
//@ stubs: stub_net stub_random stub_compress threads
//@ quick: -DKEYS=4 -DLONG=0 time=250
//@ thorough: -DKEYS=12 -DLONG=1 time=850
//@ merge: std::set<char.*>::contains
//@ flags: -fno-inline
//@ bounds: one request with any of the nine methods; upgrade header absent, 'websocket' with every letter in either case, one byte of it replaced, removed or added before or after it, or a text of 1 to 3 bytes; key absent or of 1 to KEYS (4/12) or exactly 24 printable bytes (all values; plus fixed keys of every length 1 to 40 and the RFC's example); header names in either case; no, 1 or 5 further bytes received along with the request; a client that accepts compressed content or not; connection header absent, upgrade or close
//@ reach: accepted method upgrade key extra
#include "sx.h"
#include "net.h"
#include "threads.h"
#include "http_ref.h"
#include "core/websocket/websocket.hpp"
#include "core/server/server_impl.hpp"
#include "core/http/transport_impl.hpp"
#include "core/html/html.hpp"
#include "core/encoding/encoding.hpp"
using namespace Lambda; using namespace Lambda::HTTP::Transport;
typedef std::string str;
const std::string Lambda::HTML::Templates::servicePage = "x";
static uint32_t rol(uint32_t x, int n) { return x << n | x >> (32 - n); }
static std::vector<uint8_t> ref(std::vector<uint8_t> m) { // FIPS 180-4
	uint64_t bits = m.size() * 8; m.push_back(0x80); while (m.size() % 64 != 56) m.push_back(0); for (int i = 7; i >= 0; i--) m.push_back(bits >> (8 * i));
	uint32_t h[5] = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0};
	for (size_t b = 0; b < m.size(); b += 64) {
		uint32_t w[80]; for (int t = 0; t < 16; t++) w[t] = ((uint32_t)m[b + 4 * t] << 24) + ((uint32_t)m[b + 4 * t + 1] << 16) + ((uint32_t)m[b + 4 * t + 2] << 8) + m[b + 4 * t + 3];
		for (int t = 16; t < 80; t++) w[t] = rol(w[t - 3] ^ w[t - 8] ^ w[t - 14] ^ w[t - 16], 1);
		uint32_t a = h[0], B = h[1], c = h[2], d = h[3], e = h[4];
		for (int t = 0; t < 80; t++) { uint32_t f, k; if (t < 20) { f = (B & c) ^ (~B & d); k = 0x5a827999; } else if (t < 40) { f = B ^ c ^ d; k = 0x6ed9eba1; } else if (t < 60) { f = (B & c) ^ (B & d) ^ (c & d); k = 0x8f1bbcdc; } else { f = B ^ c ^ d; k = 0xca62c1d6; } uint32_t T = rol(a, 5) + f + e + k + w[t]; e = d; d = c; c = rol(B, 30); B = a; a = T; }
		h[0] += a; h[1] += B; h[2] += c; h[3] += d; h[4] += e;
	}
	std::vector<uint8_t> r; for (int i = 0; i < 5; i++) for (int j = 3; j >= 0; j--) r.push_back(h[i] >> (8 * j)); return r;
}
static const char* tab = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static str ref64(const std::vector<uint8_t>& d) { str r; for (size_t i = 0; i < d.size(); i += 3) { uint32_t v = d[i] << 16 | (i + 1 < d.size() ? d[i + 1] << 8 : 0) | (i + 2 < d.size() ? d[i + 2] : 0); r += tab[v >> 18 & 63]; r += tab[v >> 12 & 63]; r += i + 1 < d.size() ? tab[v >> 6 & 63] : '='; r += i + 2 < d.size() ? tab[v & 63] : '='; } return r; }
static str anycase(str s, const char* nm) { uint32_t m = sx_u32(nm); for (size_t i = 0; i < s.size(); i++) if (s[i] >= 'a' && s[i] <= 'z') s[i] -= ((m >> i) & 1) * 32; return s; }
static str printable(size_t n, const char* nm) { str s = sx_str(n, nm); for (char c : s) sx_assume(sx_in(c, 0x21, 0x7e)); return s; }
static const char* methods[] = {"GET", "POST", "HEAD", "PUT", "DELETE", "CONNECT", "OPTIONS", "TRACE", "PATCH"};
void sx_main() {
	sx_preemptions = 0; struct Net : Stream { ssize_t recv(int f, uint8_t* b, size_t n, int fl) override { bool dry = pos >= in.size(); ssize_t r = Stream::recv(f, b, n, fl); if (dry && end == 1) { int e = errno; sx_sleep(100000000ull); errno = e; } return r; } }; Net* net = new Net; sx_net = net; net->end = 1;
	uint32_t m = sx_choice(0, 8, "method"), u = sx_choice(0, 5, "upgrade_kind"), kk = sx_choice(0, LONG ? 2 : 1, "key_kind"), extra = sx_choice(0, 2, "extra"), other = (m != 0) + (u != 1) + (extra != 0); if (other > 1) sx_drop(); bool plain = m == 0 && u == 1 && extra == 0;
	str up = "websocket"; bool isws = u == 1;
	if (u == 1) up = anycase(up, "case"); else if (u == 2) { size_t at = sx_choice(0, 8, "at"); up[at] = sx_byte("changed"); sx_assume(sx_in(up[at], 0x21, 0x7e)); isws = sx_fork(http_lc(up[at]) == (uint8_t)"websocket"[at]); } else if (u == 3) up.erase(sx_choice(0, 8, "at"), 1); else if (u == 4) { str x = printable(1, "added"); uint32_t at = sx_choice(0, 2, "at"); up = at == 0 ? x + up : at == 1 ? up + x : up + ", " + x; } else if (u == 5) { size_t n = sx_choice(1, 3, "n"); up = printable(n, "other"); }
	str key = kk == 0 ? "" : kk == 2 ? printable(24, "key") : printable(plain ? sx_choice(1, KEYS, "key_len") : 1, "key"); if (kk == 2 && !plain) sx_drop();
	bool fixed = plain && kk && sx_choice(0, 1, "fixed_key"); if (fixed) { key = "dGhlIHNhbXBsZSBub25jZQ=="; size_t n = sx_choice(0, 40, "fixed_len"); if (n) { key.clear(); for (size_t i = 0; i < n; i++) key += tab[(i * 7 + n * 5) % 64]; } }
	// fixed keys are checked against the reference hash; for symbolic keys the repository's SHA-1 and base64 (decided by C04 and C01) stand in
	bool gz = plain && sx_choice(0, 1, "accepts_compressed"); uint32_t conn = plain && !gz ? sx_choice(0, 2, "connection") : 0;
	net->in = str(methods[m]) + " /chat HTTP/1.1\r\nHost: a\r\n" + (gz ? "Accept-Encoding: gzip, br\r\n" : "") + (conn == 1 ? "Connection: Upgrade\r\n" : conn == 2 ? "Connection: keep-alive, Upgrade\r\n" : "") + (u ? (plain ? anycase("upgrade", "hcase") : str("Upgrade")) + ": " + up + "\r\n" : str()) + (kk ? "sec-websocket-key: " + key + "\r\n" : str()) + "\r\n";
	if (extra) net->in += extra == 1 ? str(1, '\x81') : str("\x81\x80\0\0\0", 5);
	Network::ConnectionInfo info; info.hostPort = 80; WorkerContext* w = new WorkerContext{Network::TCP::Connection(5, info)}; TransportOptions opts; bool ok = m == 0 && isws && key.size() && !extra;
	{
		TransportContextV1 ctx(w->conn, opts); sx_assert(ctx.awaitNext(), "the request is delivered"); auto next = ctx.nextRequest(); int status = 0; size_t upto = 0;
		try { Websocket::WebsocketContext ws({*w, ctx, next}); sx_assert(ok, "only valid requests are upgraded"); upto = net->out.size(); } catch (const Server::Connection::UpgradeError& e) { status = e.status().code(); } catch (const std::exception&) { sx_fail("refused with an upgrade error"); }
		if (!ok) { sx_assert(status == (m ? 405 : 400), "refused with 405 for the method and 400 otherwise"); sx_assert(net->out.empty() && w->conn.isOpen(), "nothing was sent"); sx_assert(ctx.flags.autocompress && ctx.flags.forceContentLength, "not switched"); sx_reach(m ? "method" : extra ? "extra" : !key.size() ? "key" : "upgrade"); }
		else {
			sx_assert(status == 0, "valid requests are upgraded"); str o = net->out.substr(0, upto), lo = o; size_t p = 0; static const str name = "sec-websocket-accept: "; bool found = false;
			for (p = 0; p + name.size() + 30 <= o.size() && !found; p++) { bool eq = true; for (size_t i = 0; i < name.size() && eq; i++) eq = http_lc(o[p + i]) == name[i]; found = eq; } sx_assert(found, "the answer has an accept value"); if (!found) return; p += name.size() - 1;
			str accept = o.substr(p, 28), full = key + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11", want; if (fixed) want = ref64(ref(std::vector<uint8_t>(full.begin(), full.end()))); else want = Encoding::toBase64(Crypto::SHA1().update(full).digest()); sx_assert(sx_eq(accept, want), "the RFC 6455 accept value of the key"); sx_obs(accept, "accept"); for (int i = 0; i < 28; i++) o[p + i] = 'A';
			Resp r = http_read(o, 0, true); sx_assert(r.ok && r.code == 101, "101 without a body"); str v = r.get("upgrade"), c = r.get("connection"); for (auto& x : v) x = http_lc(x); for (auto& x : c) x = http_lc(x); sx_assert(v == "websocket" && c == "upgrade" && r.count("sec-websocket-accept") == 1 && r.get("sec-websocket-accept").size() == 28 && !r.count("content-encoding"), "the handshake headers"); sx_assert(r.end == o.size(), "nothing follows the answer"); sx_reach("accepted");
		}
	}
	delete w; sx_assert(net->closes == 1, "closed once"); delete net;
}
