//@ src: core/http/auth.cpp core/polyfill/strings.cpp core/encoding/*.cpp
//@ quick: -DN=9 -DU=3 -DP=4 time=200
//@ thorough: -DN=11 -DU=5 -DP=7 time=850
//@ merge: std::set<char.*>::contains
//@ flags: -fno-inline
//@ bounds: every user up to U bytes (3/5) without colon and password up to P bytes (4/7) of any value, scheme name in every letter case; every header text up to N bytes (9/11) and every text up to N-5 bytes after the scheme name
//@ reach: creds colon empty none other
#include "sx.h"
#include "core/http/http.hpp"
#include <stdexcept>
using namespace Lambda::HTTP;
typedef std::string str;
static char b64(uint8_t v) { v &= 63; char r = '/'; r = v == 62 ? '+' : r; r = v < 62 ? '0' + v - 52 : r; r = v < 52 ? 'a' + v - 26 : r; r = v < 26 ? 'A' + v : r; return r; }
static str enc(const str& s) { str r; for (size_t i = 0; i < s.size(); i += 3) { uint32_t v = (uint8_t)s[i] << 16; if (i + 1 < s.size()) v |= (uint8_t)s[i + 1] << 8; if (i + 2 < s.size()) v |= (uint8_t)s[i + 2]; r += b64(v >> 18); r += b64(v >> 12); r += i + 1 < s.size() ? b64(v >> 6) : '='; r += i + 2 < s.size() ? b64(v) : '='; } return r; }
static bool alpha64(uint8_t c) { return sx_in(c, 'a', 'z') | sx_in(c, 'A', 'Z') | sx_in(c, '0', '9') | (c == '+') | (c == '/'); }
static uint8_t val64(uint8_t c) { uint8_t r = 63; r = c == '+' ? 62 : r; r = sx_in(c, '0', '9') ? c - '0' + 52 : r; r = sx_in(c, 'a', 'z') ? c - 'a' + 26 : r; r = sx_in(c, 'A', 'Z') ? c - 'A' : r; return r; }
static str scheme(const char* n) { str s = n; uint32_t m = sx_choice(0, 3, "case"); for (size_t i = 0; i < s.size(); i++) if (m == 1 || (m == 0 && i == 0) || (m == 3 && (i & 1))) s[i] = s[i] - 32; return s; }
static uint8_t low(uint8_t c) { return sx_in(c, 'A', 'Z') ? c + 32 : c; }
void sx_main() {
	uint32_t mode = sx_choice(0, 2, "mode");
	if (mode == 0) {
		str u = sx_text(0, U, "user"), p = sx_text(0, P, "pass"); for (char c : u) sx_assume(c != ':'); str h = scheme("basic") + " " + enc(u + ":" + p); bool threw = false, some = false; str gu, gp; try { auto r = Auth::parseBasicAuth(h); some = r.has_value(); if (r) { gu = r->user; gp = r->password; } } catch (...) { threw = true; }
		sx_assert(!threw, "valid credentials do not raise an error"); sx_assert(some, "valid credentials found"); sx_obs(gu, "user"); sx_obs(gp, "pass"); sx_assert(sx_eq(gu, u), "user up to the first colon"); sx_assert(sx_eq(gp, p), "password after the first colon"); sx_reach("creds"); if (p.empty()) sx_reach("empty"); for (char c : p) if (sx_fork(c == ':')) { sx_reach("colon"); break; } return;
	}
	str h = mode == 1 ? sx_text(0, N, "h") : scheme("basic") + " " + sx_text(0, N - 5, "t"); bool threw = false, some = false; str gu, gp; try { auto r = Auth::parseBasicAuth(h); some = r.has_value(); if (r) { gu = r->user; gp = r->password; } } catch (...) { threw = true; }
	sx_obs((uint64_t)threw * 2 + some, "result"); sx_assert(!threw, "no value makes the parser fail"); bool is = h.size() >= 6; for (size_t i = 0; is && i < 6; i++) is = sx_fork(low(h[i]) == (uint8_t)"basic "[i]);
	if (!is) { if (h.size() && sx_fork((h[0] == ' ') | (h[0] == '\t'))) return; sx_assert(!some, "another scheme yields no credentials"); sx_reach("other"); return; }
	str t = h.substr(6); size_t n = t.size(); for (char c : t) if (sx_fork((c == ' ') | (c == '\t') | (c == '\r') | (c == '\n'))) return; size_t pad = 0; while (n && sx_fork(t[n - 1] == '=')) { n--; pad++; } bool ok = true; for (size_t i = 0; i < n; i++) { if (sx_fork(t[i] == '=')) return; ok = ok & alpha64(t[i]); }
	ok = sx_fork(ok); if (!ok) { sx_assert(!some, "text that is not base64 yields no credentials"); sx_reach("none"); return; } if (n % 4 == 1 || (pad && (n + pad) % 4) || pad > 2) return;
	str d; uint32_t acc = 0; int bits = 0; for (size_t i = 0; i < n; i++) { acc = acc << 6 | val64(t[i]); bits += 6; if (bits >= 8) { bits -= 8; d += (char)(acc >> bits); } } size_t k = 0; while (k < d.size() && !sx_fork(d[k] == ':')) k++;
	if (k == d.size()) { sx_assert(!some, "no colon yields no credentials"); return; } sx_assert(some, "credentials found"); sx_assert(sx_eq(gu, d.substr(0, k)), "user"); sx_assert(sx_eq(gp, d.substr(k + 1)), "password");
}
