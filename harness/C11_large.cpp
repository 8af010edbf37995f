//@ src: core/http/auth.cpp core/polyfill/strings.cpp core/encoding/*.cpp
//@ quick: -DMAX=129 time=150
//@ thorough: -DMAX=4097 time=800
//@ merge: std::set<char.*>::contains
//@ flags: -fno-inline
//@ bounds: users and passwords of 4 to 10 characters and of the lengths around every power of two up to MAX (129/4097) with arbitrary bytes at their ends and colons in the password; one character of the encoded text arbitrary
//@ reach: creds none
// Long credentials.
#include "large.h"
#include "core/http/http.hpp"
using namespace Lambda::HTTP;
typedef std::string str;
static char b64(uint8_t v) { v &= 63; char r = '/'; r = v == 62 ? '+' : r; r = v < 62 ? '0' + v - 52 : r; r = v < 52 ? 'a' + v - 26 : r; r = v < 26 ? 'A' + v : r; return r; }
static str enc(const str& s) { str r; for (size_t i = 0; i < s.size(); i += 3) { uint32_t v = (uint8_t)s[i] << 16; if (i + 1 < s.size()) v |= (uint8_t)s[i + 1] << 8; if (i + 2 < s.size()) v |= (uint8_t)s[i + 2]; r += b64(v >> 18); r += b64(v >> 12); r += i + 1 < s.size() ? b64(v >> 6) : '='; r += i + 2 < s.size() ? b64(v) : '='; } return r; }
static bool alpha64(uint8_t c) { return sx_in(c, 'a', 'z') | sx_in(c, 'A', 'Z') | sx_in(c, '0', '9') | (c == '+') | (c == '/') | (c == '='); }
void sx_main() {
	size_t n = sx_size(4, 10, MAX, "userlen"), l = sx_size(4, 10, MAX, "passlen"); if (n > 20 && l > 20 && n != l) sx_drop(); bool bad = sx_choice(0, 1, "changed"); str u = bad ? sx_large(n, "user", {}) : sx_large(n, "user"), p = bad ? sx_large(l, "pass", {}) : sx_large(l, "pass"); for (char c : str{u[0], u[n - 1]}) sx_assume(c != ':'); if (sx_choice(0, 1, "colons")) p[l / 2] = p[1] = ':';
	str e = enc(u + ":" + p); size_t at = 0; uint8_t c = 0; if (bad) { at = sx_choice(0, 1, "at") ? e.size() / 2 : 0; c = sx_byte("char"); sx_assume(c != '=' && c != ' ' && c != '\t' && c != '\r' && c != '\n'); e[at] = c; }
	bool threw = false, some = false; str gu, gp; try { auto r = Auth::parseBasicAuth("Basic " + e); some = r.has_value(); if (r) { gu = r->user; gp = r->password; } } catch (...) { threw = true; } sx_assert(!threw, "no error is raised");
	if (bad) { if (!sx_fork(alpha64(c))) { sx_assert(!some, "text that is not base64 yields no credentials"); sx_reach("none"); } return; } sx_assert(some, "valid credentials found"); sx_obs(gu + ":" + gp, "credentials"); sx_assert(sx_eq(gu, u) && sx_eq(gp, p), "user and password"); sx_reach("creds");
}
