#pragma once
#include "sx.h"
typedef std::string str;
struct KV;
struct V { char t; int32_t i = 0; str s; std::vector<V> a; std::vector<KV> m; V(); V(const V&); ~V(); V& operator=(const V&); };
struct KV { str first; V second; };
V::V() {} V::V(const V&) = default; V::~V() {} V& V::operator=(const V&) = default;
// strict JSON (RFC 8259) reader, independent of the code under test
struct R { const str& s; size_t p = 0; bool ok = true; R(const str& x) : s(x) {}
	void ws() { while (p < s.size() && sx_fork((s[p] == ' ') | (s[p] == '\t') | (s[p] == '\n') | (s[p] == '\r'))) p++; }
	bool eat(char c) { if (p < s.size() && sx_fork(s[p] == c)) { p++; return true; } return false; }
	static int hex(uint8_t c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
	str string() { str r; if (!eat('"')) { ok = false; return r; } for (;;) { if (p >= s.size()) { ok = false; return r; } uint8_t c = s[p++]; if (sx_fork(c == '"')) return r; if (sx_fork(c < 0x20)) { ok = false; return r; } if (!sx_fork(c == '\\')) { r += (char)c; continue; }
		if (p >= s.size()) { ok = false; return r; } uint8_t e = sx_concretize((uint8_t)s[p++]); const char* f = "\"\\/bfnrt"; const char* t = "\"\\/\b\f\n\r\t"; const char* q = e ? __builtin_strchr(f, e) : nullptr; if (q) { r += t[q - f]; continue; } if (e != 'u' || p + 4 > s.size()) { ok = false; return r; } int u = 0; for (int k = 0; k < 4; k++) { int h = hex(sx_concretize((uint8_t)s[p++])); if (h < 0) { ok = false; return r; } u = u * 16 + h; } if (u < 0x80) r += (char)u; else if (u < 0x800) { r += (char)(0xc0 | u >> 6); r += (char)(0x80 | (u & 63)); } else { r += (char)(0xe0 | u >> 12); r += (char)(0x80 | (u >> 6 & 63)); r += (char)(0x80 | (u & 63)); } } }
	bool word(const char* w) { for (; *w; w++) if (!eat(*w)) { ok = false; return false; } return true; }
	V value() { ws(); V v; v.t = '?'; if (p >= s.size()) { ok = false; return v; } if (sx_fork(s[p] == '"')) { v.t = 's'; v.s = string(); return v; }
		if (eat('[')) { v.t = 'a'; ws(); if (eat(']')) return v; for (;;) { v.a.push_back(value()); if (!ok) return v; ws(); if (eat(']')) return v; if (!eat(',')) { ok = false; return v; } } }
		if (eat('{')) { v.t = 'm'; ws(); if (eat('}')) return v; for (;;) { ws(); str k = string(); ws(); if (!ok || !eat(':')) { ok = false; return v; } v.m.push_back({k, value()}); if (!ok) return v; ws(); if (eat('}')) return v; if (!eat(',')) { ok = false; return v; } } }
		if (sx_fork(s[p] == 'n')) { word("null"); v.t = 'n'; return v; } if (sx_fork(s[p] == 't')) { word("true"); v.t = 'b'; v.i = 1; return v; } if (sx_fork(s[p] == 'f')) { word("false"); v.t = 'b'; return v; }
		v.t = 'i'; bool neg = eat('-'); int64_t x = 0; size_t st = p; while (p < s.size() && sx_fork(sx_in(s[p], '0', '9'))) { x = x * 10 + (s[p] - '0'); p++; if (p - st > 10) { ok = false; return v; } } if (p == st || (p - st > 1 && sx_fork(s[st] == '0'))) ok = false; v.i = neg ? -x : x; return v; } };
