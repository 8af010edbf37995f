// Reference reader for websocket frames sent by the server (RFC 6455 section 5), and a writer for client frames.
#pragma once
#include "sx.h"
struct Frame { bool ok = false, fin = false; int op = 0; std::string data; size_t end = 0; };
static Frame ws_read(const std::string& s, size_t p) { // shortest length form, no mask, no reserved bits
	Frame f; if (s.size() - p < 2) return f; uint8_t a = s[p], b = s[p + 1]; if ((a & 0x70) || (b & 0x80)) return f; f.fin = a & 0x80; f.op = a & 15; uint64_t n = b & 0x7f; p += 2;
	if (n == 126) { if (s.size() - p < 2) return f; n = (uint8_t)s[p] << 8 | (uint8_t)s[p + 1]; p += 2; if (n < 126) return f; } else if (n == 127) { if (s.size() - p < 8) return f; n = 0; for (int i = 0; i < 8; i++) n = n << 8 | (uint8_t)s[p++]; if (n < 65536) return f; }
	if (s.size() - p < n) return f; f.data = s.substr(p, n); f.end = p + n; f.ok = true; return f;
}
static std::string ws_frame(bool fin, int op, const std::string& d, const std::string& mask) {
	std::string r(1, (char)((fin ? 0x80 : 0) | op)); size_t n = d.size(); uint8_t m = mask.empty() ? 0 : 0x80;
	if (n < 126) r += (char)(m | n); else if (n < 65536) { r += (char)(m | 126); r += (char)(n >> 8); r += (char)n; } else { r += (char)(m | 127); for (int i = 7; i >= 0; i--) r += (char)((uint64_t)n >> (8 * i)); }
	r += mask; for (size_t i = 0; i < n; i++) r += mask.empty() ? d[i] : (char)(d[i] ^ mask[i % 4]); return r;
}
