// The codec model's controls and its format: "SX" (gzip), "SZ" (zlib) or "SR" (raw), blocks of a 24-bit length (top bit: a run of one byte) and data, an
// empty block, the total length in four bytes. "SD" asks for a dictionary.
#pragma once
#include "sx.h"
#include <string>
namespace sxz {
extern bool free_;               // the solver splits the work over the calls
extern int live, calls;          // streams initialised and not released; calls so far
extern int fail_at, fail_code;   // the call of this number (from 1) fails with this code
extern uint32_t maxlen;          // longer blocks are refused as corrupt (0: no limit)
extern int init_fail;            // initialisation fails with this code
inline void num(std::string& s, uint32_t v, int n) { while (n--) s.push_back((char)(v >> (8 * n))); }
inline void lit(std::string& s, const std::string& d) { num(s, d.size(), 3); s += d; }
inline void run(std::string& s, uint32_t n, char c) { num(s, n | 0x800000, 3); s.push_back(c); }
inline void end(std::string& s, uint32_t total) { num(s, 0, 3); num(s, total, 4); }
// decodes a whole stream; false if it is not exactly one sound stream
inline bool decode(const std::string& s, std::string& out, char kind = 'X') { size_t p = 2; if (s.size() < 2 || s[0] != 'S' || s[1] != kind) return false; auto get = [&](int n) { uint32_t v = 0; while (n--) v = v << 8 | (unsigned char)s[p++]; return v; };
	for (;;) { if (s.size() - p < 3) return false; uint32_t n = get(3); if (!n) break; if (n & 0x800000) { if (p >= s.size()) return false; out.append(n & 0x7fffff, s[p++]); } else { if (s.size() - p < n) return false; out.append(s, p, n); p += n; } }
	return s.size() - p == 4 && get(4) == out.size(); }
}
