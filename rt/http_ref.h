// Reference reader for responses on the wire.
#pragma once
#include "sx.h"
#include <utility>
struct Resp { bool ok = false; int code = 0; std::string text, body; std::vector<std::pair<std::string, std::string>> h; size_t end = 0;
	int count(const char* k) const { int n = 0; for (auto& x : h) n += x.first == k; return n; }
	std::string get(const char* k) const { for (auto& x : h) if (x.first == k) return x.second; return ""; }
	std::vector<std::string> all(const std::string& k) const { std::vector<std::string> r; for (auto& x : h) if (x.first == k) r.push_back(x.second); return r; }
};
static uint8_t http_lc(uint8_t c) { return c + ((c >= 'A') & (c <= 'Z')) * 32; }
// line ended by CRLF from p; the bytes of the line may be symbolic, CR and LF decide
static bool http_line(const std::string& s, size_t& p, std::string& l) { for (size_t i = p; i + 1 < s.size(); i++) if (sx_fork((s[i] == '\r') & (s[i + 1] == '\n'))) { l = s.substr(p, i - p); p = i + 2; return true; } return false; }
// nobody: the response has no content-length (event streams, upgrades)
static Resp http_read(const std::string& s, size_t p, bool nobody = false) {
	Resp r; std::string l; if (!http_line(s, p, l)) return r;
	if (l.size() < 13 || l.compare(0, 9, "HTTP/1.1 ") || l[12] != ' ') return r; for (int i = 9; i < 12; i++) { if (l[i] < '0' || l[i] > '9') return r; r.code = r.code * 10 + (l[i] - '0'); } r.text = l.substr(13);
	for (;;) { if (!http_line(s, p, l)) return r; if (l.empty()) break; size_t c = 0; while (c < l.size() && sx_fork(l[c] != ':')) c++; if (c == l.size() || c == 0) return r; std::string k = l.substr(0, c); for (auto& x : k) { if (sx_oneof(x, " \t")) return r; x = http_lc(x); } size_t a = c + 1; while (a < l.size() && sx_fork((l[a] == ' ') | (l[a] == '\t'))) a++; r.h.push_back({k, l.substr(a)}); }
	size_t n = 0; bool have = false; for (auto& x : r.h) if (x.first == "content-length") { if (have || x.second.empty()) return r; have = true; for (char c : x.second) { if (c < '0' || c > '9') return r; n = n * 10 + (c - '0'); } }
	if (have == nobody) return r; if (have) { if (s.size() - p < n) return r; r.body = s.substr(p, n); p += n; } r.end = p; r.ok = true; return r;
}
