// Reference reader for event streams.
#pragma once
#include "sx.h"
typedef std::string str;
struct Ev { str type, data, id; bool hasId = false; int64_t retry = -1; };
// the event-stream rules of the HTML standard, on bytes
static std::vector<Ev> parse(const str& s) {
	std::vector<Ev> r; str type, data; bool any = false; str id; bool hasId = false; int64_t retry = -1; size_t p = 0;
	while (p < s.size()) {
		str l; bool ended = false; while (p < s.size()) { char c = s[p++]; if (sx_fork(c == '\n')) { ended = true; break; } if (sx_fork(c == '\r')) { if (p < s.size() && sx_fork(s[p] == '\n')) p++; ended = true; break; } l += c; } if (!ended) break;
		if (l.empty()) { if (any) r.push_back({type, data.substr(0, data.size() - 1), id, hasId, retry}); type = data = id = ""; any = hasId = false; retry = -1; continue; }
		size_t c = 0; while (c < l.size() && sx_fork(l[c] != ':')) c++; str k = l.substr(0, c), v; if (c < l.size()) { v = l.substr(c + 1); if (v.size() && sx_fork(v[0] == ' ')) v.erase(0, 1); }
		if (k == "event") type = v; else if (k == "data") { data += v + "\n"; any = true; } else if (k == "id") { bool nul = false; for (char x : v) if (sx_fork(x == 0)) nul = true; if (!nul) { id = v; hasId = true; } } else if (k == "retry") { bool dig = v.size(); int64_t n = 0; for (char x : v) { if (sx_fork((x < '0') | (x > '9'))) dig = false; n = n * 10 + (x - '0'); } if (dig) retry = n; }
	}
	return r;
}
