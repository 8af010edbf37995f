// The storage's contents and file format, written independently of the implementation.
#pragma once
#include "sx.h"
#include <utility>
typedef std::string str; typedef std::vector<std::pair<str, str>> Map;
static bool same_(const str& a, const str& b) { return a.size() == b.size() && sx_fork(__builtin_memcmp(a.data(), b.data(), a.size()) == 0); }
static long at_(const Map& m, const str& k) { for (size_t i = 0; i < m.size(); i++) if (same_(m[i].first, k)) return (long)i; return -1; }
static void set_(Map& m, const str& k, const str& v) { long i = at_(m, k); if (i < 0) m.push_back({k, v}); else m[i].second = v; }
static void del_(Map& m, const str& k) { long i = at_(m, k); if (i >= 0) m.erase(m.begin() + i); }
template<class S> bool holds_(S& s, const Map& m) { bool ok = s.size() == m.size(); for (auto& e : m) ok = ok && s.hasItem(e.first) && sx_fork(sx_eq(s.getItem(e.first), e.second)); return ok; }
static void rec_(str& f, unsigned t, const str& k, const str& v) { f.push_back(t & 255); f.push_back(t >> 8); f.push_back(k.size() & 255); f.push_back(k.size() >> 8); for (int i = 0; i < 4; i++) f.push_back((v.size() >> (8 * i)) & 255); f += k; f += v; }
// parses a whole file; false if it is not a sound database
static bool parse_(const str& f, Map& m) {
	static const char hd[] = {'m', 'l', 'k', 'v', 'd', 'b', 3, 0}; if (f.size() < 8) return false; for (int i = 0; i < 8; i++) if (!sx_fork(f[i] == hd[i])) return false; size_t p = 8; auto b = [&](size_t i) { return (uint64_t)(uint8_t)f[i]; };
	while (p < f.size()) {
		if (f.size() - p < 8) return false; uint64_t t = b(p) | b(p + 1) << 8, kl = b(p + 2) | b(p + 3) << 8, vl = b(p + 4) | b(p + 5) << 8 | b(p + 6) << 16 | b(p + 7) << 24; p += 8; if (!sx_fork(t <= 2)) return false; if (!sx_fork(kl + vl <= f.size() - p)) return false; kl = sx_concretize(kl); vl = sx_concretize(vl); t = sx_concretize(t);
		str k = f.substr(p, kl), v = f.substr(p + kl, vl); if (t == 0) set_(m, k, v); else if (t == 1) { if (vl) return false; del_(m, k); } else { if (kl || vl) return false; m.clear(); } p += kl + vl;
	}
	return true;
}
