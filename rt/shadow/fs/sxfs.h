// A file system in memory. Files and directories are nodes with absolute normalised names; paths are resolved as the
// kernel does. Every change of the file system (one unit per byte written) can be the last one before the process dies.
#pragma once
#include "../../sx.h"
#include <string>
#include <vector>
#include <cerrno>
namespace sxfs {
enum Kind { FILE_ = 1, DIR_ = 2, OTHER_ = 3 };
enum Op { STAT, OPEN_R, OPEN_W, READ, WRITE, MKDIR, RENAME, REMOVE, CLOSE };
struct Node { std::string path; int kind; std::string data; };
inline std::vector<Node*> nodes; inline std::string cwd = "/w";
inline int (*fault)(int op, const std::string& resolved) = nullptr; // an error number, or 0
inline void (*seen)(int op, const std::string& resolved, Node* n) = nullptr;
inline long units = -1;  // changes that still reach the disk (-1: all of them)
inline long done = 0;    // changes made so far
inline bool dead() { return units == 0; }
inline bool spend() { done++; if (units < 0) return true; if (!units) return false; units--; return true; }
inline bool eq(const std::string& a, const std::string& b) { return a.size() == b.size() && sx_fork(__builtin_memcmp(a.data(), b.data(), a.size()) == 0); }
inline Node* find(const std::string& p) { if (p == "/") { static Node root{"/", DIR_, ""}; return &root; } for (auto* n : nodes) if (n->kind && eq(n->path, p)) return n; return nullptr; }
inline Node* add(const std::string& p, int kind, const std::string& data = "") { Node* n = new Node{p, kind, data}; nodes.push_back(n); return n; }
// error number, or 0 with the absolute name in out (the last component need not exist)
inline int resolve(const std::string& p0, std::string& out) {
	std::string p; for (char c : p0) { if (sx_fork(c == 0)) break; p.push_back(c); } if (p.empty()) return ENOENT; if (p.size() >= 4096) return ENAMETOOLONG;
	std::vector<std::string> st; bool abs = sx_fork(p[0] == '/'); auto join = [&](size_t n) { std::string r; for (size_t i = 0; i < n; i++) r += "/" + st[i]; return r.empty() ? std::string("/") : r; };
	if (!abs) { std::string c = cwd.substr(1); size_t i; while ((i = c.find('/')) != std::string::npos) { st.push_back(c.substr(0, i)); c.erase(0, i + 1); } if (!c.empty()) st.push_back(c); }
	size_t i = 0; while (i < p.size()) {
		while (i < p.size() && sx_fork(p[i] == '/')) i++; if (i >= p.size()) break; size_t e = i; while (e < p.size() && !sx_fork(p[e] == '/')) e++; std::string c = p.substr(i, e - i); bool last = true; for (size_t k = e; k < p.size(); k++) if (!sx_fork(p[k] == '/')) { last = false; break; } bool slash = e < p.size(); i = e;
		if (c.size() > 255) return ENAMETOOLONG; if (c.size() == 1 && sx_fork(c[0] == '.')) continue; if (c.size() == 2 && sx_fork((c[0] == '.') & (c[1] == '.'))) { if (!st.empty()) st.pop_back(); continue; }
		st.push_back(c); if (!last || slash) { Node* n = find(join(st.size())); if (!n) { if (!last) return ENOENT; } else if (n->kind != DIR_) return ENOTDIR; }
	}
	out = join(st.size()); return 0;
}
inline int flt(int op, const std::string& r) { return fault ? fault(op, r) : 0; }
inline Node* lookup(int op, const std::string& p, int& err, std::string* rp = nullptr) { std::string r; err = resolve(p, r); if (err) { return nullptr; } if (rp) *rp = r; Node* n = find(r); if (seen) seen(op, r, n); if ((err = flt(op, r))) return nullptr; if (!n) err = ENOENT; return n; }
inline std::string parent(const std::string& r) { size_t i = r.rfind('/'); return i == 0 || i == std::string::npos ? "/" : r.substr(0, i); }
inline int mkdir_(const std::string& p) { int e; std::string r; Node* n = lookup(MKDIR, p, e, &r); if (n) return EEXIST; if (e != ENOENT || r.empty()) return e; Node* d = find(parent(r)); if (!d) return ENOENT; if (d->kind != DIR_) return ENOTDIR; if (spend()) add(r, DIR_); return 0; }
inline int unlink_(const std::string& p) { int e; Node* n = lookup(REMOVE, p, e); if (!n) return e; if (n->kind == DIR_) { for (auto* m : nodes) if (m->kind && m->path.size() > n->path.size() && m->path[n->path.size()] == '/' && eq(m->path.substr(0, n->path.size()), n->path)) return ENOTEMPTY; } if (spend()) n->kind = 0; return 0; }
inline int rename_(const std::string& a, const std::string& b) { int e; Node* n = lookup(RENAME, a, e); if (!n) return e; std::string r; Node* m = lookup(RENAME, b, e, &r); if (!m && (e != ENOENT || r.empty())) return e; if (m == n) return 0; if (m && m->kind == DIR_ && n->kind != DIR_) return EISDIR; Node* d = find(parent(r)); if (!d) return ENOENT; if (n->kind == DIR_) { sx_fail("the file system model does not rename directories"); } if (!spend()) return 0; if (m) { m->kind = n->kind; m->data = n->data; n->kind = 0; } else { add(r, n->kind, n->data); n->kind = 0; } return 0; }
// an open file: refers to the data of the node (kept when the name goes)
struct Open { Node* n = nullptr; bool rd = false, wr = false, app = false; };
inline bool open_(Open& o, const std::string& p, bool rd, bool wr, bool app, bool trunc, bool creat) {
	int e; std::string r; Node* n = lookup(wr ? OPEN_W : OPEN_R, p, e, &r); if (!n) { if (e != ENOENT || !creat || r.empty() || sx_fork(p.back() == '/')) { errno = e; return false; } Node* d = find(parent(r)); if (!d || d->kind != DIR_) { errno = d ? ENOTDIR : ENOENT; return false; } if (spend()) n = add(r, FILE_); else n = new Node{r, FILE_, ""}; }
	else { if (n->kind == DIR_ && wr) { errno = EISDIR; return false; } if (trunc) { if (!n->data.empty()) { if (spend()) n->data.clear(); else n = new Node{r, FILE_, ""}; } } }
	o.n = n; o.rd = rd; o.wr = wr; o.app = app; return true;
}
inline int openfiles = 0;
// bytes written (fewer: error)
inline size_t write_(Open& o, size_t pos, const char* p, size_t n) { int e = flt(WRITE, o.n->path); size_t lim = e ? (n && e > 1000 ? e - 1001 : 0) : n; if (lim > n) lim = n; if (e) errno = ENOSPC; if (o.app) pos = o.n->data.size(); if (units < 0) { if (o.n->data.size() < pos + lim) o.n->data.resize(pos + lim, 0); if (lim) __builtin_memcpy(o.n->data.data() + pos, p, lim); done += lim; return lim; } for (size_t i = 0; i < lim; i++) { if (!spend()) return lim; if (o.n->data.size() < pos + i + 1) o.n->data.resize(pos + i + 1, 0); o.n->data[pos + i] = p[i]; } return lim; }
}
