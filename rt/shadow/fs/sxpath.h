// std::filesystem::path as on POSIX (compared with the real one by selftest/paths.sh)
#pragma once
#include <string>
#include <string_view>
#include <vector>
#include <system_error>
#include <cstdio>
namespace std { namespace filesystem {
class path {
	string s; static bool sl(char c) { return sx_fork(c == '/'); }
public:
	typedef char value_type; typedef string string_type; enum format { native_format, generic_format, auto_format }; static constexpr char preferred_separator = '/';
	path() {} path(const string& x) : s(x) {} path(string&& x) : s(std::move(x)) {} path(const char* x) : s(x) {} path(string_view x) : s(x) {} template<class I> path(I a, I b) : s(a, b) {}
	path(const path&) = default; path(path&&) = default; path& operator=(const path&) = default; path& operator=(path&&) = default; path& operator=(const string& x) { s = x; return *this; } path& operator=(const char* x) { s = x; return *this; }
	path& assign(const string& x) { s = x; return *this; } const string& native() const noexcept { return s; } const char* c_str() const noexcept { return s.c_str(); } operator string() const { return s; } string string_() const { return s; } std::string string() const { return s; } std::string generic_string() const { return s; } std::string u8string_() const { return s; }
	bool empty() const noexcept { return s.empty(); } void clear() noexcept { s.clear(); } path& make_preferred() { return *this; } void swap(path& o) noexcept { s.swap(o.s); }
	size_t fn() const { size_t i = s.size(); while (i > 0 && !sl(s[i - 1])) i--; return i; } // start of the filename
	path filename() const { return s.substr(fn()); } bool has_filename() const { return fn() < s.size(); }
	size_t dot() const { size_t f = fn(), n = s.size() - f; if (n == 0 || (n == 1 && s[f] == '.') || (n == 2 && s[f] == '.' && s[f + 1] == '.')) return std::string::npos; for (size_t i = s.size(); i > f + 1; i--) if (sx_fork(s[i - 1] == '.')) return i - 1; return std::string::npos; }
	path extension() const { size_t d = dot(); return d == std::string::npos ? path() : path(s.substr(d)); } bool has_extension() const { return dot() != std::string::npos; }
	path stem() const { size_t f = fn(), d = dot(); return d == std::string::npos ? s.substr(f) : s.substr(f, d - f); } bool has_stem() const { return !stem().empty(); }
	path& remove_filename() { s.erase(fn()); return *this; } path& replace_filename(const path& p) { remove_filename(); return *this /= p; } path& replace_extension(const path& p = path()) { size_t d = dot(); if (d != std::string::npos) s.erase(d); if (!p.s.empty()) { if (p.s[0] != '.') s.push_back('.'); s += p.s; } return *this; }
	path root_name() const { return path(); } path root_directory() const { return has_root_directory() ? path("/") : path(); } path root_path() const { return root_directory(); } bool has_root_directory() const { return !s.empty() && sl(s[0]); } bool has_root_path() const { return has_root_directory(); } bool is_absolute() const { return has_root_directory(); } bool is_relative() const { return !is_absolute(); }
	path relative_path() const { size_t i = 0; while (i < s.size() && sl(s[i])) i++; return s.substr(i); } bool has_relative_path() const { return !relative_path().empty(); }
	path parent_path() const { if (!has_relative_path()) return *this; size_t i = fn(); while (i > 0 && sl(s[i - 1])) i--; return i == 0 && has_root_directory() ? path("/") : path(s.substr(0, i)); } bool has_parent_path() const { return !parent_path().empty(); }
	path& operator/=(const path& p) { if (p.is_absolute()) { s = p.s; return *this; } if (has_filename()) s.push_back('/'); s += p.s; return *this; } friend path operator/(const path& a, const path& b) { path r(a); r /= b; return r; } path& operator+=(const path& p) { s += p.s; return *this; } path& operator+=(const std::string& p) { s += p; return *this; } path& operator+=(const char* p) { s += p; return *this; } path& operator+=(char c) { s += c; return *this; } path& append(const std::string& p) { return *this /= path(p); } path& concat(const std::string& p) { s += p; return *this; }
	vector<path> parts() const { vector<path> r; size_t i = 0; if (has_root_directory()) { r.push_back("/"); while (i < s.size() && sl(s[i])) i++; } while (i < s.size()) { size_t e = i; while (e < s.size() && !sl(s[e])) e++; r.push_back(s.substr(i, e - i)); i = e; bool any = false; while (i < s.size() && sl(s[i])) { i++; any = true; } if (any && i == s.size()) r.push_back(""); } return r; }
	class iterator { vector<path> v; size_t i = 0; friend class path; public: typedef path value_type; typedef const path& reference; typedef const path* pointer; typedef ptrdiff_t difference_type; typedef bidirectional_iterator_tag iterator_category; const path& operator*() const { return v[i]; } const path* operator->() const { return &v[i]; } iterator& operator++() { i++; return *this; } iterator operator++(int) { iterator t(*this); i++; return t; } iterator& operator--() { i--; return *this; } iterator operator--(int) { iterator t(*this); i--; return t; } bool operator==(const iterator& o) const { return i == o.i; } bool operator!=(const iterator& o) const { return i != o.i; } };
	typedef iterator const_iterator; iterator begin() const { iterator r; r.v = parts(); return r; } iterator end() const { iterator r; r.v = parts(); r.i = r.v.size(); return r; }
	int compare(const path& o) const noexcept { bool a = has_root_directory(), b = o.has_root_directory(); if (a != b) return a ? 1 : -1; auto x = parts(), y = o.parts(); for (size_t i = a; i < x.size() && i < y.size(); i++) if (int c = x[i].s.compare(y[i].s)) return c; return x.size() < y.size() ? -1 : x.size() > y.size(); } friend bool operator==(const path& a, const path& b) { return a.compare(b) == 0; } friend bool operator!=(const path& a, const path& b) { return a.compare(b) != 0; } friend bool operator<(const path& a, const path& b) { return a.compare(b) < 0; }
	path lexically_normal() const { if (s.empty()) return path(); bool abs = has_root_directory(); vector<std::string> st; bool slash = false; for (auto& c : parts()) { const std::string& x = c.s; if (x.size() == 1 && sl(x[0])) continue; if (x.empty()) { slash = true; continue; } if (x == ".") { slash = true; continue; } if (x == "..") { if (!st.empty() && st.back() != "..") { st.pop_back(); slash = true; continue; } if (abs) { slash = true; continue; } st.push_back(".."); slash = false; continue; } st.push_back(x); slash = false; } std::string r = abs ? "/" : ""; for (size_t i = 0; i < st.size(); i++) { if (i) r += "/"; r += st[i]; } if (slash && !st.empty() && st.back() != "..") r += "/"; return r.empty() ? "." : r; }
	path lexically_relative(const path& base) const { if (has_root_directory() != base.has_root_directory()) return path(); auto a = parts(), b = base.parts(); size_t i = 0; while (i < a.size() && i < b.size() && a[i].s == b[i].s) i++; if (i == a.size() && i == b.size()) return "."; long n = 0; for (size_t k = i; k < b.size(); k++) { if (b[k].s == "..") n--; else if (!b[k].s.empty() && b[k].s != ".") n++; } if (n < 0) return path(); if (n == 0 && (i == a.size() || a[i].s.empty())) return "."; path r; while (n--) r /= ".."; for (; i < a.size(); i++) r /= a[i]; return r; }
	path lexically_proximate(const path& b) const { path r = lexically_relative(b); return r.empty() ? *this : r; }
};
inline size_t hash_value(const path& p) { return p.native().size(); } inline void swap(path& a, path& b) noexcept { a.swap(b); } inline path u8path(const std::string& s) { return path(s); }
} }
