// Harness interface. Symbolic build: provided by the engine. Native build: native.cpp replays recorded inputs.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>
extern "C" {
void sx_sym(void* p, size_t n, const char* name);
void sx_assume(int c);
void sx_assert_(int c, const char* msg);
[[noreturn]] void sx_fail(const char* msg);
[[noreturn]] void sx_abort(const char* kind, const char* msg);
[[noreturn]] void sx_exit();
[[noreturn]] void sx_drop();
void sx_observe(const void* p, size_t n, const char* label);
void sx_reach(const char* label);
uint64_t sx_concretize(uint64_t v);
int sx_is_symbolic(uint64_t v);
void sx_step_limit(uint64_t n);
void sx_print(const char* s, uint64_t v);
void sx_print_mem(const char* s, const void* p, uint64_t n);
uint64_t sx_live_heap();
void sx_main();
}
#define sx_assert(c, msg) sx_assert_((c) ? 1 : 0, msg)
inline uint32_t sx_choice(uint32_t lo, uint32_t hi, const char* name) { uint32_t v; sx_sym(&v, 4, name); sx_assume((v >= lo) & (v <= hi)); while (hi - lo > 15) { uint32_t m = lo + (hi - lo) / 2; if (sx_concretize(v <= m)) hi = m; else lo = m + 1; } return (uint32_t)sx_concretize(v); }
inline uint8_t sx_byte(const char* name) { uint8_t v; sx_sym(&v, 1, name); return v; }
inline uint32_t sx_u32(const char* name) { uint32_t v; sx_sym(&v, 4, name); return v; }
inline uint64_t sx_u64(const char* name) { uint64_t v; sx_sym(&v, 8, name); return v; }
inline std::string sx_str(size_t n, const char* name) { std::string s(n, 'x'); sx_sym(s.data(), n, name); return s; }
inline std::vector<uint8_t> sx_vec(size_t n, const char* name) { std::vector<uint8_t> s(n); sx_sym(s.data(), n, name); return s; }
// string of any length lo..hi
inline std::string sx_text(size_t lo, size_t hi, const char* name) { std::string ln = std::string(name) + "_len"; size_t n = lo == hi ? lo : sx_choice(lo, hi, ln.c_str()); return sx_str(n, name); }
inline void sx_obs(const std::string& s, const char* l) { sx_observe(s.data(), s.size(), l); }
inline void sx_obs(const std::vector<uint8_t>& s, const char* l) { sx_observe(s.data(), s.size(), l); }
inline void sx_obs(uint64_t v, const char* l) { sx_observe(&v, 8, l); }
// equality without branching on the content
inline bool sx_eq(const std::string& a, const std::string& b) { return a.size() == b.size() && __builtin_memcmp(a.data(), b.data(), a.size()) == 0; }
// character in a..b / one of a set, without branching
inline bool sx_in(uint8_t c, uint8_t lo, uint8_t hi) { return (c >= lo) & (c <= hi); }
inline bool sx_fork(bool b) { return sx_concretize(b) != 0; } // decide now, one path each
inline bool sx_oneof(uint8_t c, const char* set) { bool r = false; for (; *set; set++) r = r | (c == (uint8_t)*set); return r; }
