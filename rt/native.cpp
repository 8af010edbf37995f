// Native backend: replays a recorded assignment ("name hex" lines) against the real code.
#include "sx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <unistd.h>
static std::map<std::string, unsigned>& vars() { static std::map<std::string, unsigned> v; return v; }
static std::map<std::string, int>& cnt() { static std::map<std::string, int> c; return c; }
static FILE* out = stdout;
// storage in use by the code under test: bytes allocated less those the functions below allocated for themselves
extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));
static size_t cur() { return __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0; }
static size_t own;
struct Own { size_t b = cur(); ~Own() { own += cur() - b; } };
extern "C" {
void sx_sym(void* p, size_t n, const char* name) { Own guard; std::string nm = name; int k = cnt()[nm]++; if (k) nm += "#" + std::to_string(k); for (size_t i = 0; i < n; i++) { auto it = vars().find(nm + "." + std::to_string(i)); ((unsigned char*)p)[i] = it == vars().end() ? 0 : it->second; } }
void sx_assume(int c) { if (!c) { fprintf(out, "SX-ASSUME-FAILED\n"); fflush(out); _exit(77); } }
void sx_assert_(int c, const char* m) { if (!c) { fprintf(out, "SX-ASSERT %s\n", m); fflush(out); _exit(70); } }
void sx_fail(const char* m) { sx_assert_(0, m); abort(); }
void sx_abort(const char* k, const char* m) { fprintf(out, "SX-ABORT %s %s\n", k, m); fflush(out); _exit(71); }
void sx_exit() { fprintf(out, "SX-END\n"); fflush(out); _exit(0); }
void sx_drop() { fprintf(out, "SX-DROP\n"); fflush(out); _exit(77); }
void sx_observe(const void* p, size_t n, const char* l) { Own guard; fprintf(out, "OBS %s ", l); for (size_t i = 0; i < n; i++) fprintf(out, "%02x", ((const unsigned char*)p)[i]); fprintf(out, "\n"); }
void sx_reach(const char*) {}
uint64_t sx_concretize(uint64_t v) { return v; }
int sx_is_symbolic(uint64_t) { return 0; }
void sx_step_limit(uint64_t) {}
void sx_print(const char* s, uint64_t v) { fprintf(stderr, "[print] %s %llu\n", s, (unsigned long long)v); }
void sx_print_mem(const char* s, const void* p, uint64_t n) { fprintf(stderr, "[mem] %s %.*s\n", s, (int)n, (const char*)p); }
uint64_t sx_live_heap() { return cur() - own; }
void sx_inconclusive(const char* m) { fprintf(out, "SX-INCONCLUSIVE %s\n", m); fflush(out); _exit(78); }
}
namespace std { size_t _Hash_bytes(const void*, size_t len, size_t) { return 7 * len + 1; } }
int main(int argc, char** argv) {
	if (argc > 1) { FILE* f = fopen(argv[1], "r"); char* ln = nullptr; size_t cap = 0; ssize_t k; while (f && (k = getline(&ln, &cap, f)) >= 0) { std::string l(ln, k); while (!l.empty() && (l.back() == '\n' || l.back() == '\r')) l.pop_back(); size_t sp = l.rfind(' '); if (sp == std::string::npos || l[0] == '#') continue; vars()[l.substr(0, sp)] = strtoul(l.c_str() + sp + 1, nullptr, 16); } if (f) fclose(f); free(ln); }
	alarm(argc > 2 ? atoi(argv[2]) : 20); sx_main(); sx_exit();
}
