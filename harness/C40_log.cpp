//@ src: core/utils/syncout.cpp
//@ stubs: threads
//@ races: 1
//@ nojoin: 1
//@ quick: -DN=2 -DPRE=3 time=200
//@ thorough: -DN=4 -DPRE=5 time=850
//@ bounds: one message of up to three entries, each a text of up to N bytes (2/4) of any value, a null or empty C string, a boolean, a character, any 8-bit or 16-bit number or an extreme value of the wider types; two threads of two messages each to the two streams, switched up to PRE (3/5) times at any lock or write
//@ assume: one call of fwrite, fputs or fputc is not interleaved with others to the same stream (POSIX)
//@ reach: empty skipped joined number threads
#include "sx.h"
#include "threads.h"
#include <cstdio>
#include <climits>
#include <thread>
#include "core/utils/utils.hpp"
using namespace Lambda; using namespace Lambda::SyncOut;
typedef std::string str;
static str outs[2]; static bool on; static str* of(FILE* f) { return on ? f == stdout ? &outs[0] : f == stderr ? &outs[1] : nullptr : nullptr; }
static size_t put(const void* p, size_t n, FILE* f) { sx_yield(); SxQuiet q; if (str* s = of(f)) s->append((const char*)p, n); return n; }
extern "C" {
size_t fwrite(const void* p, size_t m, size_t n, FILE* f) { put(p, m * n, f); return n; }
int fputs(const char* s, FILE* f) { put(s, __builtin_strlen(s), f); return 1; }
int puts(const char* s) { str l = str(s) + "\n"; put(l.data(), l.size(), stdout); return 1; }
#undef putc
int fputc(int c, FILE* f) { char b = c; put(&b, 1, f); return c; } int putc(int c, FILE* f) { return fputc(c, f); }
}
struct Entry { MgsOverload m; str want; };
static Entry entry(int kinds) {
	switch (sx_choice(0, kinds, "kind")) {
	case 0: { str s = sx_text(0, N, "text"); return {MgsOverload(s), s}; }
	case 1: return {MgsOverload((const char*)nullptr), ""};
	case 2: { str s = sx_text(0, 1, "cstr"); for (char c : s) sx_assume(c != 0); return {MgsOverload(s.c_str()), s}; }
	case 3: { bool b = sx_choice(0, 1, "bool"); return {MgsOverload(b), b ? "true" : "false"}; }
	case 4: { char c = (char)sx_byte("char"); return {MgsOverload(c), str(1, c)}; }
	case 5: { uint8_t v = sx_byte("u8"); str w; if (sx_fork(v >= 100)) w += (char)('0' + v / 100); if (sx_fork(v >= 10)) w += (char)('0' + v / 10 % 10); return {MgsOverload((unsigned char)v), w + (char)('0' + v % 10)}; }
	case 6: { uint32_t u = sx_u32("u16"); sx_assume(u < 65536); uint16_t v = u; bool sign = sx_choice(0, 1, "signed"), neg = sign && sx_fork((int16_t)v < 0); uint32_t a = neg ? 65536 - v : v; str w = neg ? "-" : "", d; uint32_t k = sx_fork(a >= 1000) ? sx_fork(a >= 10000) ? 5 : 4 : sx_fork(a >= 100) ? 3 : sx_fork(a >= 10) ? 2 : 1, p = 1; for (uint32_t i = 1; i < k; i++) p *= 10; for (; p; p /= 10) d += (char)('0' + a / p % 10); return {sign ? MgsOverload((short)v) : MgsOverload((unsigned short)v), w + d}; }
	case 7: switch (sx_choice(0, 7, "extreme")) { case 0: return {MgsOverload(INT_MIN), "-2147483648"}; case 1: return {MgsOverload(UINT_MAX), "4294967295"}; case 2: return {MgsOverload(LONG_MIN), "-9223372036854775808"}; case 3: return {MgsOverload(ULONG_MAX), "18446744073709551615"}; case 4: return {MgsOverload(LLONG_MAX), "9223372036854775807"}; case 5: return {MgsOverload(ULLONG_MAX), "18446744073709551615"}; case 6: return {MgsOverload(INT_MAX), "2147483647"}; default: return {MgsOverload(0), "0"}; }
	}
	return {MgsOverload(), ""};
}
static void write(WrapperImpl& w, bool err, const std::vector<Entry>& e) {
	switch (e.size()) { case 0: err ? w.error(std::initializer_list<MgsOverload>{}) : w.log(std::initializer_list<MgsOverload>{}); break; case 1: err ? w.error({e[0].m}) : w.log({e[0].m}); break; case 2: err ? w.error({e[0].m, e[1].m}) : w.log({e[0].m, e[1].m}); break; default: err ? w.error({e[0].m, e[1].m, e[2].m}) : w.log({e[0].m, e[1].m, e[2].m}); }
}
void sx_main() {
#ifdef SX_SYMBOLIC
	static char a_, b_; stdout = (FILE*)&a_; stderr = (FILE*)&b_;
#endif
	WrapperImpl w; on = true; sx_preemptions = 0;
	if (sx_choice(0, 1, "mode") == 0) {
		bool err = sx_choice(0, 1, "error"), one = sx_choice(0, 1, "single"); uint32_t n = one ? 1 : sx_choice(0, 3, "entries"); std::vector<Entry> e; for (uint32_t i = 0; i < n; i++) e.push_back(entry(n <= 1 ? 8 : i == 0 ? 5 : 2)); str want; bool any = false;
		for (auto& x : e) { if (x.want.empty()) { sx_reach("skipped"); continue; } if (any) { want += ' '; sx_reach("joined"); } want += x.want; any = true; if (n == 1) sx_reach("number"); } if (any) want += '\n'; else sx_reach("empty");
		if (one) { if (err) w.error(e[0].m); else w.log(e[0].m); } else write(w, err, e); sx_obs(outs[err], "line");
		sx_assert(outs[err].size() == want.size() && sx_eq(outs[err], want), "the entries joined by blanks and a line end"); sx_assert(outs[!err].empty(), "to the chosen stream only");
	} else {
		sx_preemptions = PRE; uint32_t err[2][2], two[2][2]; for (int t = 0; t < 2; t++) for (int i = 0; i < 2; i++) { err[t][i] = sx_choice(0, 1, "error"); two[t][i] = sx_choice(0, 1, "list"); }
		auto run = [&](int t) { for (int i = 0; i < 2; i++) { str s(1, 'a' + 2 * t + i); if (two[t][i]) { if (err[t][i]) w.error({s, s}); else w.log({s, s}); } else if (err[t][i]) w.error(s); else w.log(s); } };
		std::thread a([&] { run(0); }); run(1); a.join(); SxQuiet q; sx_preemptions = 0; sx_reach("threads");
		for (int k = 0; k < 2; k++) { size_t at = 0; int seen[4] = {}, last[2] = {-1, -1}; str& o = outs[k]; while (at < o.size()) { int id = o[at] - 'a'; sx_assert(id >= 0 && id < 4 && !seen[id], "each message once"); if (id < 0 || id > 3) return; seen[id] = 1; int t = id / 2, i = id % 2; sx_assert((int)err[t][i] == k && i > last[t], "in its thread's order, to its stream"); last[t] = i; str line = two[t][i] ? str(1, 'a' + id) + ' ' + (char)('a' + id) + '\n' : str(1, 'a' + id) + '\n'; sx_assert(o.compare(at, line.size(), line) == 0, "each message is one whole line"); at += line.size(); } for (int id = 0; id < 4; id++) sx_assert(seen[id] == ((int)err[id / 2][id % 2] == k), "every message is written"); }
	}
	on = false;
}
