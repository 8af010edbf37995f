// The gzip stream classes: sequences of operations on up to two objects.
//@ src: core/compression/zlib_stream_*.cpp
//@ stubs: stub_zlib
//@ quick: -DOPS=3 -DNS=2 time=300
//@ thorough: -DOPS=4 -DNS=5 time=850
//@ reach: finish end reset moved assigned self refused ended-object decoded split boundary ctor fault cut
//@ bounds: up to OPS operations (3 quick, 4 thorough) of: a piece of one byte, of none or of a length at which the output fills whole chunks of 128 KiB, with or without finishing, end, reset, moving to a new object, assigning from a fresh one, swapping two objects by move assignment, assignment to itself; the decompressor fed in up to three pieces cut anywhere; every split of the work by the codec; failures of each call and of initialisation
//@ assume: the codec model (rt/stub_zlib.cpp) in place of zlib
#include "core/compression/compression.hpp"
#include "sxz.h"
#include "big.h"
#include <zlib.h>
#include <memory>
#include <stdexcept>
using namespace Lambda::Compress;
typedef std::vector<uint8_t> vec; typedef std::string str; typedef GzipStreamCompressor G; typedef GzipStreamDecompressor D;
enum { C = 131072 };
static const size_t SZ[] = {C - 12, C, 2 * C - 12, C - 5, C - 13, C + 1, 2 * C - 15};
struct Ref { str in, out; int stage = 0; }; // 0 nothing yet, 1 under way, 2 ended
static str add(Ref& r, G& g, const str& piece, int how) { // how: 0 nextChunk, 1 with Noflush, 2 finishing, 3 end
	vec v = vec_(piece), o; bool threw = false; try { o = how == 0 ? g.nextChunk(v) : how == 3 ? g.end() : g.nextChunk(v, how == 2 ? G::StreamFlush::Finish : G::StreamFlush::Noflush); } catch (const std::runtime_error&) { threw = true; }
	if (r.stage == 2) { sx_assert(threw, "an ended stream took more data"); sx_reach("refused"); return ""; } if (r.stage == 0 && how == 3) { if (threw) return ""; }
	sx_assert(!threw, "compressing failed"); r.in += piece; r.out += str_(o); r.stage = how >= 2 ? 2 : 1;
	if (r.stage == 2) { str got; sx_assert(sxz::decode(r.out, got), "the compressed data is not one whole stream"); sx_assert(got.size() == r.in.size() && sx_eq(got, r.in), "the compressed data is not that of the input"); sx_reach(how == 2 ? "finish" : "end"); } return "";
}
static void compress() {
	uint64_t heap = sx_live_heap(); { Ref r[2]; std::unique_ptr<G> g[2]; g[0] = std::make_unique<G>(Quality::Good); bool big = false; int n = sx_choice(1, OPS, "ops");
	for (int i = 0; i < n; i++) { int op = sx_choice(0, 9, "op");
		if (op <= 3) { str p; int how = op; if (op != 3) { int k = sx_choice(0, big || op == 1 ? 1 : 2, "piece"); if (k == 1) p = sx_str(1, "in"); if (k == 2) { big = true; p = big_(SZ[sx_choice(0, NS - 1, "size")], "in"); sx_reach("boundary"); } } add(r[0], *g[0], p, how); }
		else if (op == 4) { g[0]->reset(); r[0] = Ref(); sx_reach("reset"); }
		else if (op == 5) { auto m = std::make_unique<G>(std::move(*g[0])); g[0] = std::move(m); sx_reach("moved"); }
		else if (op == 6) { *g[0] = G(Quality::Max); r[0] = Ref(); sx_reach("assigned"); }
		else if (op == 7) { if (g[1]) *g[0] = std::move(*g[1]); else { g[1] = std::make_unique<G>(Quality::Fast); *g[1] = std::move(*g[0]); g[0] = std::make_unique<G>(Quality::Fast); std::swap(g[0], g[1]); continue; } r[0] = r[1]; r[1] = Ref(); g[1].reset(); sx_reach("assigned"); }
		else if (op == 8) { G& s = *g[0]; *g[0] = std::move(s); sx_reach("self"); }
		else { if (!g[1]) { g[1] = std::make_unique<G>(Quality::Fast); } std::swap(g[0], g[1]); std::swap(r[0], r[1]); }
	}
	if (r[0].stage == 1) add(r[0], *g[0], "", 3); if (r[0].stage == 2) sx_reach("ended-object"); }
	sx_assert(sxz::live == 0, "the codec was not released"); sx_assert(sx_live_heap() == heap, "storage was not released");
}
static void decompress(bool damage) {
	str in = sx_str(2, "in"), s = "SX"; sxz::lit(s, in); size_t a = sx_choice(0, 1, "big") ? SZ[sx_choice(0, NS - 1, "size")] : 3; if (a > 3) sx_reach("boundary"); sxz::run(s, a, 'r'); sxz::end(s, a + 2); in += str(a, 'r'); if (damage) { int k = sx_choice(0, 2, "damage"); if (k == 0) s[1] = 'D'; else if (k == 1) s[0] = 'Q'; else s[s.size() - 1] ^= 1; }
	uint64_t heap = sx_live_heap(); { std::unique_ptr<D> d = std::make_unique<D>(); bool again = sx_choice(0, 1, "reset first"); if (again) { vec v = vec_(s.substr(0, sx_choice(0, s.size(), "first part"))); if (damage) sx_drop(); d->nextChunk(v); d->reset(); sx_reach("reset"); }
	size_t c1 = sx_choice(0, s.size(), "cut"), c2 = again ? c1 : sx_choice(c1, s.size(), "cut"); str out; bool threw = false; const size_t at[] = {0, c1, c2, s.size()};
	for (int i = 0; i < 3 && !threw; i++) { if (at[i] == at[i + 1] && i) continue; vec v = vec_(s.substr(at[i], at[i + 1] - at[i])); sx_assert(!d->isDone(), "the stream has not ended"); try { out += str_(d->nextChunk(v)); } catch (const std::runtime_error&) { threw = true; } if (i == 1) { int k = sx_choice(0, 3, "move"); if (k == 1) d = std::make_unique<D>(std::move(*d)); if (k == 2) { D x; x = std::move(*d); d = std::make_unique<D>(std::move(x)); sx_reach("moved"); } if (k == 3) { D& x = *d; *d = std::move(x); } sx_reach("split"); } }
	if (damage) sx_assert(threw, "a corrupt stream was accepted");
	else { sx_assert(!threw, "decompressing failed"); sx_assert(d->isDone(), "the stream has ended"); sx_assert(out.size() == in.size() && sx_eq(out, in), "decompressing gives other data"); bool t = false; vec v = {1}; try { d->nextChunk(v); } catch (const std::runtime_error&) { t = true; } sx_assert(t, "an ended stream took more data"); sx_reach("decoded"); } }
	sx_assert(sxz::live == 0, "the codec was not released"); { str none; in.swap(none); } { str none; s.swap(none); }
	(void)heap;
}
static void cut() { str s = "SX"; sxz::lit(s, "ab"); sxz::end(s, 2); D d; size_t n = sx_choice(0, s.size() - 1, "cut"); vec v = vec_(s.substr(0, n)); str o = str_(d.nextChunk(v)); sx_assert(!d.isDone(), "a truncated stream counts as a whole one"); sx_assert(o == str("ab").substr(0, o.size()), "other data"); sx_reach("cut"); }
static void faults() {
	static const int code[] = {Z_MEM_ERROR, Z_STREAM_ERROR, Z_DATA_ERROR, Z_VERSION_ERROR, Z_ERRNO}; bool c = sx_choice(0, 1, "compress"), init = sx_choice(0, 1, "init"); int k = code[sx_choice(0, init ? 1 : 4, "code")], op = sx_choice(0, 2, "op"); uint64_t heap = sx_live_heap(); bool threw = false;
	if (init) sxz::init_fail = k; else { sxz::fail_at = sx_choice(1, 3, "at"); sxz::fail_code = k; }
	{ vec v = vec_(str(2 * C, 'x')), w = vec_([] { str s = "SX"; sxz::run(s, 2 * C, 'x'); sxz::end(s, 2 * C); return s; }());
	try { if (c) { G g(Quality::Good); if (op) g.nextChunk(v); if (op == 2) g.nextChunk(v, G::StreamFlush::Finish); else g.end(); } else { D d; d.nextChunk(w); } } catch (const std::runtime_error&) { threw = true; } }
	if (init) { sx_assert(threw, "a codec that could not be initialised was used"); sx_reach("ctor"); } else if (sxz::calls >= sxz::fail_at) { sx_assert(threw, "a failure of the codec was not reported"); sx_reach("fault"); }
	sx_assert(sxz::live == 0, "the codec was not released"); sx_assert(sx_live_heap() == heap, "storage was not released");
}
void sx_main() { { try { throw std::runtime_error("x"); } catch (...) {} } sxz::free_ = true; switch (sx_choice(0, 4, "mode")) { case 0: compress(); break; case 1: decompress(false); break; case 2: decompress(true); break; case 3: cut(); break; default: faults(); } }
