// The one-shot brotli functions over every split of the codec's work.
//@ src: core/compression/brotli.cpp
//@ stubs: stub_brotli
//@ quick: -DNS=16 -DMF=4 time=300
//@ thorough: -DNS=26 -DMF=8 time=850
//@ reach: small one-chunk boundary two-chunks empty cut trailing damaged fault init quality runs
//@ bounds: inputs of 0 to 4 bytes and of the lengths around the multiples of 128 KiB at which the input, or the output with the codec's overhead, fills whole chunks (up to 4 chunks quick, 5 thorough), the bytes at the ends and the first boundary arbitrary; every split of the work by the codec; streams cut at each length, with data behind them, with a damaged byte, the codec failing at each of its first calls (4 quick, 8 thorough) or not created
//@ assume: the codec model (rt/stub_brotli.cpp) in place of brotli: a simple format, brotli's calling contract
#include "core/compression/compression.hpp"
#include "sxz.h"
#include "big.h"
#include <stdexcept>
using namespace Lambda::Compress;
typedef std::vector<uint8_t> vec; typedef std::string str;
enum { C = 131072 };
static const size_t SZ[] = {C - 12, C, 2 * C, 3 * C, 4 * C, C + 1, C - 13, C - 11, C - 1, 2 * C - 15, 2 * C + 1, C - 5, C - 4, 2 * C - 16, 2 * C - 14, 2 * C - 1, 3 * C + 1, 3 * C - 18, 3 * C - 17, 4 * C - 21, 4 * C + 1, 5 * C, C + C / 2, C / 2, C - 6, 2 * C - 8};
static bool throws(vec& r, const vec& in, bool comp) { try { r = comp ? brotliCompressBuffer(in, Quality::Good) : brotliDecompressBuffer(in); return false; } catch (const std::runtime_error&) { return true; } catch (...) { sx_fail("something else than a runtime error was thrown"); } return true; }
static str sample() { str d = sx_str(3, "data"), s = "SX"; sxz::lit(s, d); sxz::run(s, 5, 'r'); sxz::end(s, 8); return s; }
void sx_main() {
	{ try { throw std::runtime_error("x"); } catch (...) {} } int mode = sx_choice(0, 8, "mode"); sxz::free_ = true; sxz::maxlen = 1 << 20;
	if (mode == 0 || mode == 1) { // there and back
		size_t n; if (mode == 0) { n = sx_choice(1, 4, "len"); sx_reach("small"); } else { n = SZ[sx_choice(0, NS - 1, "size")]; if (n == C || n == 2 * C) sx_reach("boundary"); if (n < C) sx_reach("one-chunk"); if (n > C) sx_reach("two-chunks"); }
		str in = mode == 0 ? sx_str(n, "in") : big_(n, "in"), got; vec v = vec_(in), z; int q = mode == 0 ? sx_choice(0, 9, "quality") : 6; uint64_t heap = sx_live_heap();
		{ bool threw = false; try { z = brotliCompressBuffer(v, (Quality)q); } catch (const std::exception&) { threw = true; } sx_assert(!threw, "compressing failed"); } sx_assert(sxz::live == 0, "the compressor was not released"); sx_assert(sxz::decode(str_(z), got), "the compressed data is not one whole stream"); sx_assert(got.size() == n && sx_eq(got, in), "the compressed data is not that of the input");
		{ vec r; sx_assert(!throws(r, z, false), "decompressing failed"); sx_assert(r.size() == n && sx_eq(str_(r), in), "decompressing gives other data"); } sx_assert(sxz::live == 0, "the decompressor was not released"); { vec none; z.swap(none); } { str none; got.swap(none); } sx_assert(sx_live_heap() == heap, "storage was not released"); return;
	}
	vec r; uint64_t heap = sx_live_heap();
	if (mode == 2) { // output of many chunks from little input
		size_t a = SZ[sx_choice(0, NS - 1, "size")] + 12, b = sx_choice(0, 2, "more"); str s = "SX"; sxz::run(s, a, 'x'); if (b) sxz::lit(s, str(b, 'y')); sxz::end(s, a + b); sx_assert(!throws(r, vec_(s), false), "decompressing failed"); sx_assert(r.size() == a + b && sx_eq(str_(r), str(a, 'x') + str(b, 'y')), "decompressing gives other data"); sx_reach("runs");
	} else if (mode == 3) { bool c = sx_choice(0, 1, "compress"); sx_assert(!throws(r, {}, c) && r.empty(), "no data gives no data"); sx_assert(sxz::calls == 0, "nothing to do"); sx_reach("empty"); }
	else if (mode == 4) { str s = sample(); size_t n = sx_choice(1, s.size() - 1, "cut"); sx_assert(throws(r, vec_(s.substr(0, n)), false), "a truncated stream was accepted"); sx_reach("cut"); }
	else if (mode == 5) { str s = sample(); if (sx_choice(0, 1, "big")) { s += str(C - s.size() - 1 + sx_choice(0, 2, "fill"), 'g'); } s += sx_str(sx_choice(1, 2, "n"), "more"); sx_assert(throws(r, vec_(s), false), "data after the end of the stream was dropped"); sx_reach("trailing"); }
	else if (mode == 6) { str s = sample(); { static const int at[] = {0, 1, 16, 17, 18, 15}; int p = at[sx_choice(0, 5, "at")]; uint8_t b = sx_byte("damage"); sx_assume(b != (uint8_t)s[p]); s[p] = (char)b; } bool t = throws(r, vec_(s), false); sx_assert(t, "a corrupt stream was accepted"); sx_reach("damaged"); }
	else if (mode == 7) { bool c = sx_choice(0, 1, "compress"), init = sx_choice(0, 1, "init"); if (init) sxz::init_fail = 1; else sxz::fail_at = sx_choice(1, MF, "at");
		str s; if (c) s = str(3 * C, 'x'); else { s = "SX"; sxz::run(s, 3 * C, 'x'); sxz::end(s, 3 * C); } bool t = throws(r, vec_(s), c); if (init) { sx_assert(t, "a codec that could not be initialised was used"); sx_reach("init"); } else if (sxz::calls >= sxz::fail_at) { sx_assert(t, "a failure of the codec was not reported"); sx_reach("fault"); } else sx_assert(!t, "failed without a reason"); }
	else { int q = sx_choice(0, 1, "low") ? -(int)sx_choice(1, 20, "quality") : (int)sx_choice(10, 30, "quality"); bool threw = false; try { r = brotliCompressBuffer({1, 2}, (Quality)q); } catch (const std::exception&) { threw = true; } sx_assert(threw, "a compression level that does not exist was accepted"); sx_reach("quality"); }
	sx_assert(sxz::live == 0, "the codec was not released"); { vec none; r.swap(none); } sx_assert(sx_live_heap() == heap, "storage was not released");
}
