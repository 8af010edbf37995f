// A codec with brotli's calling contract (both builds), in the format of sxz.h. With sxz::free_ set the solver decides,
// within the contract, how much is taken and given back each time.
#include "sxz.h"
#include <brotli/encode.h>
#include <brotli/decode.h>
#include <cstring>
#include <new>
#include <cstdlib>
namespace sxz { bool free_ = false; int live = 0, calls = 0, fail_at = 0, fail_code = 0, init_fail = 0; uint32_t maxlen = 0; }
using namespace sxz;
struct BrotliEncoderStateStruct { std::string pend; bool head = false, fin = false, finishing = false; size_t left = 0; uint32_t total = 0; uint32_t quality = 11; };
struct BrotliDecoderStateStruct { int st = 0; unsigned char hb[4]; unsigned nh = 0; uint32_t left = 0; bool run = false; unsigned char rb = 0; uint32_t total = 0; std::string buf; BrotliDecoderErrorCode err = BROTLI_DECODER_NO_ERROR; };
extern "C" {
BrotliEncoderState* BrotliEncoderCreateInstance(brotli_alloc_func, brotli_free_func, void*) { if (init_fail) return nullptr; live++; return new (std::malloc(sizeof(BrotliEncoderState))) BrotliEncoderState(); }
void BrotliEncoderDestroyInstance(BrotliEncoderState* s) { if (!s) return; live--; s->~BrotliEncoderState(); std::free(s); }
BROTLI_BOOL BrotliEncoderSetParameter(BrotliEncoderState* s, BrotliEncoderParameter p, uint32_t v) { if (s->head) return BROTLI_FALSE; if (p == BROTLI_PARAM_QUALITY) s->quality = v; return BROTLI_TRUE; }
BROTLI_BOOL BrotliEncoderIsFinished(BrotliEncoderState* s) { return s->fin && s->pend.empty(); }
BROTLI_BOOL BrotliEncoderHasMoreOutput(BrotliEncoderState* s) { return !s->pend.empty(); }
BROTLI_BOOL BrotliEncoderCompressStream(BrotliEncoderState* s, BrotliEncoderOperation op, size_t* ain, const uint8_t** in, size_t* aout, uint8_t** out, size_t* total) {
	if (++calls == fail_at) return BROTLI_FALSE; if (s->finishing && (op != BROTLI_OPERATION_FINISH || *ain != s->left)) return BROTLI_FALSE; if (op == BROTLI_OPERATION_EMIT_METADATA) return BROTLI_FALSE;
	if (!s->head) { s->pend += "SX"; s->head = true; } if (op == BROTLI_OPERATION_FINISH) s->finishing = true;
	size_t n = *ain; if (n && free_ && s->pend.size() >= *aout) { int k = sx_choice(0, 2, "take"); n = k == 0 ? 0 : k == 1 ? n : n / 2; }
	if (n) { num(s->pend, n, 3); s->pend.append((const char*)*in, n); *in += n; *ain -= n; s->total += n; }
	if (op == BROTLI_OPERATION_FINISH && !*ain && !s->fin) { num(s->pend, 0, 3); num(s->pend, s->total, 4); s->fin = true; } s->left = *ain;
	size_t e = s->pend.size() < *aout ? s->pend.size() : *aout; if (op == BROTLI_OPERATION_PROCESS && !*ain && e && free_ && sx_choice(0, 1, "hold")) e = 0;
	if (e) memcpy(*out, s->pend.data(), e); s->pend.erase(0, e); *out += e; *aout -= e; (void)total; return BROTLI_TRUE;
}
BrotliDecoderState* BrotliDecoderCreateInstance(brotli_alloc_func, brotli_free_func, void*) { if (init_fail) return nullptr; live++; return new (std::malloc(sizeof(BrotliDecoderState))) BrotliDecoderState(); }
void BrotliDecoderDestroyInstance(BrotliDecoderState* s) { if (!s) return; live--; s->~BrotliDecoderState(); std::free(s); }
BrotliDecoderErrorCode BrotliDecoderGetErrorCode(const BrotliDecoderState* s) { return s->err; }
const char* BrotliDecoderErrorString(BrotliDecoderErrorCode) { return "model error"; }
BROTLI_BOOL BrotliDecoderIsFinished(const BrotliDecoderState* s) { return s->st == 7 && s->buf.empty(); }
BrotliDecoderResult BrotliDecoderDecompressStream(BrotliDecoderState* s, size_t* ain, const uint8_t** in, size_t* aout, uint8_t** out, size_t*) {
	auto error = [&] { s->st = 9; s->err = BROTLI_DECODER_ERROR_FORMAT_RESERVED; return BROTLI_DECODER_RESULT_ERROR; }; if (++calls == fail_at || s->st == 9) return error();
	auto more = [&](unsigned n) { while (s->nh < n && *ain) { s->hb[s->nh++] = *(*in)++; --*ain; } return s->nh == n; };
	auto flush = [&] { size_t e = s->buf.size() < *aout ? s->buf.size() : *aout; if (e) { memcpy(*out, s->buf.data(), e); *out += e; *aout -= e; s->buf.erase(0, e); } return s->buf.empty(); };
	for (;;) { switch (s->st) {
		case 0: if (!more(2)) { flush(); return BROTLI_DECODER_RESULT_NEEDS_MORE_INPUT; } s->nh = 0; if (sx_fork(s->hb[0] != 'S') || sx_fork(s->hb[1] != 'X')) return error(); s->st = 1; break;
		case 1: if (!more(3)) { flush(); return BROTLI_DECODER_RESULT_NEEDS_MORE_INPUT; } s->nh = 0; s->left = (uint32_t)(s->hb[0] & 127) << 16 | s->hb[1] << 8 | s->hb[2]; if (maxlen && sx_fork(s->left > maxlen)) return error(); s->left = sx_concretize(s->left); s->run = sx_fork(s->hb[0] >= 128); if (!s->left && s->run) return error(); s->st = s->left ? s->run ? 2 : 3 : 5; break;
		case 2: if (!more(1)) { flush(); return BROTLI_DECODER_RESULT_NEEDS_MORE_INPUT; } s->nh = 0; s->rb = s->hb[0]; s->st = 4; break;
		case 3: { if (!flush()) return BROTLI_DECODER_RESULT_NEEDS_MORE_OUTPUT; size_t n = s->left < *ain ? s->left : *ain; if (!n) return BROTLI_DECODER_RESULT_NEEDS_MORE_INPUT; // into its own buffer, as the window is
			s->buf.append((const char*)*in, n); *in += n; *ain -= n; s->left -= n; s->total += n; if (!s->left) s->st = 1; if (free_ && *aout && sx_choice(0, 1, "keep")) break; flush(); break; }
		case 4: { if (!flush()) return BROTLI_DECODER_RESULT_NEEDS_MORE_OUTPUT; size_t n = s->left < *aout ? s->left : *aout; if (!n) return BROTLI_DECODER_RESULT_NEEDS_MORE_OUTPUT; memset(*out, s->rb, n); *out += n; *aout -= n; s->left -= n; s->total += n; if (!s->left) s->st = 1; break; }
		case 5: if (!more(4)) { flush(); return BROTLI_DECODER_RESULT_NEEDS_MORE_INPUT; } s->nh = 0; if (sx_fork(((uint32_t)s->hb[0] << 24 | s->hb[1] << 16 | s->hb[2] << 8 | s->hb[3]) != s->total)) return error(); s->st = 7; break;
		default: return flush() ? BROTLI_DECODER_RESULT_SUCCESS : BROTLI_DECODER_RESULT_NEEDS_MORE_OUTPUT;
		}
	}
}
}
