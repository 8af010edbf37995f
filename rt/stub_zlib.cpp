// A codec with zlib's calling contract (both builds). The compressed form is simple; what varies is how the work is split
// over the calls: with sxz::free set the solver decides, within the contract, how much is taken and given back each time.
#include "sxz.h"
#include <zlib.h>
#include <cstring>
#include <new>
#include <cstdlib>
namespace sxz {
bool free_ = false; int live = 0, calls = 0, fail_at = 0, fail_code = 0, init_fail = 0; uint32_t maxlen = 0;
enum { DEF = 1, INF = 2 };
struct S { int kind; std::string pend; bool head = false, fin = false, finishing = false; int last = -1; uint32_t total = 0; // deflate
	int wbits = 0; int st = 0; unsigned char hb[4]; unsigned nh = 0; uint32_t left = 0; bool run = false; unsigned char rb = 0; };
static S* get(z_streamp z, int kind) { if (!z || !z->state) return nullptr; S* s = (S*)z->state; return s->kind == kind ? s : nullptr; }
static int open(z_streamp z, int kind, int wbits, const char* v, int size) { if (!v || v[0] != ZLIB_VERSION[0] || size != (int)sizeof(z_stream)) return Z_VERSION_ERROR; if (!z) return Z_STREAM_ERROR; if (init_fail) { z->state = nullptr; return init_fail; } S* s = new (std::malloc(sizeof(S))) S{kind}; s->wbits = wbits; z->state = (struct internal_state*)s; live++; z->total_in = z->total_out = 0; return Z_OK; }
static int close(z_streamp z, int kind) { S* s = get(z, kind); if (!s) return Z_STREAM_ERROR; bool busy = kind == DEF && s->head && !(s->fin && s->pend.empty()); s->~S(); std::free(s); z->state = nullptr; live--; return busy ? Z_DATA_ERROR : Z_OK; }
static void reset(S* s) { int k = s->kind, w = s->wbits; s->~S(); new (s) S{k}; s->wbits = w; }
static bool failing(int& r) { if (++calls == fail_at) { r = fail_code; return true; } return false; }
}
using namespace sxz;
extern "C" {
int deflateInit2_(z_streamp z, int level, int method, int wbits, int mem, int strategy, const char* v, int size) { if (level < -1 || level > 9 || method != Z_DEFLATED || mem < 1 || mem > 9 || strategy < 0 || strategy > 4 || !((wbits >= 8 && wbits <= 15) || (wbits <= -9 && wbits >= -15) || (wbits >= 25 && wbits <= 31))) return Z_STREAM_ERROR; return open(z, DEF, wbits, v, size); }
int inflateInit2_(z_streamp z, int wbits, const char* v, int size) { if (!(wbits == 0 || wbits == 32 || (wbits >= 8 && wbits <= 15) || (wbits <= -8 && wbits >= -15) || (wbits >= 24 && wbits <= 31) || (wbits >= 40 && wbits <= 47))) return Z_STREAM_ERROR; return open(z, INF, wbits, v, size); }
int deflateEnd(z_streamp z) { return close(z, DEF); }
int inflateEnd(z_streamp z) { return close(z, INF); }
int deflateReset(z_streamp z) { S* s = get(z, DEF); if (!s) return Z_STREAM_ERROR; reset(s); return Z_OK; }
int inflateReset(z_streamp z) { S* s = get(z, INF); if (!s) return Z_STREAM_ERROR; reset(s); return Z_OK; }
int deflate(z_streamp z, int flush) {
	S* s = get(z, DEF); int r; if (!s || flush < 0 || flush > Z_BLOCK || !z->next_out || (z->avail_in && !z->next_in) || (s->finishing && flush != Z_FINISH)) return Z_STREAM_ERROR; if (!z->avail_out) return Z_BUF_ERROR; if (failing(r)) return r;
	if (s->fin) { if (z->avail_in) return Z_BUF_ERROR; if (s->pend.empty()) return Z_STREAM_END; } bool fresh = !s->head;
	if (!s->head) { s->pend += s->wbits < 0 ? "SR" : s->wbits > 15 ? "SX" : "SZ"; s->head = true; } if (flush == Z_FINISH) s->finishing = true;
	bool take = true; if (z->avail_in && free_ && s->pend.size() >= z->avail_out) take = sx_choice(0, 1, "take"); bool moved = false;
	if (take && z->avail_in) { uint32_t n = z->avail_in; for (int i = 2; i >= 0; i--) s->pend.push_back((char)(n >> (8 * i))); s->pend.append((const char*)z->next_in, n); z->next_in += n; z->avail_in = 0; z->total_in += n; s->total += n; moved = true; }
	if (flush == Z_FINISH && !z->avail_in && !s->fin) { s->pend.append(3, 0); for (int i = 3; i >= 0; i--) s->pend.push_back((char)(s->total >> (8 * i))); s->fin = true; }
	size_t e = s->pend.size() < z->avail_out ? s->pend.size() : z->avail_out; if (flush == Z_NO_FLUSH && !z->avail_in) { if (!free_) { if (s->pend.size() < 64) e = 0; } else if (e && sx_choice(0, 1, "hold")) e = 0; }
	memcpy(z->next_out, s->pend.data(), e); s->pend.erase(0, e); z->next_out += e; z->avail_out -= e; z->total_out += e; if (e) moved = true;
	if (s->fin && s->pend.empty()) return Z_STREAM_END; (void)fresh; return moved ? Z_OK : Z_BUF_ERROR;
}
int inflate(z_streamp z, int) {
	S* s = get(z, INF); int r; if (!s || !z->next_out || (z->avail_in && !z->next_in)) return Z_STREAM_ERROR; if (failing(r)) return r; bool moved = false;
	auto more = [&](unsigned n) { while (s->nh < n && z->avail_in) { s->hb[s->nh++] = *z->next_in++; z->avail_in--; z->total_in++; moved = true; } return s->nh == n; };
	for (;;) { switch (s->st) {
		case 0: if (!more(2)) goto out; s->nh = 0; if (sx_fork(s->hb[0] != 'S')) { s->st = 9; break; } if (sx_fork(s->hb[1] == 'D')) { s->st = 8; break; } { bool g = s->wbits >= 24, zl = s->wbits >= 0 && (s->wbits < 16 || s->wbits >= 32), ok = false; if (sx_fork(s->hb[1] == 'X')) ok = g; else if (sx_fork(s->hb[1] == 'Z')) ok = zl; else if (sx_fork(s->hb[1] == 'R')) ok = s->wbits < 0; if (!ok) { s->st = 9; break; } } s->st = 1; break;
		case 1: if (!more(3)) goto out; s->nh = 0; s->left = (uint32_t)(s->hb[0] & 127) << 16 | s->hb[1] << 8 | s->hb[2]; if (maxlen && sx_fork(s->left > maxlen)) { s->st = 9; break; } s->left = sx_concretize(s->left); s->run = sx_fork(s->hb[0] >= 128); s->st = s->left ? s->run ? 2 : 3 : s->run ? 9 : 5; break;
		case 2: if (!more(1)) goto out; s->nh = 0; s->rb = s->hb[0]; s->st = 4; break;
		case 3: { uint32_t n = s->left; if (n > z->avail_in) n = z->avail_in; if (n > z->avail_out) n = z->avail_out; if (!n) goto out; memcpy(z->next_out, z->next_in, n); z->next_in += n; z->avail_in -= n; z->total_in += n; z->next_out += n; z->avail_out -= n; z->total_out += n; s->left -= n; s->total += n; moved = true; if (!s->left) s->st = 1; break; }
		case 4: { uint32_t n = s->left; if (n > z->avail_out) n = z->avail_out; if (!n) goto out; memset(z->next_out, s->rb, n); z->next_out += n; z->avail_out -= n; z->total_out += n; s->left -= n; s->total += n; moved = true; if (!s->left) s->st = 1; break; }
		case 5: if (!more(4)) goto out; s->nh = 0; if (sx_fork(((uint32_t)s->hb[0] << 24 | s->hb[1] << 16 | s->hb[2] << 8 | s->hb[3]) != s->total)) { s->st = 9; break; } s->st = 7; break;
		case 7: return Z_STREAM_END;
		case 8: return Z_NEED_DICT;
		default: return Z_DATA_ERROR;
		}
		if (free_ && moved && !z->avail_out && s->st == 1 && sx_choice(0, 1, "stop")) goto out; // the output is full: may or may not go on to the end
	}
	out: return moved ? Z_OK : Z_BUF_ERROR;
}
}
