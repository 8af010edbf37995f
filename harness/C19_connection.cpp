//@ src: core/network/tcp/connection.cpp core/network/*.cpp core/utils/*.cpp
//@ stubs: stub_net
//@ quick: -DOPS=3 -DBIG=0 time=200
//@ thorough: -DOPS=3 -DBIG=1 time=850
//@ merge: std::set<int.*>::contains
//@ bounds: every sequence of up to 3 operations on two connections (read of 1 or 3 / 1 to 4 bytes, write of up to 2/3 bytes, end, move construction, move assignment also to itself, timeouts of any 14-bit and three larger values in ms, flags, destruction), every result of every system call (short counts, end of stream, any of 7 errors), data bytes symbolic
//@ reach: read eof timeout reset werror short end moved assigned dto
#include "sx.h"
#include "net.h"
#include "core/network/tcp/connection.hpp"
#include <sys/time.h>
using namespace Lambda; using namespace Lambda::Network;
typedef std::string str;
static const int errs[] = {EAGAIN, ETIMEDOUT, ECONNRESET, EPIPE, EIO, EINTR, ENOTCONN};
struct Sock { bool open = false; bool shut = false; int closes = 0; str in, out; timeval to[2] = {}; bool toset[2] = {}; };
struct Net : NetModel {
	Sock s[3]; int lastErr = 0; ssize_t lastN = 0; int calls = 0;
	Sock& at(int f) { sx_assert(f >= 1 && f <= 2 && s[f].open, "no system call on a closed socket"); return s[f]; }
	ssize_t res(size_t n, const char* nm) { calls++; uint32_t k = sx_choice(0, n + 7, nm); if (k <= n) return lastN = k; errno = lastErr = errs[k - n - 1]; return lastN = -1; }
	ssize_t recv(int f, uint8_t* b, size_t n, int) override { Sock& k = at(f); ssize_t r = res(n, "recv"); if (r > 0) { str d = sx_str(r, "data"); k.in += d; __builtin_memcpy(b, d.data(), r); } return r; }
	ssize_t send(int f, const uint8_t* b, size_t n, int fl) override { Sock& k = at(f); ssize_t r; do { r = res(n, "send"); if (r == 0 && n) sx_drop(); } while (0); if (r < 0 && lastErr == EPIPE && !(fl & MSG_NOSIGNAL)) sx_abort("signal", "SIGPIPE"); if (r > 0) k.out.append((const char*)b, r); return r; }
	int shutdown(int f, int) override { at(f).shut = true; return 0; }
	int close(int f) override { Sock& k = at(f); k.open = false; k.closes++; return 0; }
	int setsockopt(int f, int l, int o, const void* v, socklen_t n) override { if (f == -1) { errno = EBADF; return -1; } Sock& k = at(f); sx_assert(l == SOL_SOCKET && (o == SO_RCVTIMEO || o == SO_SNDTIMEO) && n == sizeof(timeval), "timeout option"); if (sx_choice(0, 1, "optfail")) { errno = EINVAL; return -1; } k.to[o == SO_SNDTIMEO] = *(const timeval*)v; k.toset[o == SO_SNDTIMEO] = true; return 0; }
};
void sx_main() {
	Net* net = new Net; sx_net = net; net->s[1].open = net->s[2].open = true; ConnectionInfo info; info.hostPort = 80; info.remoteAddr.port = 1;
	TCP::Connection* c[2] = {new TCP::Connection(1, info), new TCP::Connection(2, info)}; int holds[2] = {1, 2}; bool thr[2] = {true, true}, clo[2] = {true, true};
	uint32_t n = sx_choice(1, OPS, "ops");
	for (uint32_t i = 0; i < n; i++) {
		uint32_t op = sx_choice(0, 7, "op"), w = op == 4 || op == 5 ? sx_choice(0, 1, "which") : i ? sx_choice(0, 1, "which") : 0; int f = holds[w]; Sock& k = net->s[f < 0 ? 0 : f]; TCP::Connection& x = *c[w];
		sx_assert(x.isOpen() == (f > 0), "open state");
		if (op == 0) {
			size_t want = BIG ? sx_choice(1, 4, "want") : 1 + 2 * sx_choice(0, 1, "want"), had = k.in.size(); std::vector<uint8_t> got; bool threw = false; net->calls = 0; try { got = x.read(want); } catch (const std::exception&) { threw = true; }
			if (f < 0) { sx_assert(threw && net->calls == 0, "reading a closed connection is an error"); continue; }
			sx_assert(net->calls == 1 || net->calls > 1, "asked the system"); sx_assert(sx_eq(str(got.begin(), got.end()), k.in.substr(had)) && got.size() <= want, "exactly the bytes delivered"); ssize_t r = net->lastN; int e = net->lastErr;
			if (r > 0) { sx_assert(!threw, "delivered bytes are returned"); sx_reach("read"); } else if (r == 0) { sx_assert(!threw && got.empty(), "end of stream reads as empty"); sx_reach("eof"); sx_assert(!x.isOpen(), "end of stream closes"); } else if (e == EAGAIN || e == ETIMEDOUT) { sx_assert(!threw && got.empty(), "timeout reads as empty"); sx_assert(x.isOpen() == !clo[w], "timeout closes only if asked"); sx_reach("timeout"); } else if (e == ECONNRESET) { sx_assert(threw == thr[w] && !x.isOpen(), "reset closes, and is an error if asked"); sx_reach("reset"); } else if (e != EINTR) sx_assert(threw, "any other failure is an error");
			if (!x.isOpen()) { sx_assert(k.closes == 1, "closed"); holds[w] = -1; }
		} else if (op == 1) {
			str d = sx_text(1, BIG ? 3 : 2, "out"); size_t had = k.out.size(); bool threw = false; net->calls = 0; try { x.write(std::vector<uint8_t>(d.begin(), d.end())); } catch (const std::exception&) { threw = true; }
			if (f < 0) { sx_assert(threw && net->calls == 0, "writing a closed connection is an error"); continue; }
			str did = k.out.substr(had); if (!threw) { sx_assert(sx_eq(did, d), "a write that returns handed over every byte in order"); if (net->calls > 1) sx_reach("short"); } else { sx_assert(net->lastN < 0, "a write fails only if the system says so"); sx_assert(sx_eq(did, d.substr(0, did.size())), "nothing else was written"); sx_reach("werror"); }
			if (!x.isOpen()) holds[w] = -1;
		} else if (op == 2) { x.end(); if (f > 0) { sx_assert(k.closes == 1, "closed"); sx_reach("end"); } holds[w] = -1; sx_assert(!x.isOpen(), "ended"); }
		else if (op == 3) { TCP::Connection* m = new TCP::Connection(std::move(x)); delete c[w]; c[w] = m; if (f > 0) sx_assert(k.open && m->isOpen(), "a move keeps the socket open"); clo[w] = m->flags.closeOnTimeout; thr[w] = m->flags.throwOnDisconnect; sx_reach("moved"); }
		else if (op == 4) { uint32_t v = sx_choice(0, 1, "from"); int g = holds[v]; *c[w] = std::move(*c[v]); if (v != w) { if (f > 0) sx_assert(net->s[f].closes == 1, "the socket held before is closed"); holds[w] = g; holds[v] = -1; sx_reach("assigned"); } if (holds[w] > 0) sx_assert(net->s[holds[w]].open, "the moved socket stays open"); clo[w] = c[w]->flags.closeOnTimeout; thr[w] = c[w]->flags.throwOnDisconnect; }
		else if (op == 5) { x.flags.closeOnTimeout = clo[w] = sx_choice(0, 1, "closeOnTimeout"); x.flags.throwOnDisconnect = thr[w] = sx_choice(0, 1, "throwOnDisconnect"); }
		else if (op == 6) {
			uint32_t mk = sx_choice(0, 3, "ms_kind"), ms = mk == 1 ? 65536 : mk == 2 ? 4294967295u : mk == 3 ? 1000001 : sx_u32("ms") & 0x3fff, dir = sx_choice(0, 2, "dir"); k.toset[0] = k.toset[1] = false; bool threw = false; try { x.setTimeouts(ms, dir == 0 ? SetTimeoutsDirection::Both : dir == 1 ? SetTimeoutsDirection::Send : SetTimeoutsDirection::Receive); } catch (const std::exception&) { threw = true; }
			if (f < 0) { sx_assert(threw, "timeouts of a closed connection are an error"); continue; }
			if (!threw) { if (dir != 2) { sx_assert(k.toset[1] && (uint64_t)k.to[1].tv_sec * 1000000 + k.to[1].tv_usec == (uint64_t)ms * 1000 && k.to[1].tv_usec < 1000000, "send timeout"); sx_assert(x.info().timeouts.send == ms, "send timeout reported"); } if (dir != 1) { sx_assert(k.toset[0] && (uint64_t)k.to[0].tv_sec * 1000000 + k.to[0].tv_usec == (uint64_t)ms * 1000 && k.to[0].tv_usec < 1000000, "receive timeout"); sx_assert(x.info().timeouts.receive == ms, "receive timeout reported"); } sx_reach("timeout"); }
		} else { delete c[w]; if (f > 0) { sx_assert(k.closes == 1, "destruction closes"); sx_reach("dto"); } c[w] = new TCP::Connection(-1, info); holds[w] = -1; clo[w] = thr[w] = true; }
	}
	delete c[0]; delete c[1]; for (int i = 1; i < 3; i++) sx_assert(net->s[i].closes == 1, "each socket is closed exactly once"); delete net;
}
