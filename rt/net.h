// Socket model (both builds): recv/send/... of the code under test come here. The harness scripts what the network does.
#pragma once
#include "sx.h"
#include <cerrno>
#include <sys/types.h>
#include <sys/socket.h>
#include <netinet/in.h>
struct NetModel { // harness may override; the defaults are errors
	virtual ssize_t recv(int, uint8_t*, size_t, int) { errno = ENOTCONN; return -1; }
	virtual ssize_t send(int, const uint8_t*, size_t, int) { errno = ENOTCONN; return -1; }
	virtual int shutdown(int, int) { return 0; }
	virtual int close(int) { return 0; }
	virtual int setsockopt(int, int, int, const void*, socklen_t) { return 0; }
	virtual int getsockopt(int, int, int, void*, socklen_t*) { return 0; }
	virtual int socket(int, int, int) { errno = EMFILE; return -1; }
	virtual int bind(int, const struct sockaddr*, socklen_t) { return 0; }
	virtual int listen(int, int) { return 0; }
	virtual int accept(int, struct sockaddr*, socklen_t*) { errno = EAGAIN; return -1; }
	virtual int poll(int, short, int) { return 1; }
	virtual bool owns(int) { return true; }
};
extern NetModel* sx_net;
// A connected stream socket. Inbound: the bytes of `in`, split over recv calls in every way using up to `cuts` short pieces;
// in pieces of at most `maxRecv` bytes, and
// after them `end` (0 end of stream, 1 timeout, 2 connection reset, 3 other error). Outbound: collected in `out`; the send
// number `failSend` (1-based, 0 none) fails with `sendErr` after `failSent` bytes (a short count if failSent > 0).
struct Stream : NetModel {
	int fd = 5; std::string in, out; size_t pos = 0; int cuts = 0; int end = 0; int sends = 0, failSend = 0; int sendErr = ECONNRESET; size_t failSent = 0; size_t maxSend = (size_t)-1;
	size_t maxRecv = (size_t)-1; size_t wide = 400, edge = 24; // longer pieces are only split within `edge` bytes of their ends
	bool closed = false, shut = false; int closes = 0, recvs = 0, recvsAfterEnd = 0; size_t readMark = 0; bool noEintr = true; int flagsSeen = 0; bool pipe = false;
	void live(int f) { sx_assert(f == fd && !closed, "operation on the open socket only"); }
	virtual void beforeRecv() {}
	ssize_t recv(int f, uint8_t* b, size_t n, int) override {
		live(f); recvs++; beforeRecv(); if (shut) return 0; if (n == 0) return 0;
		size_t av = in.size() - pos; if (av > n) av = n; if (av > maxRecv) av = maxRecv;
		if (av == 0) { recvsAfterEnd++; if (end == 0 || recvsAfterEnd > 50) return 0; errno = end == 1 ? EAGAIN : end == 2 ? ECONNRESET : EIO; return -1; }
		if (cuts > 0 && av > 1) { size_t k = av <= wide ? sx_choice(1, av, "piece") : sx_choice(0, 2 * edge, "piece"); if (av > wide) k = k < edge ? k + 1 : av - (2 * edge - k); if (k < av) { cuts--; av = k; } }
		__builtin_memcpy(b, in.data() + pos, av); pos += av; return av;
	}
	ssize_t send(int f, const uint8_t* b, size_t n, int flags) override {
		live(f); sends++; flagsSeen |= flags; if (shut) { if (!(flags & MSG_NOSIGNAL)) sx_abort("signal", "SIGPIPE"); errno = EPIPE; return -1; }
		if (failSend == sends) { if (sendErr == EPIPE && !(flags & MSG_NOSIGNAL)) sx_abort("signal", "SIGPIPE"); if (failSent && failSent < n) { out.append((const char*)b, failSent); return failSent; } if (!failSent) { shut = true; errno = sendErr; return -1; } }
		if (n > maxSend) n = maxSend; out.append((const char*)b, n); return n;
	}
	int shutdown(int f, int) override { live(f); shut = true; return 0; }
	int close(int f) override { live(f); closed = true; closes++; return 0; }
};
