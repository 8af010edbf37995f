//@ src: core/server/*.cpp core/network/tcp/*.cpp core/network/*.cpp core/websocket/*.cpp core/http/*.cpp core/polyfill/*.cpp core/crypto/*.cpp core/encoding/*.cpp core/utils/*.cpp core/html/renderer.cpp core/json/*.cpp core/sse/*.cpp
//@ exclude: core/compression/*.cpp core/html/templatemap.cpp
//@ stubs: stub_net stub_random stub_compress threads
//@ nojoin: 1
//@ quick: time=200 steps=100000000
//@ thorough: time=400 steps=100000000
//@ flags: -fno-inline
//@ bounds: limits of 0, 1, 49, 50, 51 and 52 connections with 53 clients that stay connected, one further client after they are gone; one schedule (threads in turn)
//@ reach: unlimited limited refused
#include "sx.h"
#include "net.h"
#include "threads.h"
#include "http_ref.h"
#include "core/server/server.hpp"
#include "core/html/html.hpp"
using namespace Lambda;
typedef std::string str;
const std::string Lambda::HTML::Templates::servicePage = "x";
struct Net : NetModel {
	bool lopen = false, go = false, release = false; int n = 0, limit = 0, lcloses = 0; struct C { str out; bool open = true, asked = false; int sent = 0, closes = 0; }; C c[64]; int now = 0, peak = 0;
	int socket(int, int, int) override { lopen = true; return 3; }
	int accept(int f, struct sockaddr* a, socklen_t* l) override { while (lopen && n >= limit) sx_wait(this); if (!lopen) { errno = EINVAL; return -1; } __builtin_memset(a, 0, 16); return 10 + n++; }
	ssize_t recv(int f, uint8_t* b, size_t s, int) override { C& x = c[f - 10]; if (!x.asked) { x.asked = true; now++; if (now > peak) peak = now; } if (f - 10 < 53) while (!release) sx_wait(&release); if (x.sent++) { return 0; } str q = "GET / HTTP/1.1\r\nConnection: close\r\n\r\n"; __builtin_memcpy(b, q.data(), q.size()); return q.size(); }
	ssize_t send(int f, const uint8_t* b, size_t s, int) override { c[f - 10].out.append((const char*)b, s); return s; }
	int shutdown(int f, int) override { if (f == 3) { lopen = false; sx_wake(this); } return 0; }
	int close(int f) override { if (f == 3) { lcloses++; return 0; } C& x = c[f - 10]; sx_assert(x.open, "open"); x.open = false; x.closes++; if (x.asked) now--; return 0; }
};
void sx_main() {
	sx_preemptions = 0; sx_fifo = true; Net* net = new Net; sx_net = net; static const uint32_t lims[] = {0, 1, 49, 50, 51, 52}; uint32_t lim = lims[sx_choice(0, 5, "limit")]; ServerConfig cfg; cfg.loglevel.requests = cfg.loglevel.startMessage = false; cfg.service.useThreadList = true; cfg.service.maxConnections = lim; LambdaInstance* srv = nullptr; bool threw = false;
	try { srv = new LambdaInstance([&](const HTTP::Request& r, const RequestContext&) -> HandlerResponse { return "ok"; }, cfg); } catch (const std::exception&) { threw = true; }
	if (lim && lim < ServiceOptions::minConnections) { sx_assert(threw && net->lcloses == 1, "limits below the minimum are refused"); delete net; sx_reach("refused"); return; } sx_assert(!threw, "configured"); if (threw) return;
	net->limit = 53; sx_wake(net); sx_sleep(1000000000ull); sx_assert(net->n == 53, "all clients are accepted or refused"); int served = 0; for (int i = 0; i < 53; i++) served += net->c[i].asked; sx_assert(net->peak == (lim ? (int)lim : 53) && served == net->peak, "no more connections than the limit are served at the same time, and no fewer"); for (int i = 0; i < 53; i++) if (!net->c[i].asked) sx_assert(!net->c[i].open, "the others are closed"); sx_reach(lim ? "limited" : "unlimited");
	net->release = true; sx_wake(&net->release); sx_sleep(1000000000ull); for (int i = 0; i < 53; i++) { sx_assert(!net->c[i].open, "all served connections end"); if (net->c[i].asked) { Resp r = http_read(net->c[i].out, 0); sx_assert(r.ok && r.code == 200, "served"); } }
	net->limit = 54; sx_wake(net); sx_sleep(1000000000ull); sx_assert(net->c[53].asked && http_read(net->c[53].out, 0).ok, "connections that ended make room"); delete srv; sx_assert(net->lcloses == 1, "closed once"); for (int i = 0; i < 54; i++) sx_assert(net->c[i].closes == 1, "each closed once"); delete net;
}
