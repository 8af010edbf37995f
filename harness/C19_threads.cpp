//@ src: core/network/tcp/connection.cpp core/network/*.cpp core/utils/*.cpp
//@ stubs: stub_net threads
//@ races: 1
//@ nojoin: 1
//@ quick: -DPRE=4 time=200
//@ thorough: -DPRE=6 time=850
//@ bounds: two threads on one connection, each with up to two operations (read, write of two bytes, end), the system taking writes in part, the peer sending, leaving or resetting, up to PRE (4/6) switches between the threads at any synchronisation or system call besides blocking ones
//@ reach: bothend readend wrote
#include "sx.h"
#include "net.h"
#include "threads.h"
#include <thread>
#include "core/network/tcp/connection.hpp"
using namespace Lambda; using namespace Lambda::Network;
typedef std::string str;
struct Net : Stream {
	int in_ = 0, peer = 0;
	ssize_t recv(int f, uint8_t* b, size_t n, int fl) override { sx_yield(); SxQuiet q; live(f); if (shut) return 0; if (pos < in.size()) return Stream::recv(f, b, n, fl); if (peer == 0) { in_++; while (!shut) sx_wait(this, sx_clock_ns + 1000000000ull) ? (void)0 : (void)(shut = shut); in_--; live(f); return 0; } return Stream::recv(f, b, n, fl); }
	ssize_t send(int f, const uint8_t* b, size_t n, int fl) override { sx_yield(); SxQuiet q; return Stream::send(f, b, n, fl); }
	int shutdown(int f, int h) override { sx_yield(); SxQuiet q; int r = Stream::shutdown(f, h); sx_wake(this); return r; }
	int close(int f) override { sx_yield(); SxQuiet q; sx_assert(in_ == 0, "not closed while another thread is reading"); return Stream::close(f); }
};
enum { READ, WRITE, END };
void sx_main() {
	sx_preemptions = PRE; Net* net = new Net; sx_net = net; net->maxSend = 1; net->peer = sx_choice(0, 2, "peer"); net->end = net->peer == 1 ? 0 : 2; net->in = sx_choice(0, 1, "data") ? "ab" : ""; ConnectionInfo info; info.hostPort = 80; auto* c = new TCP::Connection(5, info); uint32_t op[2][2], n[2]; bool ends = false;
	for (int t = 0; t < 2; t++) { n[t] = sx_choice(1, 2, "ops"); for (uint32_t i = 0; i < n[t]; i++) { op[t][i] = sx_choice(0, 2, "op"); if (op[t][i] == END) ends = true; } } 
	if (net->peer == 0) { int blocked = 0; for (int t = 0; t < 2; t++) for (uint32_t i = 0; i < n[t]; i++) if (op[t][i] == END) { blocked |= 1 << t; break; } else if (op[t][i] == READ) break; if (!blocked) sx_drop(); } // a read of a silent peer waits until the other thread ends the connection
	str w[2], r[2]; bool werr[2] = {};
	auto run = [&](int t) { for (uint32_t i = 0; i < n[t]; i++) try { if (op[t][i] == READ) { auto d = c->read(2); r[t].append((const char*)d.data(), d.size()); } else if (op[t][i] == WRITE) { str d(2, 'A' + t * 4 + i); c->write(std::vector<uint8_t>(d.begin(), d.end())); w[t] += d; sx_reach("wrote"); } else c->end(); } catch (const std::exception&) { if (op[t][i] == WRITE) werr[t] = true; } };
	std::thread t([&] { run(1); }); run(0); t.join(); SxQuiet q;
	str o = net->out; for (int k = 0; k < 2; k++) { size_t p = 0; for (size_t i = 0; i < w[k].size(); i += 2) { size_t f = o.find(w[k].substr(i, 2)); sx_assert(f != str::npos, "a write that returns handed over every byte, not mixed with others"); } (void)p; }
	if (!ends && net->peer == 0) sx_assert(c->isOpen(), "open"); if (ends) { sx_assert(!c->isOpen() && net->closes == 1, "ended"); if (op[0][0] == END && op[1][0] == END) sx_reach("bothend"); if (op[0][0] == READ && op[1][0] == END) sx_reach("readend"); }
	delete c; sx_assert(net->closes == 1, "closed exactly once"); delete net;
}
