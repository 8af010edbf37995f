//@ src: core/network/tcp/*.cpp core/network/*.cpp core/utils/*.cpp
//@ stubs: stub_net
//@ quick: -DOPS=3 time=250
//@ thorough: -DOPS=4 time=850
//@ merge: std::set<int.*>::contains
//@ bounds: every failure of each system call while setting the listening socket up; then up to OPS (3/4) operations (accept with every outcome and any peer port, any value of each octet of its address, stop, move construction, move assignment from another or the same listening socket), any service port, any of 5 timeout values for each direction
//@ reach: setupfail accepted acceptfail optfail stopped moved assigned
#include "sx.h"
#include "net.h"
#include "core/network/tcp/listener.hpp"
#include <sys/time.h>
using namespace Lambda; using namespace Lambda::Network;
typedef std::string str;
struct Net : NetModel {
	bool open[12] = {}, bound[12] = {}, listening[12] = {}, isconn[12] = {}; int closes[12] = {}, opts[12] = {}; timeval to[12][2] = {}; int next = 3; bool n1 = false; int fail = 0; uint16_t port = 0; bool reuse = false; int accepts = 0, lastConn = -1, badopt = 0; uint32_t addr = 0; uint16_t pport = 0;
	int make() { int f = next++; if (f >= 12) sx_drop(); open[f] = true; return f; }
	int socket(int, int, int) override { if (fail == 1) { errno = EMFILE; return -1; } return make(); }
	int bind(int f, const struct sockaddr* a, socklen_t n) override { sx_assert(open[f], "bind"); if (fail == 2) { errno = EADDRINUSE; return -1; } const uint8_t* b = (const uint8_t*)a; sx_assert(n == sizeof(sockaddr_in), "address"); port = b[2] << 8 | b[3]; bound[f] = true; return 0; }
	int listen(int f, int) override { sx_assert(open[f] && bound[f], "listen"); if (fail == 3) { errno = EADDRINUSE; return -1; } listening[f] = true; return 0; }
	int setsockopt(int f, int l, int o, const void* v, socklen_t n) override { sx_assert(f >= 3 && open[f], "options of an open socket"); if (o == SO_REUSEADDR) { if (fail == 4) { errno = EINVAL; return -1; } reuse = *(const int*)v; return 0; } sx_assert(n == sizeof(timeval), "timeout"); if (badopt && opts[f] + 1 == badopt) { errno = ENOMEM; opts[f]++; return -1; } opts[f]++; to[f][o == SO_SNDTIMEO] = *(const timeval*)v; return 0; }
	int accept(int f, struct sockaddr* a, socklen_t* n) override { sx_assert(f >= 3 && f < 12 && open[f] && listening[f], "accept on the open listening socket"); accepts++; uint32_t k = sx_choice(0, 5, "accept"); if (k > 2) { static const int e[] = {ECONNABORTED, EMFILE, EINTR}; errno = e[k - 3]; return -1; } badopt = k; int c = make(); isconn[c] = true; lastConn = c; addr = n1 ? sx_u32("addr") : 0x0100007f; pport = sx_u32("pport"); if (n1) { uint32_t k = sx_choice(0, 3, "octet"); sx_assume((addr & ~(255u << (8 * k))) == (0x0a0b0c0du & ~(255u << (8 * k)))); } uint8_t* b = (uint8_t*)a; b[0] = 2; b[1] = 0; b[2] = pport >> 8; b[3] = pport; for (int i = 0; i < 4; i++) b[4 + i] = addr >> (8 * i); *n = 16; return c; }
	int shutdown(int f, int) override { sx_assert(f >= 3 && f < 12 && open[f], "shutdown of an open socket"); return 0; }
	int close(int f) override { sx_assert(f >= 3 && f < 12 && open[f], "close of an open socket"); open[f] = false; closes[f]++; return 0; }
	int live(bool conn) { int n = 0; for (int i = 3; i < 12; i++) n += open[i] && isconn[i] == conn; return n; }
};
static const uint32_t tos[] = {0, 1, 999, 15000, 4294967295u};
void sx_main() {
	Net* net = new Net; sx_net = net; TCP::ListenConfig cfg; cfg.allowPortReuse = sx_choice(0, 1, "reuse"); cfg.port = sx_u32("port"); net->fail = sx_choice(0, 4, "fail"); uint32_t n = sx_choice(1, OPS, "ops"); if (n == 1) { cfg.connectionTimeouts.receive = tos[sx_choice(0, 4, "receive")]; cfg.connectionTimeouts.send = tos[sx_choice(0, 4, "send")]; } else { cfg.connectionTimeouts.receive = 1500; cfg.connectionTimeouts.send = 70001; }
	TCP::ListenSocket* l = nullptr; bool threw = false; try { l = new TCP::ListenSocket(cfg); } catch (const std::exception&) { threw = true; } bool should = net->fail && (net->fail < 4 || cfg.allowPortReuse); sx_assert(threw == should, "failing to set up is an error"); if (threw) { sx_assert(net->live(false) == 0, "and leaks no socket"); for (int i = 3; i < 12; i++) sx_assert(net->closes[i] <= 1, "closed once"); sx_reach("setupfail"); delete net; return; }
	net->fail = 0; net->n1 = n == 1; sx_assert(net->port == cfg.port && net->listening[3], "listening on the configured port"); sx_assert(net->reuse == cfg.allowPortReuse, "port reuse as configured"); bool active = true;
	for (uint32_t i = 0; i < n; i++) {
		sx_assert(l->active() == active && net->live(false) == (active ? 1 : 0), "active as long as not stopped"); uint32_t op = sx_choice(0, 4, "op");
		if (op == 0) {
			std::optional<TCP::Connection> c; bool t = false; int before = net->accepts; net->lastConn = -1; net->badopt = 0; try { c = l->acceptConnection(); } catch (const std::exception&) { t = true; }
			if (!active) { sx_assert((t || !c.has_value()) && net->accepts == before, "a stopped service accepts nothing"); continue; }
			sx_assert(net->accepts == before + 1, "asked the system"); int f = net->lastConn; if (f < 0) { sx_assert(t || !c.has_value(), "a failed accept gives no connection"); sx_reach("acceptfail"); sx_assert(l->active(), "and the service stays active"); continue; }
			if (net->badopt) { sx_assert(t || !c.has_value(), "no connection without its timeouts"); c.reset(); sx_assert(net->closes[f] == 1, "its socket is closed"); sx_reach("optfail"); continue; }
			sx_assert(!t && c.has_value() && c->isOpen(), "accepted"); if (!c.has_value()) return; auto& info = c->info(); sx_assert(info.hostPort == cfg.port, "service port"); sx_assert(info.remoteAddr.port == net->pport, "peer port");
			str ip; for (int k = 0; k < 4; k++) { if (k) ip += '.'; ip += std::to_string(sx_concretize(net->addr >> (8 * k) & 255)); } sx_assert(info.remoteAddr.hostname == ip, "peer address");
			for (int d = 0; d < 2; d++) { uint32_t ms = d ? cfg.connectionTimeouts.send : cfg.connectionTimeouts.receive; sx_assert((uint64_t)net->to[f][d].tv_sec * 1000000 + net->to[f][d].tv_usec == (uint64_t)ms * 1000, "configured timeouts"); } sx_assert(info.timeouts.send == cfg.connectionTimeouts.send && info.timeouts.receive == cfg.connectionTimeouts.receive, "timeouts reported"); sx_reach("accepted"); c.reset(); sx_assert(net->closes[f] == 1, "closed with the connection");
		} else if (op == 1) { l->stop(); active = false; sx_reach("stopped"); }
		else if (op == 2) { TCP::ListenSocket* m = new TCP::ListenSocket(std::move(*l)); sx_assert(!l->active(), "moved from"); delete l; l = m; sx_reach("moved"); }
		else if (op == 3) { TCP::ListenConfig c2 = cfg; c2.port = cfg.port ^ 1; TCP::ListenSocket o(c2); *l = std::move(o); cfg = c2; active = true; sx_reach("assigned"); }
		else { TCP::ListenSocket& self = *l; *l = std::move(self); }
		sx_assert(l->getConfig().port == cfg.port && l->getConfig().connectionTimeouts.send == cfg.connectionTimeouts.send && l->getConfig().connectionTimeouts.receive == cfg.connectionTimeouts.receive, "configuration");
	}
	delete l; for (int i = 3; i < net->next; i++) sx_assert(net->closes[i] == 1, "each socket is closed exactly once"); delete net;
}
