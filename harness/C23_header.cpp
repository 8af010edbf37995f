//@ src: core/websocket/*.cpp core/http/*.cpp core/network/tcp/connection.cpp core/network/*.cpp core/polyfill/*.cpp core/crypto/*.cpp core/encoding/*.cpp core/utils/*.cpp core/server/worker.cpp core/server/errorpage.cpp core/html/renderer.cpp core/json/*.cpp core/sse/*.cpp
//@ exclude: core/compression/*.cpp core/html/templatemap.cpp
//@ stubs: stub_net stub_random stub_compress threads
//@ quick: time=200
//@ thorough: time=200
//@ bounds: every payload length below 2^63, every known opcode, final bit and mask, followed by 0 to 2 further bytes
//@ reach: short medium long masked
#include "sx.h"
#include "net.h"
#include "ws_ref.h"
#include "core/websocket/websocket.hpp"
#include "core/websocket/transport.hpp"
#include "core/html/html.hpp"
using namespace Lambda; using namespace Lambda::Websocket::Transport;
typedef std::string str;
const std::string Lambda::HTML::Templates::servicePage = "x";
static const int ops[] = {0, 1, 2, 8, 9, 10};
void sx_main() {
	uint64_t n = sx_u64("length"); sx_assume(n < (1ull << 63)); int op = ops[sx_choice(0, 5, "opcode")]; bool fin = sx_choice(0, 1, "final"), masked = sx_choice(0, 1, "masked"); str mask = masked ? sx_str(4, "mask") : ""; size_t more = sx_choice(0, 2, "more");
	// as a client writes it
	std::vector<uint8_t> b; b.push_back((fin ? 0x80 : 0) | op); uint8_t m = masked ? 0x80 : 0; if (sx_fork(n < 126)) { b.push_back(m | (uint8_t)n); sx_reach("short"); } else if (sx_fork(n < 65536)) { b.push_back(m | 126); b.push_back(n >> 8); b.push_back(n); sx_reach("medium"); } else { b.push_back(m | 127); for (int i = 7; i >= 0; i--) b.push_back(n >> (8 * i)); sx_reach("long"); }
	auto plain = b; plain[1] &= 0x7f; size_t size = b.size(); b.insert(b.end(), mask.begin(), mask.end()); if (masked) size += 4; for (size_t i = 0; i < more; i++) b.push_back(sx_byte("payload"));
	auto h = parseFrameHeader(b); sx_assert(h.payloadSize == n, "length"); sx_assert((int)h.opcode == op, "opcode"); sx_assert((h.finbit == FrameControlBits::BitFinal) == fin && (fin || h.finbit == FrameControlBits::BitContinue), "final bit"); sx_assert(h.size == size, "header size"); sx_assert(h.mask.has_value() == masked, "mask present"); if (masked) { for (int i = 0; i < 4; i++) sx_assert(h.mask.value()[i] == (uint8_t)mask[i], "mask"); sx_reach("masked"); }
	// as the server writes it
	auto s = serializeFrameHeader({fin ? FrameControlBits::BitFinal : FrameControlBits::BitContinue, (OpCode)op, 0, n}); sx_assert(s.size() == plain.size(), "the shortest length form"); for (size_t i = 0; i < s.size() && i < plain.size(); i++) sx_assert(s[i] == plain[i], "the frame header by RFC 6455"); sx_observe(s.data(), s.size(), "header");
	auto back = parseFrameHeader(s); sx_assert(back.payloadSize == n && (int)back.opcode == op && (back.finbit == FrameControlBits::BitFinal) == fin && !back.mask.has_value(), "round trip");
}
