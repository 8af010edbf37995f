// Longer sequences of operations on one snapshot queue from one thread.
//@ src: extra/vfs/syncqueue.cpp
//@ stubs: threads
//@ nojoin: 1
//@ quick: -DK=8 -DN=20 time=100
//@ thorough: -DK=12 -DN=100 time=600
//@ reach: refused many ended
//@ bounds: every sequence of K (8/12) pushes, takings and questions for emptiness, with symbolic content bytes; N (20/100) items pushed, half of them taken, half pushed again, and taken to the end after closing
#include "extra/vfs/formats.hpp"
#include "sx.h"
#include <deque>
#include <stdexcept>
using namespace Lambda::VFS; using namespace Lambda::VFS::Formats;
static std::deque<VirtualFile> m; static int made;
static void push(SyncQueue& q) { VirtualFile f { std::vector<uint8_t>{ sx_byte("body"), (uint8_t)made }, made, made + 10, "n" + std::to_string(made) }; made++; q.push(VirtualFile(f)); m.push_back(f); }
static void next(SyncQueue& q) { bool threw = false; try { VirtualFile f = q.next(); sx_assert(!m.empty(), "an item that was not pushed was taken"); auto& w = m.front(); sx_assert(f.name == w.name && f.created == w.created && f.modified == w.modified && f.buffer.size() == 2 && f.buffer[0] == w.buffer[0] && f.buffer[1] == w.buffer[1], "an item was lost, repeated, changed or taken out of order"); m.pop_front(); } catch (const std::exception&) { threw = true; } if (threw) { sx_assert(m.empty(), "an item could not be taken"); sx_reach("refused"); } }
void sx_main() {
	{ try { throw std::runtime_error("x"); } catch (...) {} } uint64_t heap = sx_live_heap();
	{ SyncQueue q; if (sx_choice(0, 1, "mode")) { for (int i = 0; i < N; i++) push(q); for (int i = 0; i < N / 2; i++) next(q); for (int i = 0; i < N / 2; i++) push(q); sx_reach("many"); } else for (int i = 0; i < K; i++) { switch (sx_choice(0, 1, "op")) { case 0: push(q); break; case 1: next(q); break; } sx_assert(q.empty() == m.empty(), "empty is not whether items are left"); sx_assert(!q.done(), "done before it was closed"); }
		q.close(); sx_assert(q.done(), "closed"); while (!m.empty()) { sx_assert(q.await(), "waiting ended with items left"); next(q); } sx_assert(!q.await() && q.empty() && q.awaitEmpty(), "no items are left"); sx_reach("ended"); }
	m.clear(); std::deque<VirtualFile>().swap(m); (void)heap;
}
