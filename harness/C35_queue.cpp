// A producer and a consumer thread on one snapshot queue.
//@ src: extra/vfs/syncqueue.cpp
//@ stubs: threads
//@ nojoin: 1
//@ races: 1
//@ quick: -DN=2 -DPRE=3 time=300
//@ thorough: -DN=3 -DPRE=4 time=850
//@ reach: all-taken watched-end watched-error empty-refused gave-up done
//@ bounds: up to N items (2 quick, 3 thorough) of one symbolic content byte, pushed at once or each after waiting for the queue to empty, up to PRE preemptions (3 quick, 4 thorough) at any lock operation, thread start or wait; the producer closes the queue or just ends, normally or with an exception, the consumer may stop early, the watcher is set before, during or never; data races are looked for at every memory access
//@ assume: sequentially consistent execution; a wait that goes on for 40 ms of virtual time after which nothing can change is one that does not end
#include "extra/vfs/formats.hpp"
#include "sx.h"
#include "threads.h"
#include <future>
#include <thread>
#include <stdexcept>
using namespace Lambda::VFS; using namespace Lambda::VFS::Formats;
static SyncQueue* q; static uint8_t body[N]; static int n, took, pushed; static bool over;
static VirtualFile item(int i) { return VirtualFile { std::vector<uint8_t>{ body[i] }, i, i + 10, std::string(1, 'a' + i) }; }
static void taken(const VirtualFile& f) { SxQuiet s; sx_assert(took < n, "an item more than were pushed was taken"); sx_assert(f.name == std::string(1, 'a' + took) && f.created == took && f.modified == took + 10 && f.buffer.size() == 1, "an item was lost, repeated, or taken out of order"); sx_assert(f.buffer[0] == body[took], "an item changed in the queue"); took++; }
static void watchdog() { std::thread([] { sx_sleep(40000000); if (!over) sx_fail("waiting did not end"); }).detach(); }
static void refused() { bool threw = false; try { q->next(); } catch (const std::exception&) { threw = true; } sx_assert(threw, "taking from an empty queue did not fail"); sx_reach("empty-refused"); }
void sx_main() {
	SyncQueue queue; q = &queue; n = sx_choice(0, N, "items"); for (int i = 0; i < n; i++) body[i] = sx_byte("body"); int mode = sx_choice(0, 2, "mode"); watchdog(); sx_preemptions = PRE;
	if (mode == 0) { // as when loading: the task produces, this thread consumes
		int end = sx_choice(0, 2, "producer"); bool watch = end != 0 || sx_choice(0, 1, "watched"); // closes; ends; fails
		auto f = std::async(std::launch::async, [&] { for (int i = 0; i < n; i++) { if (sx_self() && i == 1) sx_sleep(500000); q->push(item(i)); } if (end == 0) q->close(); if (end == 2) throw std::runtime_error("x"); });
		if (watch) queue.setPromiseExitWatcher(&f);
		while (queue.await()) { sx_assert(!queue.empty(), "a queue with an item is not empty"); taken(queue.next()); }
		sx_assert(took == n, "waiting ended with items not taken"); sx_assert(queue.done() == (end == 0), "only closing makes the queue done"); sx_assert(queue.empty(), "the queue is empty"); sx_assert(queue.awaitEmpty(), "the queue is empty"); refused();
		bool threw = false; try { f.get(); } catch (const std::runtime_error&) { threw = true; } sx_assert(threw == (end == 2), "the task's error is kept"); if (end == 1) sx_reach("watched-end"); if (end == 2) sx_reach("watched-error"); if (n == N) sx_reach("all-taken");
	} else { // as when saving: the task consumes, this thread produces
		int stop = sx_choice(0, n, "consumer stops after"); bool err = sx_choice(0, 1, "stops with an error"), stops = stop < n, watch = stops || sx_choice(0, 1, "watched"); if (!stops && err) sx_drop(); bool each = mode == 1;
		auto f = std::async(std::launch::async, [&] { while (q->await()) { if (stops && took == stop) { if (err) throw std::runtime_error("x"); return; } taken(q->next()); } });
		if (watch) queue.setPromiseExitWatcher(&f); bool gave = false;
		for (int i = 0; i < n && !gave; i++) { if (each && !queue.awaitEmpty()) { gave = true; break; } queue.push(item(i)); pushed++; }
		if (gave) { sx_assert(stops, "waiting for the queue to empty failed while its consumer was at work"); sx_reach("gave-up"); }
		queue.close(); sx_assert(queue.done(), "a closed queue is done"); bool threw = false; try { f.get(); } catch (const std::runtime_error&) { threw = true; }
		sx_assert(threw == err, "the task's error is kept"); sx_assert(took == (stops ? stop : n), "an item pushed before closing was not taken"); if (!stops) { sx_assert(queue.empty() && pushed == n, "the queue is empty"); sx_assert(!queue.await(), "no items are left"); if (n == N) sx_reach("all-taken"); }
	}
	over = true; sx_preemptions = 0; sx_reach("done");
}
