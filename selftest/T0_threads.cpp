//@ src: core/polyfill/strings.cpp
//@ stubs: threads
//@ races: 1
//@ nojoin: 1
//@ quick: time=50
//@ reach: done 
#include "sx.h"
#include "threads.h"
#include <thread>
#include <future>
#include <mutex>
void sx_main() {
	sx_preemptions = 2; int x = 0; std::mutex m; bool race = sx_choice(0, 3, "race") == 1;
	std::thread t([&]() { if (race) { x++; return; } std::lock_guard<std::mutex> l(m); x++; });
	auto f = std::async([&]() { std::lock_guard<std::mutex> l(m); int y = x; x = y + 1; if (y == 1) throw std::runtime_error("boo"); return y; });
	{ std::lock_guard<std::mutex> l(m); x++; }
	while (f.wait_for(std::chrono::milliseconds(1)) != std::future_status::ready); bool threw = false; int v = -1; try { v = f.get(); } catch (const std::exception& e) { threw = std::string(e.what()) == "boo"; }
	t.join(); sx_obs((uint64_t)v, "v"); sx_obs((uint64_t)threw, "threw"); sx_assert(x == 3, "sum"); sx_assert(threw == (v == -1), "res"); sx_reach(threw ? "threw" : "done");
}
