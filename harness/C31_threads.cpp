// Two threads use one storage at the same time.
//@ src: extra/kvstorage/*.cpp
//@ stubs: threads
//@ shadow: fs
//@ nojoin: 1
//@ races: 1
//@ quick: -DK=2 -DPRE=2 -DMAXR=1 time=300
//@ thorough: -DK=2 -DPRE=4 -DMAXR=3 time=850
//@ reach: overlap done
//@ bounds: two threads of two operations each (set of two keys to values that tell the operations apart, remove, clear, get, has, size; at most 1 of the last three quick, 3 thorough), up to PRE preemptions (2 quick, 4 thorough) at any lock operation; data races are looked for at every memory access
//@ assume: sequentially consistent execution; the file system model (rt/shadow/fs)
#include "extra/kvstorage/kvstorage.hpp"
#include "kv_ref.h"
#include "threads.h"
#include <fstream>
#include <filesystem>
#include <memory>
#include <thread>
using namespace Lambda::Storage;
struct Act { uint32_t op; str key, val; str res; };
static Act acts[2][2];
static void apply(LocalStorage& s, Act& a) { switch (a.op) { case 0: s.setItem(a.key, a.val); break; case 1: s.removeItem(a.key); break; case 2: s.clear(); break; case 3: a.res = s.getItem(a.key); break; case 4: a.res = s.hasItem(a.key) ? "y" : "n"; break; default: a.res = str(1, '0' + (char)s.size()); } }
static str ref(Map& m, const Act& a) { switch (a.op) { case 0: set_(m, a.key, a.val); return ""; case 1: del_(m, a.key); return ""; case 2: m.clear(); return ""; case 3: { long i = at_(m, a.key); return i < 0 ? "" : m[i].second; } case 4: return at_(m, a.key) >= 0 ? "y" : "n"; default: return str(1, '0' + (char)m.size()); } }
static bool explain(Map m, int i, int j, LocalStorage& s, LocalStorage& t) {
	if (i == K && j == K) return holds_(s, m) && holds_(t, m);
	for (int k = 0; k < 2; k++) { int& n = k ? j : i; if (n == K) continue; Map c = m; Act& a = acts[k][n]; if (ref(c, a) != a.res) continue; if (explain(c, i + !k, j + k, s, t)) return true; } return false;
}
void sx_main() {
	sxfs::add("/w", sxfs::DIR_); auto s = std::make_unique<LocalStorage>("s.ldb"); s->setItem("a", "0"); Map m = {{"a", "0"}};
	for (int t = 0; t < 2; t++) for (int i = 0; i < K; i++) { Act& a = acts[t][i]; a.op = sx_choice(0, 5, "op"); if (a.op == 0 || a.op == 1 || a.op == 3 || a.op == 4) a.key = sx_choice(0, 1, "key") ? "a" : "b"; a.val = str(1, 'A' + t * 2 + i); }
	if (acts[0][0].op > acts[1][0].op) sx_drop(); // the threads are alike
	int reads = 0; for (auto& t : acts) for (auto& a : t) reads += a.op >= 3; if (reads > MAXR) sx_drop();
	sx_preemptions = PRE; int running = 0; auto work = [&](int t) { { SxQuiet q; running++; if (running == 2) sx_reach("overlap"); } for (int i = 0; i < K; i++) apply(*s, acts[t][i]); SxQuiet q; running--; };
	std::thread x(work, 0), y(work, 1); x.join(); y.join(); sx_preemptions = 0; sx_reach("done");
	str bytes = sxfs::find("/w/s.ldb")->data; sxfs::add("/w/c.ldb", sxfs::FILE_, bytes); LocalStorage t("c.ldb"); sx_assert(explain(m, 0, 0, *s, t), "no order of the operations explains the results and the contents in memory and in the file");
}
