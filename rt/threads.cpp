// std::thread, mutexes, condition variables, futures, call_once, sleeping and the clocks on cooperative threads.
#include "threads.h"
#include <string>
#include <functional>
#include <memory>
#include <system_error>
#include <sstream>
#define private public // std::thread::_State
#include <thread>
#undef private
#include <mutex>
#include <shared_mutex>
#include <condition_variable>
#include <future>
#include <chrono>
#include <cerrno>
#include <ctime>
#include <pthread.h>
#include <unistd.h>
int sx_preemptions = 1; bool sx_early = false; bool sx_fifo = false; int sx_thread_fail = 0; uint64_t sx_clock_ns = 1000000000ull;
namespace {
enum { RUN, WAIT, DONE };
struct T { int st = DONE; const void* key = nullptr; uint64_t until = 0; bool woken = false; std::thread::_State* state = nullptr; bool detached = false; };
enum { NT = 64 }; T th[NT]; int nth = 1, cur = 0; bool on = false;
}
#ifdef SX_SYMBOLIC
extern "C" { int sx_thread_new(void (*)(void*), void*); void sx_switch(int); void sx_hb_acquire(const void*); void sx_hb_release(const void*); }
static void base_new(int, void (*f)(void*), void* a) { sx_thread_new(f, a); }
static void base_switch(int from, int to) { cur = to; sx_switch(to); }
#else
#include <ucontext.h>
#include <cstdlib>
#include <cxxabi.h>
extern "C" { void sx_quiet(int) {} static void sx_hb_acquire(const void*) {} static void sx_hb_release(const void*) {} 
void __sanitizer_start_switch_fiber(void**, const void*, size_t) __attribute__((weak)); void __sanitizer_finish_switch_fiber(void*, const void**, size_t*) __attribute__((weak)); }
struct Fiber { ucontext_t c; void* stack = nullptr; size_t size = 0; void* fake = nullptr; void (*f)(void*) = nullptr; void* a = nullptr; char eh[16] = {}; int err = 0; };
static Fiber fb[NT]; static int prev_;
static void arrived(int me) { if (__sanitizer_finish_switch_fiber) { const void* b; size_t n; __sanitizer_finish_switch_fiber(fb[me].fake, &b, &n); if (prev_ == 0 && !fb[0].size) { fb[0].stack = (void*)b; fb[0].size = n; } } }
static void entry(int me) { arrived(me); fb[me].f(fb[me].a); abort(); }
static void base_new(int id, void (*f)(void*), void* a) { Fiber& x = fb[id]; x.size = 1 << 20; x.stack = malloc(x.size); x.f = f; x.a = a; getcontext(&x.c); x.c.uc_stack.ss_sp = x.stack; x.c.uc_stack.ss_size = x.size; x.c.uc_link = nullptr; makecontext(&x.c, (void (*)())entry, 1, id); }
static void base_switch(int from, int to) {
	cur = to; Fiber &a = fb[from], &b = fb[to]; a.err = errno; __builtin_memcpy(a.eh, (void*)abi::__cxa_get_globals(), 16); __builtin_memcpy((void*)abi::__cxa_get_globals(), b.eh, 16); prev_ = from;
	if (__sanitizer_start_switch_fiber) __sanitizer_start_switch_fiber(&a.fake, b.stack, b.size); swapcontext(&a.c, &b.c); arrived(from); errno = a.err;
}
#endif
static void pick(bool mine) { // mine: the current thread could go on
	int c[NT], n = 0; for (int i = 0; i < nth; i++) if (th[i].st == RUN && i != cur) c[n++] = i; int early = -1;
	if (mine) { if (sx_early) for (int i = 0; i < nth; i++) if (th[i].st == WAIT && th[i].until && (early < 0 || th[i].until < th[early].until)) early = i; if ((!n && early < 0) || sx_preemptions <= 0) return; int k = sx_choice(0, n + (early >= 0 ? 1 : 0), "sched"); if (k == 0) return; sx_preemptions--; int me = cur; if (k > n) { th[early].st = RUN; th[early].woken = false; if (sx_clock_ns < th[early].until) sx_clock_ns = th[early].until; base_switch(me, early); } else base_switch(me, c[k - 1]); return; }
	while (!n) { uint64_t t = 0; for (int i = 0; i < nth; i++) if (th[i].st == WAIT && th[i].until && (!t || th[i].until < t)) t = th[i].until; if (!t) sx_abort("deadlock", "every thread waits"); if (t > sx_clock_ns) sx_clock_ns = t; for (int i = 0; i < nth; i++) if (th[i].st == WAIT && th[i].until && th[i].until <= sx_clock_ns) { th[i].st = RUN; th[i].woken = false; c[n++] = i; } }
	int k = 0; if (n > 1 && sx_fifo) { for (int i = 0; i < n; i++) if (c[i] > cur) { k = i; break; } } else if (n > 1) k = sx_choice(0, n - 1, "sched"); if (c[k] == cur) return; base_switch(cur, c[k]);
}
static bool single() { return !on; }
int sx_self() { return cur; }
int sx_alive() { int n = 0; for (int i = 0; i < nth; i++) n += i == 0 || th[i].st != DONE; return n; }
void sx_yield() { if (single()) return; SxQuiet q; pick(true); }
bool sx_wait(const void* key, uint64_t until) { SxQuiet q; if (single()) { if (!until) sx_abort("deadlock", "the only thread waits"); if (until > sx_clock_ns) sx_clock_ns = until; return false; } int me = cur; T& t = th[me]; t.key = key; t.until = until; t.woken = false; t.st = WAIT; pick(false); t.st = RUN; t.until = 0; return t.woken; }
void sx_wake(const void* key) { SxQuiet q; for (int i = 0; i < nth; i++) if (th[i].st == WAIT && th[i].key == key && key) { th[i].st = RUN; th[i].woken = true; } }
void sx_sleep(uint64_t ns) { SxQuiet q; static char k; sx_wait(nullptr, sx_clock_ns + (ns ? ns : 1)); (void)k; }
static void run(void* p) { std::thread::_State* s; { SxQuiet q; s = (std::thread::_State*)p; sx_hb_acquire(&th[cur]); } [&]() noexcept { s->_M_run(); }(); delete s; SxQuiet q; sx_hb_release(&th[cur].state); th[cur].st = DONE; th[cur].state = nullptr; sx_wake(&th[cur]); pick(false); __builtin_unreachable(); }
namespace std {
thread::_State::~_State() = default;
void thread::_M_start_thread(_State_ptr s, void (*)()) { if (sx_thread_fail && --sx_thread_fail == 0) throw std::system_error(std::make_error_code(std::errc::resource_unavailable_try_again)); { SxQuiet q; if (!on) { on = true; th[0].st = RUN; } int id = nth++; if (id >= NT) sx_fail("more threads than the model has"); th[id].st = RUN; th[id].state = s.release(); sx_hb_release(&th[id]); base_new(id, run, th[id].state); *(pthread_t*)&_M_id = id + 1; } sx_yield(); }
void thread::join() { pthread_t id = *(pthread_t*)&_M_id; if (!id) throw std::system_error(std::make_error_code(std::errc::invalid_argument)); sx_yield(); SxQuiet q; T& t = th[id - 1]; while (t.st != DONE) sx_wait(&t); sx_hb_acquire(&t.state); *(pthread_t*)&_M_id = 0; }
void thread::detach() { if (!*(pthread_t*)&_M_id) throw std::system_error(std::make_error_code(std::errc::invalid_argument)); *(pthread_t*)&_M_id = 0; }
unsigned thread::hardware_concurrency() noexcept { return 2; }
condition_variable::condition_variable() noexcept {} condition_variable::~condition_variable() noexcept {}
static void cv_wait(void* c, pthread_mutex_t* m, uint64_t until, bool& ok) { pthread_mutex_unlock(m); ok = sx_wait(c, until); pthread_mutex_lock(m); }
void condition_variable::wait(unique_lock<mutex>& l) { bool ok; sx_yield(); cv_wait(this, l.mutex()->native_handle(), 0, ok); }
void condition_variable::notify_one() noexcept { sx_yield(); SxQuiet q; int c[NT], n = 0; for (int i = 0; i < nth; i++) if (th[i].st == WAIT && th[i].key == this) c[n++] = i; if (!n) return; int k = n > 1 && !sx_fifo ? sx_choice(0, n - 1, "notified") : 0; th[c[k]].st = RUN; th[c[k]].woken = true; }
void condition_variable::notify_all() noexcept { sx_yield(); sx_wake(this); }
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* a, unsigned v, bool timed, chrono::seconds s, chrono::nanoseconds ns) { sx_yield(); SxQuiet q; if (*a != v) return true; uint64_t until = timed ? (uint64_t)s.count() * 1000000000ull + ns.count() : 0; if (timed && until <= sx_clock_ns) until = sx_clock_ns + 1; return sx_wait(a, until); }
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* a, unsigned v, bool timed, chrono::seconds s, chrono::nanoseconds ns) { return _M_futex_wait_until(a, v, timed, s, ns); }
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned* a) { sx_wake(a); }
namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { SxQuiet q; return time_point(nanoseconds(sx_clock_ns)); }
system_clock::time_point system_clock::now() noexcept { SxQuiet q; return time_point(nanoseconds(sx_clock_ns)); }
} }
}
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) noexcept { sx_yield(); SxQuiet q; while (m->__data.__lock) { if (m->__data.__owner == cur + 1) { if (m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP) { m->__data.__count++; return 0; } sx_abort("deadlock", "a thread locks a mutex it already holds"); } sx_wait(m); } m->__data.__lock = 1; m->__data.__owner = cur + 1; sx_hb_acquire(m); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept { sx_yield(); SxQuiet q; if (m->__data.__lock) { if (m->__data.__owner == cur + 1 && m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP) { m->__data.__count++; return 0; } return EBUSY; } m->__data.__lock = 1; m->__data.__owner = cur + 1; sx_hb_acquire(m); return 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { SxQuiet q; if (m->__data.__count) { m->__data.__count--; return 0; } m->__data.__lock = 0; m->__data.__owner = 0; sx_hb_release(m); sx_wake(m); return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept { sx_yield(); SxQuiet q; while (m->__data.__cur_writer) { if (m->__data.__cur_writer == cur + 1) sx_abort("deadlock", "a thread locks a lock it already holds"); sx_wait(m); } m->__data.__readers++; sx_hb_acquire(m); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept { sx_yield(); SxQuiet q; while (m->__data.__cur_writer || m->__data.__readers) { if (m->__data.__cur_writer == cur + 1) sx_abort("deadlock", "a thread locks a lock it already holds"); sx_wait(m); } m->__data.__cur_writer = cur + 1; sx_hb_acquire(m); sx_hb_acquire((char*)m + 1); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept { SxQuiet q; if (m->__data.__cur_writer) { m->__data.__cur_writer = 0; sx_hb_release(m); } else { m->__data.__readers--; sx_hb_release((char*)m + 1); } sx_wake(m); return 0; }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* t) { bool ok; sx_yield(); std::cv_wait(c, m, (uint64_t)t->tv_sec * 1000000000ull + t->tv_nsec, ok); return ok ? 0 : ETIMEDOUT; }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { return pthread_cond_clockwait(c, m, 0, t); }
int pthread_once(pthread_once_t* o, void (*f)(void)) { void* c0 = std::__once_callable; void (*c1)() = std::__once_call; sx_yield(); { SxQuiet q; while (*o == 1) sx_wait(o); std::__once_callable = c0; std::__once_call = c1; if (*o == 2) { sx_hb_acquire(o); return 0; } *o = 1; } try { f(); } catch (...) { SxQuiet q; *o = 0; sx_wake(o); throw; } SxQuiet q; *o = 2; sx_hb_release(o); sx_wake(o); return 0; }
int nanosleep(const struct timespec* t, struct timespec*) { sx_sleep((uint64_t)t->tv_sec * 1000000000ull + t->tv_nsec); return 0; }
int usleep(useconds_t u) { sx_sleep((uint64_t)u * 1000); return 0; }
time_t time(time_t* t) noexcept { time_t v = 1700000000 + (time_t)(sx_clock_ns / 1000000000ull); if (t) *t = v; return v; }
}
#ifdef SX_SYMBOLIC
// parts of libstdc++ that live in the shared library
namespace std {
__future_base::_Result_base::_Result_base() = default; __future_base::_Result_base::~_Result_base() = default;
struct FutCat : error_category { const char* name() const noexcept override { return "future"; } string message(int c) const override { return c == 4 ? "Broken promise" : c == 1 ? "Future already retrieved" : c == 2 ? "Promise already satisfied" : c == 3 ? "No associated state" : "Unknown error"; } };
const error_category& future_category() noexcept { static FutCat c; return c; }
future_error::~future_error() noexcept = default; const char* future_error::what() const noexcept { return logic_error::what(); }
void __throw_future_error(int i) { throw future_error((future_errc)i); }
__thread void* __once_callable; __thread void (*__once_call)();
}
extern "C" { // initialisation of local statics: done by the first thread that gets there, the others wait for it
int __cxa_guard_acquire(char* g) { SxQuiet q; while (g[1]) sx_wait(g); if (*g) { sx_hb_acquire(g); return 0; } g[1] = 1; return 1; }
void __cxa_guard_release(char* g) { SxQuiet q; *g = 1; g[1] = 0; sx_hb_release(g); sx_wake(g); }
void __cxa_guard_abort(char* g) { SxQuiet q; g[1] = 0; sx_wake(g); }
}
extern "C" void __once_proxy() { std::__once_call(); }
namespace __cxxabiv1 { __forced_unwind::~__forced_unwind() throw() {} }
#endif
