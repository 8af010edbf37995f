// Symbolic-build implementation of the parts of libstdc++/libc that are not in headers.
#include "sx.h"
#include <stdexcept>
#include <exception>
#include <map>
#include <functional>
#include <unordered_map>
#include <system_error>
#include <new>
#include <cstring>
#include <typeinfo>
#include <ctime>
#include <cstdio>
#include <cerrno>
#include <cstdarg>
#include <pthread.h>
#include <system_error>
extern "C" {
void sx_unwind(void*, const void*); double sx_strtod(const char*, size_t*); void sx_inconclusive(const char*); void* malloc(size_t); void free(void*);
void (*sx_ctor_table[256])() = {(void(*)())1};
void sx_start() { for (int i = 0; i < 256 && sx_ctor_table[i]; i++) sx_ctor_table[i](); sx_main(); sx_exit(); }
void* __dso_handle = nullptr;
int __cxa_atexit(void (*)(void*), void*, void*) { return 0; }
int atexit(void (*)()) { return 0; }
int __cxa_thread_atexit(void (*)(void*), void*, void*) { return 0; }
void __cxa_pure_virtual() { sx_abort("ub", "pure virtual call"); }
char __libc_single_threaded = 0;
// ---- exceptions ----
struct Hdr { const std::type_info* ti; void (*dtor)(void*); long refs; long handlers; Hdr* next; long pad[3]; };
static thread_local Hdr* caught = nullptr; static thread_local int uncaught = 0;
static Hdr* H(void* o) { return (Hdr*)o - 1; }
void* __cxa_allocate_exception(size_t n) { Hdr* h = (Hdr*)malloc(sizeof(Hdr) + n); memset(h, 0, sizeof(Hdr)); return h + 1; }
void __cxa_free_exception(void* o) { free(H(o)); }
static void unref(Hdr* h) { if (--h->refs == 0) { if (h->dtor) h->dtor(h + 1); free(h); } }
void __cxa_throw(void* o, std::type_info* ti, void (*d)(void*)) { Hdr* h = H(o); h->ti = ti; h->dtor = d; h->refs = 1; uncaught++; sx_unwind(o, ti); __builtin_unreachable(); }
__cxxabiv1::__cxa_refcounted_exception* __cxa_init_primary_exception_(void* o, std::type_info* ti, void (*d)(void*)) asm("__cxa_init_primary_exception"); __cxxabiv1::__cxa_refcounted_exception* __cxa_init_primary_exception_(void* o, std::type_info* ti, void (*d)(void*)) { Hdr* h = H(o); h->ti = ti; h->dtor = d; h->refs = 0; return (__cxxabiv1::__cxa_refcounted_exception*)h; }
void* __cxa_begin_catch(void* o) { Hdr* h = H(o); if (h->handlers < 0) h->handlers = -h->handlers + 1; else h->handlers++; if (caught != h) { h->next = caught; caught = h; } uncaught--; return o; }
void* __cxa_get_exception_ptr(void* o) { return o; }
void __cxa_end_catch() { Hdr* h = caught; if (!h) return; if (h->handlers < 0) { if (++h->handlers == 0) caught = h->next; } else if (--h->handlers == 0) { caught = h->next; unref(h); } }
void __cxa_rethrow() { Hdr* h = caught; if (!h) sx_abort("terminate", "rethrow without an exception"); h->handlers = -h->handlers; uncaught++; sx_unwind(h + 1, h->ti); __builtin_unreachable(); }
__attribute__((weak)) int __cxa_guard_acquire(char* g) { return !*g; }
__attribute__((weak)) void __cxa_guard_release(char* g) { *g = 1; }
__attribute__((weak)) void __cxa_guard_abort(char*) {}
void __cxa_bad_cast() { throw std::bad_cast(); }
void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); }
void sx_throw_bad_alloc() { throw std::bad_alloc(); }
void __clang_call_terminate_rt() { sx_abort("terminate", "std::terminate"); }
void __assert_fail(const char* e, const char*, unsigned, const char*) { sx_abort("abort", e); }
void abort() { sx_abort("abort", "abort() called"); }
// ---- libc ----
static thread_local int errno_v;
int* __errno_location() { return &errno_v; }
int isalnum(int c) { return ((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')); }
int isalpha(int c) { return ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')); }
int isdigit(int c) { return (c >= '0') & (c <= '9'); }
int isxdigit(int c) { return ((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F')); }
int isspace(int c) { return (c == 32) | ((c >= 9) & (c <= 13)); }
int isupper(int c) { return (c >= 'A') & (c <= 'Z'); }
int islower(int c) { return (c >= 'a') & (c <= 'z'); }
int isprint(int c) { return (c >= 32) & (c <= 126); }
int iscntrl(int c) { return ((c >= 0) & (c < 32)) | (c == 127); }
int ispunct(int c) { return isprint(c) & !isalnum(c) & (c != 32); }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
int toupper(int c) { return islower(c) ? c - 32 : c; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) a++, b++; return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { while (n && *a && *a == *b) a++, b++, n--; return n ? (unsigned char)*a - (unsigned char)*b : 0; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
static const char* chr_(const char* s, int c) { for (;; s++) { if (*s == (char)c) return s; if (!*s) return nullptr; } }
char* sx_strchr(const char* s, int c) asm("strchr"); char* sx_strchr(const char* s, int c) { return (char*)chr_(s, c); }
size_t strspn(const char* s, const char* a) { size_t i = 0; for (; s[i] && chr_(a, s[i]); i++); return i; }
static unsigned digitv(unsigned char c) { unsigned r = 99; r = (c >= '0') & (c <= '9') ? c - '0' : r; r = (c >= 'a') & (c <= 'z') ? c - 'a' + 10 : r; r = (c >= 'A') & (c <= 'Z') ? c - 'A' + 10 : r; return r; }
static unsigned long long strtox(const char* s, char** e, int base, bool sgn, bool& neg) {
	const char* p = s; while (isspace((unsigned char)*p)) p++; neg = false; if (*p == '-') { neg = true; p++; } else if (*p == '+') p++;
	if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && digitv(p[2]) < 16) { p += 2; base = 16; } else if (base == 0) base = *p == '0' ? 8 : 10;
	const char* st = p; unsigned __int128 v = 0; bool ovf = false; for (;; p++) { unsigned d = digitv(*p); if (d >= (unsigned)base) break; if (p - st > 24) ovf = true; else v = v * base + d; }
	if (e) *e = (char*)(p == st ? s : p);
	unsigned __int128 lim = sgn ? (neg ? ((unsigned __int128)1 << 63) : (((unsigned __int128)1 << 63) - 1)) : (unsigned __int128)~0ull; if (v > lim) ovf = true; if (ovf) { errno_v = ERANGE; return (unsigned long long)lim; } return (unsigned long long)v;
}
long long __isoc23_strtoll(const char* s, char** e, int b) { bool n; unsigned long long v = strtox(s, e, b, true, n); return n ? (long long)(0 - v) : (long long)v; }
unsigned long long __isoc23_strtoull(const char* s, char** e, int b) { bool n; int before = errno_v; errno_v = 0; unsigned long long v = strtox(s, e, b, false, n); bool o = errno_v != 0; if (!o) errno_v = before; return (n && !o) ? 0 - v : v; }
long __isoc23_strtol(const char* s, char** e, int b) { return __isoc23_strtoll(s, e, b); }
unsigned long __isoc23_strtoul(const char* s, char** e, int b) { return __isoc23_strtoull(s, e, b); }
double strtod(const char* s, char** e) { const char* p = s; while (isspace((unsigned char)*p)) p++; size_t u = 0; double d = sx_strtod(p, &u); if (e) *e = (char*)(u ? p + u : s); return d; }
float strtof(const char* s, char** e) { return strtod(s, e); }
long double strtold(const char* s, char** e) { return strtod(s, e); }
int vsnprintf(char*, size_t, const char*, va_list);
int snprintf(char* b, size_t n, const char* f, ...) { va_list a; va_start(a, f); int r = vsnprintf(b, n, f, a); va_end(a); return r; }
int sprintf(char* b, const char* f, ...) { va_list a; va_start(a, f); int r = vsnprintf(b, 4096, f, a); va_end(a); return r; }
int printf(const char*, ...) { return 0; }
int fprintf(FILE*, const char*, ...) { return 0; }
int vfprintf(FILE*, const char*, va_list) { return 0; }
#define WEAK __attribute__((weak))
WEAK int puts(const char*) { return 0; } int putchar(int c) { return c; } WEAK int fputc(int c, FILE*) { return c; } WEAK int putc(int c, FILE*) { return c; } WEAK int fputs(const char*, FILE*) { return 0; } int fflush(FILE*) { return 0; }
WEAK size_t fwrite(const void*, size_t, size_t n, FILE*) { return n; }
int64_t sx_now = 1700000000;
// locks when there is one thread only (threads.cpp replaces them)
WEAK int pthread_mutex_lock(pthread_mutex_t* m) noexcept { if (m->__data.__lock && m->__data.__kind != PTHREAD_MUTEX_RECURSIVE_NP) sx_abort("deadlock", "a thread locks a mutex it already holds"); m->__data.__lock++; return 0; }
WEAK int pthread_mutex_trylock(pthread_mutex_t* m) noexcept { if (m->__data.__lock && m->__data.__kind != PTHREAD_MUTEX_RECURSIVE_NP) return EBUSY; m->__data.__lock++; return 0; }
WEAK int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { m->__data.__lock--; return 0; }
WEAK int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept { if (m->__data.__cur_writer) sx_abort("deadlock", "a thread locks a lock it already holds"); m->__data.__readers++; return 0; }
WEAK int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept { if (m->__data.__cur_writer || m->__data.__readers) sx_abort("deadlock", "a thread locks a lock it already holds"); m->__data.__cur_writer = 1; return 0; }
WEAK int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept { if (m->__data.__cur_writer) m->__data.__cur_writer = 0; else m->__data.__readers--; return 0; }
WEAK time_t time(time_t* t) { if (t) *t = sx_now; return sx_now; }
WEAK struct tm* gmtime_r(const time_t* t, struct tm* o) {
	int64_t s = *t, days = s / 86400, rem = s % 86400; if (rem < 0) { rem += 86400; days--; } o->tm_hour = rem / 3600; o->tm_min = rem / 60 % 60; o->tm_sec = rem % 60; o->tm_wday = (int)(((days + 4) % 7 + 7) % 7);
	int64_t z = days + 719468, era = (z >= 0 ? z : z - 146096) / 146097; unsigned doe = z - era * 146097, yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365; int64_t y = yoe + era * 400; unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153, d = doy - (153 * mp + 2) / 5 + 1, m = mp < 10 ? mp + 3 : mp - 9; o->tm_year = y + (m <= 2) - 1900; o->tm_mon = m - 1; o->tm_mday = d; o->tm_isdst = 0; o->tm_yday = 0; return o;
}
WEAK size_t strftime(char* b, size_t n, const char* f, const struct tm* t) {
	static const char* wd[] = {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"}; static const char* mo[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"}; size_t k = 0; auto put = [&](char c) { if (k + 1 < n) b[k] = c; k++; }; auto num = [&](int v, int w) { char t[12]; int i = 0; do { t[i++] = '0' + v % 10; v /= 10; } while (v || i < w); while (i) put(t[--i]); };
	for (; *f; f++) { if (*f != '%') { put(*f); continue; } switch (*++f) { case 'a': for (const char* s = wd[t->tm_wday]; *s; s++) put(*s); break; case 'b': for (const char* s = mo[t->tm_mon]; *s; s++) put(*s); break; case 'd': num(t->tm_mday, 2); break; case 'm': num(t->tm_mon + 1, 2); break; case 'Y': num(t->tm_year + 1900, 4); break; case 'H': num(t->tm_hour, 2); break; case 'M': num(t->tm_min, 2); break; case 'S': num(t->tm_sec, 2); break; case 'T': num(t->tm_hour, 2); put(':'); num(t->tm_min, 2); put(':'); num(t->tm_sec, 2); break; case 'Z': put('G'); put('M'); put('T'); break; default: sx_inconclusive("strftime format"); } }
	if (n) b[k < n ? k : n - 1] = 0; return k < n ? k : 0;
}
}
namespace __cxxabiv1 { extern "C" void __cxa_call_unexpected(void*) { sx_abort("terminate", "unexpected exception"); } }
namespace std {
void terminate() noexcept { sx_abort("terminate", "std::terminate"); }
bool uncaught_exception() noexcept { return uncaught > 0; }
int uncaught_exceptions() noexcept { return uncaught; }
exception::~exception() noexcept {} const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {} const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {} const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {} const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {} const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {} const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {} const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
static const char* dup(const char* s, size_t n) { long* p = (long*)malloc(n + 9); p[0] = 1; char* c = (char*)(p + 1); memcpy(c, s, n); c[n] = 0; return c; }
__cow_string::__cow_string() : _M_p(dup("", 0)) {}
__cow_string::__cow_string(const std::string& s) : _M_p(dup(s.data(), s.size())) {}
__cow_string::__cow_string(const char* s, size_t n) : _M_p(dup(s, n)) {}
__cow_string::__cow_string(const __cow_string& o) noexcept : _M_p(o._M_p) { ++((long*)_M_p)[-1]; }
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { ++((long*)o._M_p)[-1]; if (--((long*)_M_p)[-1] == 0) free((long*)_M_p - 1); _M_p = o._M_p; return *this; }
__cow_string::~__cow_string() { if (--((long*)_M_p)[-1] == 0) free((long*)_M_p - 1); }
__cow_string::__cow_string(__cow_string&& o) noexcept : _M_p(o._M_p) { ++((long*)_M_p)[-1]; }
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { return *this = (const __cow_string&)o; }
#define EXC(T) T::T(const string& s) : _M_msg(s) {} T::T(const char* s) : _M_msg(s, strlen(s)) {} T::T(const T& o) noexcept : exception(o), _M_msg(o._M_msg) {} T& T::operator=(const T& o) noexcept { _M_msg = o._M_msg; return *this; } T::T(T&& o) noexcept : exception(o), _M_msg(o._M_msg) {} T& T::operator=(T&& o) noexcept { _M_msg = o._M_msg; return *this; } T::~T() noexcept {} const char* T::what() const noexcept { return _M_msg._M_p; }
EXC(logic_error) EXC(runtime_error)
#define EXD(T, P) T::T(const string& s) : P(s) {} T::T(const char* s) : P(s) {} T::~T() noexcept {}
EXD(domain_error, logic_error) EXD(invalid_argument, logic_error) EXD(length_error, logic_error) EXD(out_of_range, logic_error) EXD(range_error, runtime_error) EXD(overflow_error, runtime_error) EXD(underflow_error, runtime_error)
void __throw_bad_exception() { throw bad_exception(); } void __throw_bad_alloc() { throw bad_alloc(); } void __throw_bad_array_new_length() { throw bad_array_new_length(); } void __throw_bad_cast() { throw bad_cast(); } void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_logic_error(const char* s) { throw logic_error(s); } void __throw_domain_error(const char* s) { throw domain_error(s); } void __throw_invalid_argument(const char* s) { throw invalid_argument(s); } void __throw_length_error(const char* s) { throw length_error(s); } void __throw_out_of_range(const char* s) { throw out_of_range(s); } void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); } void __throw_runtime_error(const char* s) { throw runtime_error(s); } void __throw_bad_function_call() { throw bad_function_call(); }
void __glibcxx_assert_fail(const char*, int, const char*, const char* c) noexcept { sx_abort("ub", c ? c : "libstdc++ assertion"); }
// ---- system_error ----
inline namespace _V2 {
error_category::~error_category() = default;
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
bool error_category::equivalent(int i, const error_condition& c) const noexcept { return default_error_condition(i) == c; }
bool error_category::equivalent(const error_code& c, int i) const noexcept { return *this == c.category() && c.value() == i; }
struct GenCat : error_category { const char* nm; GenCat(const char* n) : nm(n) {} const char* name() const noexcept override { return nm; } string message(int c) const override { return "error " + to_string(c); } error_condition default_error_condition(int i) const noexcept override { return error_condition(i, generic_category()); } };
const error_category& generic_category() noexcept { static GenCat c("generic"); return c; }
const error_category& system_category() noexcept { static GenCat c("system"); return c; }
}
extern "C" void sx_cow_message() asm("_ZNKSt3_V214error_category10_M_messageEi"); extern "C" void sx_cow_message() { sx_abort("abort", "cow message"); }
error_condition error_code::default_error_condition() const noexcept { return category().default_error_condition(value()); }
system_error::~system_error() noexcept = default;
void __throw_system_error(int i) { throw system_error(error_code(i, generic_category())); }
// ---- exception_ptr ----
namespace __exception_ptr {
exception_ptr::exception_ptr(void* e) noexcept : _M_exception_object(e) { _M_addref(); }
void exception_ptr::_M_addref() noexcept { if (_M_exception_object) ++H(_M_exception_object)->refs; }
void exception_ptr::_M_release() noexcept { if (_M_exception_object) { unref(H(_M_exception_object)); _M_exception_object = nullptr; } }
void* exception_ptr::_M_get() const noexcept { return _M_exception_object; }
}
exception_ptr current_exception() noexcept { if (!caught) return exception_ptr(); return exception_ptr((void*)(caught + 1)); }
void rethrow_exception(exception_ptr p) { void* o = *(void**)&p; ++H(o)->refs; uncaught++; p.~exception_ptr(); new (&p) exception_ptr(); sx_unwind(o, H(o)->ti); __builtin_unreachable(); }
// ---- red-black tree ----
typedef _Rb_tree_node_base NB;
static NB* rbinc(NB* x) { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { NB* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
static NB* rbdec(NB* x) { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { NB* y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; } else { NB* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
NB* _Rb_tree_increment(NB* x) noexcept { return rbinc(x); } const NB* _Rb_tree_increment(const NB* x) noexcept { return rbinc((NB*)x); }
NB* _Rb_tree_decrement(NB* x) noexcept { return rbdec(x); } const NB* _Rb_tree_decrement(const NB* x) noexcept { return rbdec((NB*)x); }
static void rotL(NB* x, NB*& root) { NB* y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y; y->_M_left = x; x->_M_parent = y; }
static void rotR(NB* x, NB*& root) { NB* y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y; y->_M_right = x; x->_M_parent = y; }
void _Rb_tree_insert_and_rebalance(const bool left, NB* x, NB* p, NB& header) noexcept {
	NB*& root = header._M_parent; x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_red;
	if (left) { p->_M_left = x; if (p == &header) { header._M_parent = x; header._M_right = x; } else if (p == header._M_left) header._M_left = x; } else { p->_M_right = x; if (p == header._M_right) header._M_right = x; }
	while (x != root && x->_M_parent->_M_color == _S_red) { NB* g = x->_M_parent->_M_parent; if (x->_M_parent == g->_M_left) { NB* u = g->_M_right; if (u && u->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; u->_M_color = _S_black; g->_M_color = _S_red; x = g; } else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotL(x, root); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotR(g, root); } } else { NB* u = g->_M_left; if (u && u->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; u->_M_color = _S_black; g->_M_color = _S_red; x = g; } else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotR(x, root); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotL(g, root); } } }
	root->_M_color = _S_black;
}
NB* _Rb_tree_rebalance_for_erase(NB* const z, NB& header) noexcept { // plain BST removal (order is preserved, balance is not)
	NB*& root = header._M_parent; NB* rep; if (header._M_left == z) header._M_left = z->_M_right || z->_M_parent == &header ? rbinc(z) : z->_M_parent; if (header._M_right == z) header._M_right = z->_M_left || z->_M_parent == &header ? rbdec(z) : z->_M_parent;
	auto replace = [&](NB* a, NB* b) { if (root == a) root = b; else if (a->_M_parent->_M_left == a) a->_M_parent->_M_left = b; else a->_M_parent->_M_right = b; if (b) b->_M_parent = a->_M_parent; };
	if (!z->_M_left) { rep = z->_M_right; replace(z, rep); } else if (!z->_M_right) { rep = z->_M_left; replace(z, rep); }
	else { NB* y = z->_M_right; while (y->_M_left) y = y->_M_left; if (y->_M_parent != z) { replace(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; } replace(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y; y->_M_color = z->_M_color; }
	if (root) root->_M_color = _S_black; else { header._M_left = &header; header._M_right = &header; }
	return z;
}
// ---- unordered containers ----
namespace __detail {
static const unsigned long primes[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 103, 109, 113, 127, 137, 139, 149, 157, 167, 179, 193, 199, 211, 227, 241, 257, 277, 293, 313, 337, 359, 383, 409, 439, 467, 503, 541, 577, 619, 661, 709, 761, 823, 887, 953, 1031, 1109, 1193, 1289, 1381, 1493, 1613, 1741, 1879, 2029, 2179, 2357, 2549};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { if (n < 2) { if (n == 0) return 1; } for (auto p : primes) if (p >= n) { _M_next_resize = p; return p; } sx_inconclusive("hash table too large"); return n; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const { if (ne + ni > _M_next_resize) { size_t mn = ne + ni; size_t lo = _M_next_resize ? 0 : 11; if (mn < lo) mn = lo; if (mn >= nb) return {true, _M_next_bkt(mn + 1 > nb * 2 ? mn + 1 : nb * 2)}; _M_next_resize = nb; return {false, 0}; } return {false, 0}; }
}
size_t _Hash_bytes(const void*, size_t len, size_t) { return 7 * len + 1; }
}
void* operator new(size_t n, const std::nothrow_t&) noexcept { return operator new(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return operator new[](n); }
void operator delete(void* p, const std::nothrow_t&) noexcept { operator delete(p); }
