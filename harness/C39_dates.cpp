//@ src: core/polyfill/date.cpp
//@ quick: -DYLO=1900 -DYHI=2199 time=200
//@ thorough: -DYLO=1000 -DYHI=9999 time=850
//@ bounds: every second of the years 1900 to 2199 (quick) or 1000 to 9999 (thorough), as the given timestamp and as the current time; the calendar of the system's gmtime_r is trusted, what is done with it is not
//@ assume: gmtime_r gives the proleptic Gregorian fields of the timestamp it is called with; strftime in the C locale
//@ reach: given current leap before
#include "sx.h"
#include <ctime>
#include "core/polyfill/polyfill.hpp"
using namespace Lambda;
typedef std::string str;
extern "C" [[noreturn]] void sx_inconclusive(const char*);
static int64_t epoch, asked; static struct tm f;
extern "C" time_t time(time_t* t) noexcept { if (t) *t = epoch; return epoch; }
static const char* const wd[] = {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"}; static const char* const mo[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
static str two(int v) { str s(2, '0'); s[0] = (char)('0' + (uint8_t)v / 10); s[1] = (char)('0' + (uint8_t)v % 10); return s; }
static str four(int v) { uint16_t u = (uint16_t)v; str s(4, '0'); s[0] = (char)('0' + u / 1000); s[1] = (char)('0' + u / 100 % 10); s[2] = (char)('0' + u / 10 % 10); s[3] = (char)('0' + u % 10); return s; }
#ifdef SX_SYMBOLIC
extern "C" size_t strftime(char* b, size_t n, const char* q, const struct tm* t) noexcept {
	str o; for (; *q; q++) { if (*q != '%') { o += *q; continue; } switch (*++q) { case 'a': o += wd[sx_concretize(t->tm_wday)]; break; case 'b': o += mo[sx_concretize(t->tm_mon)]; break; case 'd': o += two(t->tm_mday); break; case 'e': o += two(t->tm_mday); if (sx_fork(t->tm_mday < 10)) o[o.size() - 2] = ' '; break; case 'm': o += two(t->tm_mon + 1); break; case 'Y': o += four(t->tm_year + 1900); break; case 'y': o += four(t->tm_year + 1900).substr(2); break; case 'H': o += two(t->tm_hour); break; case 'M': o += two(t->tm_min); break; case 'S': o += two(t->tm_sec); break; case 'T': o += two(t->tm_hour) + ":" + two(t->tm_min) + ":" + two(t->tm_sec); break; case 'I': { int h = t->tm_hour % 12; o += two(sx_fork(h == 0) ? 12 : h); break; } case 'Z': o += "GMT"; break; case '%': o += '%'; break; default: sx_inconclusive("strftime format"); } }
	if (o.size() + 1 > n) return 0; __builtin_memcpy(b, o.c_str(), o.size() + 1); return o.size();
}
static struct tm* fields(const time_t* t, struct tm* o, bool local) { // the fields of `epoch`; of any other time, or any other zone: anything in range
	asked = *t; bool same = !local && sx_fork(*t == epoch); if (same) { *o = f; return o; }
	static const int lo[] = {0, 0, 0, 1, 0, YLO - 1900, 0}, hi[] = {59, 59, 23, 28, 11, YHI - 1900, 6}; int* p[] = {&o->tm_sec, &o->tm_min, &o->tm_hour, &o->tm_mday, &o->tm_mon, &o->tm_year, &o->tm_wday}; bool differs = false; const int q[] = {f.tm_sec, f.tm_min, f.tm_hour, f.tm_mday, f.tm_mon, f.tm_year, f.tm_wday};
	for (int i = 0; i < 7; i++) { *p[i] = (int)sx_u32("other"); sx_assume((*p[i] >= lo[i]) & (*p[i] <= hi[i])); differs = differs | (*p[i] != q[i]); } sx_assume(differs); return o;
}
extern "C" {
struct tm* gmtime_r(const time_t* t, struct tm* o) noexcept { return fields(t, o, false); }
struct tm* localtime_r(const time_t* t, struct tm* o) noexcept { return fields(t, o, true); }
static struct tm shared; struct tm* gmtime(const time_t* t) noexcept { return fields(t, &shared, false); }
struct tm* localtime(const time_t* t) noexcept { return fields(t, &shared, true); }
}
#endif
void sx_main() {
#ifndef SX_SYMBOLIC
	setenv("TZ", "XYZ-7:30", 1); tzset();
#endif
	static const int len[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}, before[] = {0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334};
	int y = (int)sx_u32("year"), d = (int)sx_u32("day"), h = (int)sx_u32("hour"), mi = (int)sx_u32("minute"), s = (int)sx_u32("second"), m = (int)sx_choice(0, 11, "month"), w = (int)sx_choice(0, 6, "weekday");
	sx_assume((y >= YLO) & (y <= YHI) & (h >= 0) & (h < 24) & (mi >= 0) & (mi < 60) & (s >= 0) & (s < 60)); bool leap = sx_fork(((y % 4 == 0) & (y % 100 != 0)) | (y % 400 == 0)); sx_assume((d >= 1) & (d <= len[m] + (m == 1 && leap)));
	int p = y - 1; int64_t days = p * 365 + p / 4 - p / 100 + p / 400 + before[m] + (m > 1 && leap) + d - 1; // days since Monday, 1 January of the year 1
#ifndef SX_SYMBOLIC
	w = (days + 1) % 7; // any weekday in the symbolic build: the code cannot know it but from gmtime_r
#endif
	
	epoch = (days - 719162) * 86400 + h * 3600 + mi * 60 + s; f = {}; f.tm_year = y - 1900; f.tm_mon = m; f.tm_mday = d; f.tm_hour = h; f.tm_min = mi; f.tm_sec = s; f.tm_wday = w; f.tm_yday = before[m] + (m > 1 && leap) + d - 1;
	if (leap && m == 1) sx_reach("leap"); if (sx_fork(epoch < 0)) sx_reach("before");
	bool now = sx_choice(0, 1, "now"); Date date = now ? Date() : Date((time_t)epoch); sx_reach(now ? "current" : "given");
	str day = two(d) + " " + mo[m] + " " + four(y), clock = two(h) + ":" + two(mi) + ":" + two(s); sx_obs(date.toHRTString(), "date");
	sx_assert(sx_eq(date.toUTCString(), str(wd[w]) + ", " + day + " " + clock + " GMT"), "the date of an HTTP header"); sx_assert(sx_eq(date.toHRTString(), day + " " + clock), "the readable date"); sx_assert(sx_eq(date.getDate(), str(wd[w]) + ", " + day), "the day");
	sx_assert((date.getTime() == epoch) & (date.getSeconds() == s) & (date.getMinutes() == mi) & (date.getHours() == h) & (date.getDay() == d) & (date.getMonth() == m) & (date.getYear() == y - 1900), "the fields");
	Date copy = date; sx_assert(sx_eq(copy.toUTCString(), date.toUTCString()) & (copy.getTime() == epoch), "a copy is the same date");
}
