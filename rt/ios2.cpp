// Members of the stream templates that need locale facets in the real library, by their link names.
#include "sx.h"
#include <string>
#include <istream>
#include <ostream>
#include <locale>
extern "C" void sx_inconclusive(const char*);
using namespace std;
alignas(16) static char ctype_mem[sizeof(ctype<char>)];
static const ctype<char>* the_ctype() { ctype<char>* c = (ctype<char>*)ctype_mem; if (!c->_M_widen_ok) { c->_M_widen_ok = 1; c->_M_narrow_ok = 1; for (int i = 0; i < 256; i++) c->_M_widen[i] = c->_M_narrow[i] = (char)i; static ctype_base::mask t[256]; for (int i = 0; i < 256; i++) t[i] = (isspace(i) ? ctype_base::space : 0) | (isdigit(i) ? ctype_base::digit : 0) | (isupper(i) ? ctype_base::upper : 0) | (islower(i) ? ctype_base::lower : 0) | (isalpha(i) ? ctype_base::alpha : 0) | (isxdigit(i) ? ctype_base::xdigit : 0) | (ispunct(i) ? ctype_base::punct : 0) | (isprint(i) ? ctype_base::print : 0) | (iscntrl(i) ? ctype_base::cntrl : 0); c->_M_table = t; } return c; }
static void putnum(ostream& o, bool neg, unsigned long v) {
	char b[32]; int i = 32; auto f = o.flags(); unsigned base = f & ios_base::hex ? 16 : f & ios_base::oct ? 8 : 10; const char* d = f & ios_base::uppercase ? "0123456789ABCDEF" : "0123456789abcdef"; if (base != 10) neg = false; do b[--i] = d[v % base]; while (v /= base);
	if (f & ios_base::showbase && base != 10 && v) sx_inconclusive("showbase"); string s(b + i, 32 - i); if (neg) s.insert(0, 1, '-'); size_t w = o.width() > 0 ? o.width() : 0; o.width(0); if (s.size() < w) { if (f & ios_base::left) s.append(w - s.size(), o.fill()); else if (f & ios_base::internal) s.insert(neg ? 1 : 0, w - s.size(), o.fill()); else s.insert(0, w - s.size(), o.fill()); } ostream::sentry g(o); if (g && o.rdbuf()->sputn(s.data(), s.size()) != (streamsize)s.size()) o.setstate(ios_base::badbit);
}

extern "C" {
void sx_ios1(basic_ios<char>* t, const locale&) asm("_ZNSt9basic_iosIcSt11char_traitsIcEE15_M_cache_localeERKSt6locale"); void sx_ios1(basic_ios<char>* t, const locale&) { t->_M_ctype = the_ctype(); t->_M_num_put = nullptr; t->_M_num_get = nullptr; }
ostream& sx_ios2(ostream* o, long v) asm("_ZNSo9_M_insertIlEERSoT_"); ostream& sx_ios2(ostream* o, long v) { auto f = o->flags() & (ios_base::hex | ios_base::oct); putnum(*o, v < 0, v < 0 && !f ? 0ul - (unsigned long)v : (unsigned long)v); return *o; }
ostream& sx_ios3(ostream* o, unsigned long v) asm("_ZNSo9_M_insertImEERSoT_"); ostream& sx_ios3(ostream* o, unsigned long v) { putnum(*o, false, v); return *o; }
ostream& sx_ios4(ostream* o, long v) asm("_ZNSo9_M_insertIxEERSoT_"); ostream& sx_ios4(ostream* o, long v) { return sx_ios2(o, v); }
ostream& sx_ios5(ostream* o, unsigned long v) asm("_ZNSo9_M_insertIyEERSoT_"); ostream& sx_ios5(ostream* o, unsigned long v) { return sx_ios3(o, v); }
ostream& sx_ios6(ostream* o, bool v) asm("_ZNSo9_M_insertIbEERSoT_"); ostream& sx_ios6(ostream* o, bool v) { if (o->flags() & ios_base::boolalpha) return __ostream_insert(*o, v ? "true" : "false", v ? 4 : 5); return sx_ios3(o, v); }
istream& sx_ios7(istream* in, streamsize n, int d) asm("_ZNSi6ignoreEli"); istream& sx_ios7(istream* in, streamsize n, int d) { in->_M_gcount = 0; istream::sentry g(*in, true); if (g) while (in->_M_gcount < n) { int c = in->rdbuf()->sbumpc(); if (c == EOF) { in->setstate(ios_base::eofbit); break; } in->_M_gcount++; if (c == d) break; } return *in; }
istream& sx_ios8(istream* in, streamsize n) asm("_ZNSi6ignoreEl"); istream& sx_ios8(istream* in, streamsize n) { return sx_ios7(in, n, -1); }
}
