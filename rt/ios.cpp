// Parts of the iostreams library that are not in headers (symbolic build): the C locale only, integer and string insertion.
#include "sx.h"
#include <sstream>
#include <locale>
#include <istream>
#include <ostream>
#include <streambuf>
#include <system_error>
#include <cstring>
extern "C" void sx_inconclusive(const char*);
namespace std {
locale::locale() noexcept : _M_impl(nullptr) {} locale::locale(const locale&) noexcept : _M_impl(nullptr) {} locale::~locale() noexcept {} const locale& locale::operator=(const locale&) noexcept { return *this; } bool locale::operator==(const locale&) const noexcept { return true; }
const locale& locale::classic() { static locale l; return l; }
ios_base::ios_base() noexcept : _M_precision(6), _M_width(0), _M_flags(skipws | dec), _M_exception(goodbit), _M_streambuf_state(goodbit), _M_callbacks(nullptr), _M_word_zero(), _M_word_size(_S_local_word_size), _M_word(_M_local_word) {}
ios_base::~ios_base() {}
void ios_base::_M_init() noexcept { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; }
void ios_base::_M_move(ios_base& o) noexcept { _M_precision = o._M_precision; _M_width = o._M_width; _M_flags = o._M_flags; _M_exception = o._M_exception; _M_streambuf_state = o._M_streambuf_state; _M_callbacks = nullptr; _M_word = _M_local_word; _M_word_size = _S_local_word_size; }
void ios_base::_M_swap(ios_base& o) noexcept { std::swap(_M_precision, o._M_precision); std::swap(_M_width, o._M_width); std::swap(_M_flags, o._M_flags); std::swap(_M_exception, o._M_exception); std::swap(_M_streambuf_state, o._M_streambuf_state); }
void ios_base::_M_call_callbacks(event) noexcept {} void ios_base::_M_dispose_callbacks() noexcept {}
locale ios_base::imbue(const locale&) noexcept { return locale(); }
ios_base::Init::Init() {} ios_base::Init::~Init() {}
struct IoCat : error_category { const char* name() const noexcept override { return "iostream"; } string message(int) const override { return "iostream error"; } };
const error_category& iostream_category() noexcept { static IoCat c; return c; }
ios_base::failure::failure(const string& s) : system_error(io_errc::stream, s) {} ios_base::failure::failure(const string& s, const error_code& e) : system_error(e, s) {} ios_base::failure::failure(const char* s, const error_code& e) : system_error(e, s) {} ios_base::failure::~failure() {} const char* ios_base::failure::what() const noexcept { return runtime_error::what(); }
void __throw_ios_failure(const char* s) { throw ios_base::failure(s, io_errc::stream); } void __throw_ios_failure(const char* s, int e) { throw ios_base::failure(s, error_code(e, generic_category())); }
template<> basic_istream<char>& getline(basic_istream<char>& in, string& s, char d) { s.clear(); istream::sentry g(in, true); if (!g) return in; bool any = false; for (;;) { int c = in.rdbuf()->sbumpc(); if (c == EOF) { in.setstate(any ? ios_base::eofbit : ios_base::eofbit | ios_base::failbit); return in; } any = true; if ((char)c == d) return in; s.push_back((char)c); } }
template class basic_streambuf<char>; template class basic_ios<char>; template class basic_istream<char>; template class basic_ostream<char>; template class basic_iostream<char>; template class basic_stringbuf<char>; template class basic_istringstream<char>; template class basic_ostringstream<char>; template class basic_stringstream<char>;
template ostream& __ostream_insert(ostream&, const char*, streamsize); template istream& ws(istream&); template ostream& endl(ostream&); template ostream& flush(ostream&); template ostream& operator<<(ostream&, char); template ostream& operator<<(ostream&, const char*); template ostream& operator<<(ostream&, unsigned char);
}
