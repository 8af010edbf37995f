//@ src: core/http/method.cpp core/http/status.cpp core/polyfill/strings.cpp
//@ quick: -DN=9 time=100
//@ thorough: -DN=12 time=850
//@ merge: std::set<char.*>::contains
//@ flags: -fno-inline
//@ bounds: every text up to N bytes (9/12) as a method name and as the compared name (one method at a time); every 32-bit status code
//@ reach: known unknown code badcode eq ne
#include "sx.h"
#include "core/http/http.hpp"
#include <stdexcept>
using namespace Lambda::HTTP;
typedef std::string str;
static const char* names[] = {"GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "TRACE", "PATCH", "CONNECT"};
static const Methods vals[] = {Methods::GET, Methods::POST, Methods::PUT, Methods::DEL, Methods::HEAD, Methods::OPTIONS, Methods::TRACE, Methods::PATCH, Methods::CONNECT};
static bool white(char c) { return (c == ' ') | (c == '\t') | (c == '\r') | (c == '\n'); }
static uint8_t up(uint8_t c) { return sx_in(c, 'a', 'z') ? c - 32 : c; }
static bool ieq(const char* n, const str& s, size_t a, size_t b) { size_t l = __builtin_strlen(n); if (b - a != l) return false; bool r = true; for (size_t i = 0; i < l; i++) r = r & (up(s[a + i]) == (uint8_t)n[i]); return r; }
struct SC { uint32_t c; const char* t; };
static const SC codes[] = {{100,"Continue"},{101,"Switching Protocols"},{102,"Processing"},{200,"OK"},{201,"Created"},{202,"Accepted"},{203,"Non-Authoritative Information"},{204,"No Content"},{205,"Reset Content"},{206,"Partial Content"},{207,"Multi-Status"},{226,"IM Used"},{300,"Multiple Choices"},{301,"Moved Permanently"},{302,"Found"},{303,"See Other"},{304,"Not Modified"},{305,"Use Proxy"},{307,"Temporary Redirect"},{308,"Permanent Redirect"},{400,"Bad Request"},{401,"Unauthorized"},{402,"Payment Required"},{403,"Forbidden"},{404,"Not Found"},{405,"Method Not Allowed"},{406,"Not Acceptable"},{407,"Proxy Authentication Required"},{408,"Request Timeout"},{409,"Conflict"},{410,"Gone"},{411,"Length Required"},{412,"Precondition Failed"},{413,"Payload Too Large"},{414,"URI Too Long"},{415,"Unsupported Media Type"},{416,"Range Not Satisfiable"},{417,"Expectation Failed"},{418,"I'm a teapot"},{422,"Unprocessable Entity"},{423,"Locked"},{424,"Failed Dependency"},{426,"Upgrade Required"},{428,"Precondition Required"},{429,"Too Many Requests"},{431,"Request Header Fields Too Large"},{451,"Unavailable For Legal Reasons"},{500,"Internal Server Error"},{501,"Not Implemented"},{502,"Bad Gateway"},{503,"Service Unavailable"},{504,"Gateway Time-out"},{505,"HTTP Version Not Supported"},{506,"Variant Also Negotiates"},{507,"Insufficient Storage"},{511,"Network Authentication Required"}};
void sx_main() {
	switch (sx_choice(0, 2, "mode")) {
	case 0: {
		str s = sx_text(0, N, "m"); bool viaC = sx_choice(0, 1, "cstr"); if (viaC) for (char c : s) sx_assume(c != 0); size_t a = 0, b = s.size(); while (a < b && white(s[a])) a++; while (b > a && white(s[b - 1])) b--;
		int w = -1; for (int i = 0; i < 9; i++) if (ieq(names[i], s, a, b)) w = i; bool threw = false; Method m; try { if (viaC) m = Method(s.c_str()); else m = Method(s); } catch (const std::exception&) { threw = true; }
		sx_obs((uint64_t)threw, "threw"); sx_assert(threw == (w < 0), "exactly the nine methods are accepted"); if (threw || w < 0) { sx_reach("unknown"); break; }
		sx_assert((Methods)m == vals[w], "method value"); str t = m.toString(); sx_obs(t, "name"); sx_assert(sx_eq(t, names[w]), "canonical name"); sx_assert(sx_eq((str)m, names[w]), "canonical name by conversion"); sx_reach("known"); break; }
	case 1: {
		uint32_t i = sx_choice(0, 8, "i"), j = sx_choice(0, 8, "j"); Method m(names[i]), o(names[j]); sx_assert((m == o) == (i == j), "method equality"); str s = sx_text(0, N, "n"); for (char c : s) sx_assume(c != 0); bool e = ieq(names[i], s, 0, s.size());
		sx_assert((m == s) == e, "equals its name in any letter case"); sx_assert((m == s.c_str()) == e, "equals its name given as C string"); sx_reach(e ? "eq" : "ne"); break; }
	case 2: {
		uint32_t c = sx_u32("code"); bool threw = false; Status s; try { s = Status(c); } catch (const std::exception&) { threw = true; } const char* t = nullptr; for (auto& x : codes) if (x.c == c) t = x.t; sx_obs((uint64_t)threw, "threw");
		if (t) { sx_assert(!threw, "known code accepted"); sx_assert(s.code() == c, "code kept"); sx_obs(s.text(), "text"); sx_assert(sx_eq(s.text(), t), "reason text"); Status::Type k[] = {Status::Type::Unknown, Status::Type::Info, Status::Type::Success, Status::Type::Redirect, Status::Type::ClientError, Status::Type::ServerError}; sx_assert(s.type() == k[sx_concretize(c) / 100], "class by hundreds digit"); sx_reach("code"); }
		else { sx_assert(threw, "unknown code rejected"); sx_reach("badcode"); } break; }
	}
}
