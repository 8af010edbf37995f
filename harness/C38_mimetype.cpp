//@ src: core/polyfill/mimetype.cpp
//@ quick: -DN=4 -DP=3 steps=400000000 time=300
//@ thorough: -DN=6 -DP=4 steps=400000000 time=850
//@ bounds: every file name made of up to P bytes (3/4) of any value, a dot and an extension of up to N bytes (4/6) of any value, and every dotless name of up to N bytes; 33 well-known extensions after every prefix; 20 well-known media types with any one byte of any value
//@ reach: known unknown dotless types changed
#include "sx.h"
#include "core/polyfill/polyfill.hpp"
using namespace Lambda;
typedef std::string str;
struct E { const char* e; const char* t; };
static const E wk[] = {{"htm","text/html"},{"html","text/html"},{"txt","text/plain"},{"json","application/json"},{"css","text/css"},{"csv","text/csv"},{"xml","text/xml"},{"png","image/png"},{"gif","image/gif"},{"jpg","image/jpeg"},{"jpeg","image/jpeg"},{"svg","image/svg+xml"},{"webp","image/webp"},{"avif","image/avif"},{"mp4","video/mp4"},{"webm","video/webm"},{"mpeg","video/mpeg"},{"pdf","application/pdf"},{"zip","application/zip"},{"wasm","application/wasm"},{"md","text/markdown"},{"xhtml","application/xhtml+xml"},{"ttf","font/ttf"},{"otf","font/otf"},{"woff","font/woff"},{"woff2","font/woff2"},{"tar","application/x-tar"},{"7z","application/x-7z-compressed"},{"sh","application/x-sh"},{"rtf","text/rtf"},{"ics","text/calendar"},{"xz","application/x-xz"},{"doc","application/msword"}};
static const int W = sizeof wk / sizeof *wk;
static str ext(const str& s) { return Content::getExtMimetype(s); }
void sx_main() {
	switch (sx_choice(0, 3, "mode")) {
	case 0: { uint32_t k = sx_choice(0, W - 1, "known"); str p = sx_text(0, P, "prefix"); str t = ext(p + "." + wk[k].e); sx_obs(t, "type"); sx_assert(t == wk[k].t, "the registered type"); sx_assert(ext(wk[k].e) == wk[k].t, "the registered type of a bare extension"); str u = str(".") + wk[k].e + "." + sx_text(0, 1, "tail"); sx_assert(ext(u) == ext(u.substr(__builtin_strlen(wk[k].e) + 2)), "only the last extension counts"); sx_reach("known"); break; }
	case 1: { str e = sx_text(0, N, "ext"); bool dot = false; for (char c : e) dot = dot | (c == '.'); sx_assume(!dot); bool odd = e.empty(); for (char c : e) odd = odd | !(sx_in(c, 'a', 'z') | sx_in(c, '0', '9') | (c == '-') | (c == '_')); str t = ext(e); sx_obs(t, "type"); sx_assert(!odd || t == "application/octet-stream", "an extension that is not registered"); sx_assert(t.size() > 2 && t.find('/') != str::npos, "a media type"); sx_reach(t == "application/octet-stream" ? "unknown" : "dotless"); break; }
	case 2: { str e = sx_text(1, 2, "ext"); for (char c : e) sx_assume(c != '.'); str p = sx_text(0, P, "prefix"); str t = ext(p + "." + e); sx_obs(t, "type"); sx_assert(t == ext(e), "what precedes the last dot does not matter"); break; }
	case 3: { uint32_t k = sx_choice(0, W - 1, "known"); str m = wk[k].t; uint32_t i = sx_choice(0, m.size(), "at"); bool ch = false; if (i < m.size()) { uint8_t c = sx_byte("c"); ch = sx_fork(c != (uint8_t)m[i]); m[i] = c; sx_reach("changed"); } str e = Content::getMimetypeExt(m); if (e != "bin") sx_assert(sx_eq(ext(e), m), "an extension of that type"); else sx_assert(ch, "a registered type has an extension"); if (i == m.size()) { sx_assert(Content::getMimetypeExt(m + "x") == "bin" && Content::getMimetypeExt("") == "bin", "bin for unregistered types"); sx_reach("types"); } break; }
	}
}
