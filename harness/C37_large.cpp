//@ src: core/server/errorpage.cpp core/html/renderer.cpp core/http/response.cpp core/http/status.cpp core/json/*.cpp
//@ exclude: core/html/templatemap.cpp
//@ embed: servicepage core/html/resources/servicepage.html
//@ quick: -DMAX=1025 time=100
//@ thorough: -DMAX=8192 time=600
//@ merge: std::set<char.*>::contains
//@ flags: -fno-inline
//@ bounds: messages of the lengths around every power of two from 15 to MAX (1025/8192) with a byte of any value at the start, the middle or the end, and messages of up to 30 fragments of markup, escapes and placeholders; the three page types
//@ reach: html json text fragments
// Long messages.
#include "large.h"
#include "core/server/server_impl.hpp"
#include "core/http/http.hpp"
#include "core/html/html.hpp"
#include "json_ref.h"
#include "embed_servicepage.h"
using namespace Lambda; using namespace Lambda::Server;
const std::string Lambda::HTML::Templates::servicePage((const char*)embed_servicepage, sizeof(embed_servicepage));
static void put(str& s, const str& k, const str& v) { size_t p = s.find("{{" + k + "}}"); if (p != str::npos) s = s.substr(0, p) + v + s.substr(p + k.size() + 4); }
void sx_main() {
	uint32_t type = sx_choice(0, 2, "type"); str msg;
	if (sx_choice(0, 1, "fragments")) { static const char* f[] = {"<b>", "\"", "\\", "{{svcpage_statuscode}}", "\n", "{{", "}}", "&amp;", "\t", "plain text", "\xc3\xa4", "'", "\x01", "{{svcpage_message_text}}", "%20"}; uint32_t n = 1 + sx_choice(0, 2, "n") * 14, s = sx_choice(0, 14, "start"), st = 1 + sx_choice(0, 1, "step"); for (uint32_t i = 0; i < n; i++) msg += f[(s + i * st) % 15]; msg += sx_str(1, "byte"); sx_reach("fragments"); }
	else { size_t n = sx_size(15, 15, MAX, "length"); uint32_t w = sx_choice(0, 2, "where"); msg = sx_large(n, "byte", {w == 0 ? 0L : w == 1 ? (long)n / 2 : -1L}); }
	HTTP::Status st(404); HTTP::Response r = Pages::renderErrorPage(st, msg, type == 0 ? ErrorResponseType::HTML : type == 1 ? ErrorResponseType::JSON : ErrorResponseType::Plain);
	str body((const char*)r.body.buffer().data(), r.body.buffer().size()), ct = r.headers.get("content-type"); sx_assert(r.status.code() == 404, "status code");
	if (type == 1) { sx_assert(ct.starts_with("application/json"), "content type"); R rd(body); V v = rd.value(); rd.ws(); sx_assert(rd.ok && rd.p == body.size() && v.t == 'm', "body is a JSON object"); bool what = false; for (auto& e : v.m) if (e.first == "what") what = e.second.t == 's' && sx_eq(e.second.s, msg); sx_assert(what, "the exact message"); sx_reach("json"); }
	else if (type == 2) { sx_assert(ct.starts_with("text/plain"), "content type"); bool has = false; for (size_t i = 0; i + msg.size() <= body.size(); i++) has = has | (__builtin_memcmp(body.data() + i, msg.data(), msg.size()) == 0); sx_assert(has, "the exact message"); sx_reach("text"); }
	else { sx_assert(ct.starts_with("text/html"), "content type"); str want((const char*)embed_servicepage, sizeof embed_servicepage); put(want, "svcpage_statuscode", "404"); put(want, "svcpage_statustext", st.text()); put(want, "svcpage_message_text", msg); sx_assert(sx_eq(body, want), "page with the values in place of its placeholders"); sx_reach("html"); }
}
