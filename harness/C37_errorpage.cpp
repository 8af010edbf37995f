//@ src: core/server/errorpage.cpp core/html/renderer.cpp core/http/response.cpp core/http/status.cpp core/json/*.cpp
//@ exclude: core/html/templatemap.cpp
//@ embed: servicepage core/html/resources/servicepage.html
//@ quick: -DN=2 time=150
//@ thorough: -DN=3 time=850
//@ merge: std::set<char.*>::contains
//@ flags: -fno-inline
//@ bounds: every message up to N bytes (2/3) of any value, every known status, the three page types
//@ reach: html json text
#include "sx.h"
#include "core/server/server_impl.hpp"
#include "core/http/http.hpp"
#include "core/html/html.hpp"
#include "json_ref.h"
#include "embed_servicepage.h"
using namespace Lambda; using namespace Lambda::Server;
const std::string Lambda::HTML::Templates::servicePage((const char*)embed_servicepage, sizeof(embed_servicepage));
static const int codes[] = {100,101,102,200,201,202,203,204,205,206,207,226,300,301,302,303,304,305,307,308,400,401,402,403,404,405,406,407,408,409,410,411,412,413,414,415,416,417,418,422,423,424,426,428,429,431,451,500,501,502,503,504,505,506,507,511};
static void put(str& s, const str& k, const str& v) { size_t p = s.find("{{" + k + "}}"); if (p != str::npos) s = s.substr(0, p) + v + s.substr(p + k.size() + 4); }
void sx_main() {
	uint32_t type = sx_choice(0, 3, "type"); str msg; int code = 500;
	if (sx_choice(0, 1, "vary")) { code = codes[sx_choice(0, sizeof codes / sizeof *codes - 1, "code")]; msg = "{{svcpage_statustext}}"; } else msg = sx_text(0, N, "message");
	HTTP::Status st(code); HTTP::Response r = type == 3 ? Pages::renderErrorPage(st, msg) : Pages::renderErrorPage(st, msg, type == 0 ? ErrorResponseType::HTML : type == 1 ? ErrorResponseType::JSON : ErrorResponseType::Plain);
	str body((const char*)r.body.buffer().data(), r.body.buffer().size()); str ct = r.headers.get("content-type"); sx_assert(r.status.code() == code, "status code");
	if (type == 1) {
		sx_assert(ct.starts_with("application/json"), "content type"); R rd(body); V v = rd.value(); rd.ws(); sx_assert(rd.ok && rd.p == body.size() && v.t == 'm', "body is a JSON object"); bool what = false, ctx = false;
		for (auto& e : v.m) { if (e.first == "what") what = e.second.t == 's' && sx_eq(e.second.s, msg); if (e.first == "context") ctx = e.second.t == 's' && sx_eq(e.second.s, st.text()); if (e.first == "ok") sx_assert(e.second.t == 'b' && !e.second.i, "not ok"); } sx_assert(what, "the exact message"); sx_assert(ctx, "the status text"); sx_reach("json");
	} else if (type == 2) {
		sx_assert(ct.starts_with("text/plain"), "content type"); bool has = false; for (size_t i = 0; i + msg.size() <= body.size(); i++) has = has | (__builtin_memcmp(body.data() + i, msg.data(), msg.size()) == 0); sx_assert(has, "the exact message"); sx_obs(body, "body"); sx_reach("text");
	} else {
		sx_assert(ct.starts_with("text/html"), "content type"); str want((const char*)embed_servicepage, sizeof embed_servicepage); put(want, "svcpage_statuscode", std::to_string(code)); put(want, "svcpage_statustext", st.text()); put(want, "svcpage_message_text", msg); sx_assert(sx_eq(body, want), "page with the values in place of its placeholders"); sx_obs(body, "body"); sx_reach("html");
	}
}
