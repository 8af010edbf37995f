//@ src: core/html/renderer.cpp
//@ quick: -DN=7 -DP=3 time=150
//@ thorough: -DN=9 -DP=5 time=850
//@ bounds: every template up to N bytes (7/9) over braces, a blank, a tab, two name characters, an underscore and another character; one symbolic byte of any value inside of a placeholder; templates with two placeholders, unrelated braces before and after, and values of up to P bytes (3/5) of any content, including further placeholders
//@ reach: replaced missing plain unclosed
#include "sx.h"
#include "core/html/html.hpp"
#include <map>
using namespace Lambda::HTML;
typedef std::string str;
static bool name(uint8_t c) { return sx_in(c, 'a', 'z') | sx_in(c, 'A', 'Z') | sx_in(c, '0', '9') | (c == '_'); }
static bool blank(uint8_t c) { return (c == ' ') | (c == '\t'); }
// reads left to right: a placeholder is "{{" blanks name blanks "}}"; anything else is copied
static str ref(const str& t, const TemplateProps& props) {
	str r; size_t i = 0;
	while (i < t.size()) {
		size_t p = i; bool ok = false; str n;
		if (t.size() - i >= 5 && sx_fork((t[i] == '{') & (t[i + 1] == '{'))) {
			p = i + 2; while (p < t.size() && sx_fork(blank(t[p]))) p++; size_t a = p; while (p < t.size() && sx_fork(name(t[p]))) p++; n = t.substr(a, p - a); while (p < t.size() && sx_fork(blank(t[p]))) p++;
			ok = n.size() && p + 1 < t.size() && sx_fork((t[p] == '}') & (t[p + 1] == '}'));
		}
		if (!ok) { r += t[i++]; sx_reach("plain"); continue; }
		const str* v = nullptr; for (auto& e : props) if (sx_fork(sx_eq(e.first, n))) v = &e.second; if (v) { r += *v; sx_reach("replaced"); } else sx_reach("missing"); i = p + 2;
	}
	return r;
}
void sx_main() {
	str t; TemplateProps props;
	switch (sx_choice(0, 2, "mode")) {
	case 0: t = sx_text(0, N, "template"); for (char c : t) sx_assume(sx_oneof(c, "{} \ta_Z.")); props = {{"a", "v{{a}}"}, {"Za", "w"}, {"_", ""}}; break;
	case 1: { str x = sx_text(0, 2, "in"); t = "{{a" + x + "}} {{" + x + "b }}{"; props = {{"a", "1"}, {"b", "22"}, {"ab", "333"}, {"a_", "4"}}; break; }
	case 2: { const char* pre[] = {"", "{", "{{ x", "{{}}", "}}", "{{{"}; const char* mid[] = {"{{a}}", "{{ a\t}}", "{{b}}", "{{ c }}"}; t = str(pre[sx_choice(0, 5, "pre")]) + mid[sx_choice(0, 3, "first")] + sx_text(0, 1, "between") + mid[sx_choice(0, 3, "second")] + pre[sx_choice(0, 5, "post")]; static const char* inj[] = {"{{b}}", "{{", "}}", "{{ a }}"}; uint32_t k = sx_choice(0, 4, "value"); props["a"] = k < 4 ? str(inj[k]) : sx_text(0, P, "a"); props["b"] = "two"; break; }
	}
	if (t.find("{{") != str::npos && t.find("}}") == str::npos) sx_reach("unclosed");
	str w = ref(t, props), g = renderTemplate(t, props); sx_obs(g, "rendered"); sx_assert(sx_eq(g, w), "rendered text");
}
