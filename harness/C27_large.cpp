//@ src: core/html/renderer.cpp
//@ quick: -DMAX=1025 time=100
//@ thorough: -DMAX=16384 time=600
//@ flags: -fno-inline
//@ bounds: templates of up to 60 placeholders of 8 names (one unknown, one a prefix of another, values with placeholders in them or empty), with text of one length around a power of two from 15 to MAX (1025/16384) between two of them, a value or a name of such a length; arbitrary bytes at the ends of texts and values
//@ reach: many longtext longvalue longname blanks
// Many placeholders, long texts, values and names.
#include "large.h"
#include "core/html/html.hpp"
#include <map>
using namespace Lambda::HTML;
typedef std::string str;
void sx_main() {
	static const char* names[] = {"a", "ab", "B_2", "_", "long_name_of_a_placeholder", "x9", "none", "z"}; TemplateProps props = {{"a", "<{{ab}}>"}, {"ab", ""}, {"B_2", "two"}, {"_", "}}{{"}, {"long_name_of_a_placeholder", "L"}, {"x9", "9"}, {"z", "{{z}}"}}; str t, want; uint32_t kind = sx_choice(0, 3, "kind");
	auto ph = [&](uint32_t i) { const char* n = names[i % 8]; t += i % 3 == 0 ? "{{" : i % 3 == 1 ? "{{ " : "{{\t  "; t += n; t += i % 2 ? "}}" : "  }}"; auto e = props.find(n); if (e != props.end()) want += e->second; };
	if (kind == 0) { static const uint32_t cnt[] = {3, 9, 20, 60}; uint32_t n = cnt[sx_choice(0, 3, "placeholders")], step = sx_choice(1, 3, "step"); str c = sx_str(1, "c"); sx_assume(c[0] != '{'); sx_assume(c[0] != '}'); for (uint32_t i = 0; i < n; i++) { ph(i * step); if (i % 4 == 1) { t += c; want += c; } if (i % 5 == 2) { t += "text"; want += "text"; } } sx_reach("many"); }
	else { size_t n = sx_size(15, 15, MAX, "length");
		if (kind == 1) { str x = sx_large(n, "text"); for (char c : {x[0], x[n - 1]}) { sx_assume(c != '{'); sx_assume(c != '}'); } ph(0); t += x; want += x; ph(2); t += x; want += x; ph(5); sx_reach("longtext"); }
		else if (kind == 2) { props["a"] = sx_large(n, "value"); ph(2); ph(0); t += "-"; want += "-"; ph(8); sx_reach("longvalue"); }
		else { str k(n, 'n'); k[n / 2] = '_'; uint32_t b = sx_choice(0, 2, "blanks"); bool known = sx_choice(0, 1, "known"); str v = sx_str(1, "value"); if (known) props[k] = v; props[k.substr(0, n - 1)] = "wrong"; size_t bl = b == 0 ? 0 : b == 1 ? 1 : n; t = "<{{" + str(bl, ' ') + k + str(bl, '\t') + "}}>"; want = "<" + (known ? v : "") + ">"; if (bl) sx_reach("blanks"); sx_reach("longname"); } }
	sx_assert(sx_eq(renderTemplate(t, props), want), "rendered text");
}
