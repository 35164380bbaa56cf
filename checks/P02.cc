// P02: YAML output reads back as the same value.
#include "values.hpp"
using namespace libvariant;
using ref::V;

struct Conf { const char *name; Variant p; };
static std::vector<Conf> &confs() {
	static std::vector<Conf> c;
	if (c.empty()) {
		auto add = [&](const char *n, std::vector<std::pair<const char *, Variant>> kv) {
			Variant p = Variant::MapType;
			for (auto &x : kv) p.Set(x.first, x.second);
			c.push_back({n, p});
		};
		add("default", {});
		add("flow", {{"map_style", "flow"}, {"list_style", "flow"}});
		add("block", {{"map_style", "block"}, {"list_style", "block"}});
		add("flow maps in block lists", {{"map_style", "flow"}, {"list_style", "block"}});
		add("flow lists in block maps", {{"map_style", "block"}, {"list_style", "flow"}});
		add("implicit markers", {{"implicit_document_begin", true}, {"implicit_document_end", true}});
		add("explicit end", {{"implicit_document_begin", true}, {"implicit_document_end", false}});
		add("indent 4 width 20", {{"indent", 4}, {"width", 20}});
		add("indent 9 width 1000 flow", {{"indent", 9}, {"width", 1000}, {"map_style", "flow"}});
		add("single quoted", {{"scalar_style", "single quoted"}});
		add("double quoted", {{"scalar_style", "double quoted"}, {"width", 10}});
	}
	return c;
}

static void round(mc::Run &r, const V &v, int conf) {
	r.note("%s %s", confs()[conf].name, ref::show(v).substr(0, 300).c_str());
	std::string text = Serialize(ref::to(v), SERIALIZE_YAML, confs()[conf].p);
	V back;
	try { back = ref::from(Deserialize(text, SERIALIZE_YAML)); }
	catch (std::exception &e) { r.fail("not-readable", "own output %s not accepted: %s", mc::q(text.substr(0, 600)).c_str(), e.what()); }
	r.step(2);
	r.check(ref::same(back, v), "round-trip", "%s came back as %s (text %s)", ref::show(v).substr(0, 500).c_str(), ref::show(back).substr(0, 500).c_str(), mc::q(text.substr(0, 500)).c_str());
	r.state(mc::hash(text));
	r.outcome(ref::show(back));
}

int main(int argc, char **argv) {
	mc::Check c;
	c.prop = "P02"; c.level = "model_checking";
	c.rule = "every value enumerated is serialized by the real YAML emitter under an enumerated configuration and read back by the real parser; the result is compared with the value";
	c.assumptions = {"strings are valid UTF-8 (others are refused by libyaml with an exception)", "libyaml itself is trusted"};

	c.spaces.push_back({"ascii", "all ASCII strings of length 0, 1 and 2 (including NUL and control characters), as document, list element and key with value", [](mc::Run &r) {
		int b0 = r.choose(129);
		std::string s;
		if (b0) { s += (char)(b0 - 1); int b1 = r.choose(129); if (b1) s += (char)(b1 - 1); }
		int form = r.choose(2);
		round(r, form == 0 ? V::str(s) : V::map({{s, V::list({V::str(s)})}}), form ? (b0 & 1) * 4 : 0);
	}, 1, false});
	c.spaces.push_back({"words", "all strings of up to 4 (thorough 5) symbols over characters with a meaning in YAML, block and flow", [](mc::Run &r) {
		static const std::vector<std::string> A = {"-", ":", " ", "#", "'", "\"", "\n", "?", "!", "&", "0", "a", "{", ",", "~", "\xc3\xa9"};
		int n = r.choose(r.thorough ? 6 : 5);
		std::string s;
		for (int i = 0; i < n; ++i) s += A[r.choose((int)A.size())];
		round(r, V::map({{s, V::list({V::str(s)})}}), n & 1);
	}, 3, false});
	c.spaces.push_back({"typed-words", "all strings of up to 4 (thorough 5) symbols over the symbols numbers, booleans, null and special floats are written with", [](mc::Run &r) {
		static const std::vector<std::string> A = {"0", "1", "7", ".", "-", "+", "e", "x", "o", "inf", "nan", " ", "~", "null"};
		std::string s = gen::word(r, A, r.thorough ? 5 : 4);
		round(r, V::list({V::str(s), V::map({{s, V::integer(1)}})}), 0);
	}, 3, false});
	c.spaces.push_back({"keywords", "30 words YAML readers give a type to, in 6 letter cases and with 5 kinds of surrounding, as value and key, all configurations", [](mc::Run &r) {
		static const char *W[] = {"null", "true", "false", "yes", "no", "on", "off", "y", "n", ".inf", ".nan", "nan", "inf", "~", "=", "<<", "0x1F", "0o17", "0b11", "017", "1_000", "1e5", "1.", ".5", "12:30:45", "2001-01-01", "---", "...", "%YAML", "- a"};
		std::string s = W[r.choose(30)];
		int cs = r.choose(4);
		for (size_t i = 0; i < s.size(); ++i) if (cs == 1 || (cs == 2 && i == 0) || (cs == 3 && i % 2)) s[i] = toupper(s[i]);
		int sur = r.choose(6);
		if (sur == 1) s = " " + s; else if (sur == 2) s += " "; else if (sur == 3) s = "-" + s; else if (sur == 4) s = "+" + s; else if (sur == 5) s += "\n";
		int conf = r.choose((int)confs().size());
		round(r, V::map({{s, V::str(s)}, {"l", V::list({V::str(s), V::list({V::str(s)})})}}), conf);
	}, 2, false});
	c.spaces.push_back({"codepoints", "every Unicode scalar value, alone between two letters and doubled, in batches of 64 per document", [](mc::Run &r) {
		int b = r.choose(0x110000 / 64);
		V v = V::list();
		for (int i = 0; i < 64; ++i) {
			unsigned cp = b * 64 + i;
			if (cp >= 0xd800 && cp <= 0xdfff) continue;
			std::string s = "a"; ref::put_utf8(s, cp); s += "b"; ref::put_utf8(s, cp);
			v.l.push_back(V::str(s));
		}
		round(r, v, 0);
	}, 1, false});
	c.spaces.push_back({"integers", "+-(2^k + d), +-(10^k + d), signed and unsigned, in four surroundings", [](mc::Run &r) {
		int form = r.choose(4);
		round(r, gen::surround(form, gen::integer(r)), form);
	}, 2, false});
	c.spaces.push_back({"doubles", "every binary exponent incl. infinities and NaN x both signs x 12 mantissas; d*10^e", [](mc::Run &r) {
		round(r, gen::doubles(r), 0);
	}, 1, false});
	c.spaces.push_back({"trees", "all trees of at most 4 (thorough 5) nodes, depth 3, over 9 leaves and 3 keys, in 11 configurations; each execution must not leak", [](mc::Run &r) {
		ref::TreeGen g;
		g.leaves = {V::null(), V::boolean(true), V::boolean(false), V::integer(-7), V::uinteger(UINTMAX_MAX), V::flt(2.5), V::str("true"), V::str("x\n y: "), V::blob("bl")};
		g.keys = {"", "a", "1"};
		int conf = r.choose((int)confs().size()), n = r.thorough ? 5 : 4;
		V v = g.gen(r, n, 3);
		round(r, v, conf);
	}, 4, true});
	c.spaces.push_back({"folding", "strings of 1..200 characters made of words of 1..12 letters with single or double blanks, line breaks and trailing blanks, at widths 10, 20, 80 and 1000", [](mc::Run &r) {
		int len = 1 + r.choose(200), w = 1 + r.choose(12), kind = r.choose(5);
		static const int WD[] = {10, 20, 80, 1000};
		Variant p = Variant::MapType; p.Set("width", WD[r.choose(4)]);
		std::string s;
		for (int i = 0; (int)s.size() < len; ++i) {
			if (i % (w + 1) < w) s += 'a' + i % 26;
			else s += kind == 0 ? " " : kind == 1 ? "  " : kind == 2 ? "\n" : kind == 3 ? " \n" : "\n\n ";
		}
		if (kind == 4) s += " ";
		r.note("width %d %s", (int)p["width"].AsInt(), mc::q(s).c_str());
		V v = V::map({{"k", V::str(s)}, {s, V::list({V::str(s)})}});
		std::string text = Serialize(ref::to(v), SERIALIZE_YAML, p);
		V back = ref::from(Deserialize(text, SERIALIZE_YAML));
		r.check(ref::same(back, v), "round-trip", "came back as %s (text %s)", ref::show(back).c_str(), mc::q(text).c_str());
		r.step(2); r.state(text); r.outcome(ref::show(back));
	}, 1, false});
	c.spaces.push_back({"long", "strings and keys of lengths around 1024 (simple key limit), 16384 and 32768 (libyaml buffers)", [](mc::Run &r) {
		static const int S[] = {128, 1024, 8192, 16384, 32768};
		static const char *T[] = {"z", "\n", "\xc3\xa9", " ", "\x02"};
		std::string s(S[r.choose(r.thorough ? 5 : 4)] - 12 + r.choose(24), 'q');
		s += T[r.choose(5)];
		int form = r.choose(3);
		round(r, form == 0 ? V::str(s) : form == 1 ? V::map({{s, V::integer(1)}, {"t", V::str("u")}}) : V::list({V::str(s), V::map({{"k", V::str(s)}})}), form);
	}, 3, false});
	c.spaces.push_back({"depth-width", "nesting depth 1..120 (thorough 400) and widths 0..150 (thorough 600) of lists and maps, block and flow", [](mc::Run &r) {
		int deep = r.choose(2), n = 1 + r.choose(r.thorough ? (deep ? 400 : 600) : deep ? 120 : 150), kind = r.choose(3), conf = r.choose(2) + 1;
		V v;
		if (deep) { v = V::integer(n); for (int i = 0; i < n; ++i) v = (kind == 0 || (kind == 2 && i % 2)) ? V::list({v}) : V::map({{"k", v}}); }
		else { v = kind ? V::map() : V::list(); for (int i = 0; i < n; ++i) { V x = i % 2 ? V::integer(i) : V::str(mc::fmt("s%d", i)); if (kind) v.m[mc::fmt("%d", i)] = x; else v.l.push_back(x); } }
		round(r, v, conf);
	}, 2, false});
	c.spaces.push_back({"blobs", "blobs of 0..200 (thorough 0..700) bytes", [](mc::Run &r) {
		int n = r.choose(r.thorough ? 701 : 201), start = r.choose(8) * 32;
		std::string s; for (int i = 0; i < n; ++i) s += (char)(start + i * 3);
		int form = r.choose(3);
		round(r, form == 0 ? V::blob(s) : form == 1 ? V::map({{"b", V::blob(s)}}) : V::list({V::blob(s), V::str("x")}), form);
	}, 1, true});
	return mc::run(argc, argv, c);
}
