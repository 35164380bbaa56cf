// P03: XML property list output is well-formed and reads back as the same value.
#include "values.hpp"
#include <libxml/parser.h>
#include <libxml/tree.h>
#include <inttypes.h>
using namespace libvariant;
using ref::V;

static Variant params(int s) {
	Variant p = Variant::MapType;
	p.Set("pretty", s > 0);
	if (s >= 2) p.Set("indent", s == 2 ? 0 : s == 3 ? 1 : 9);
	return p;
}

static std::string b64dec(const std::string &t) {
	std::string o; unsigned acc = 0; int n = 0;
	for (char c : t) {
		const char *A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
		const char *p = c ? strchr(A, c) : 0;
		if (!p) continue;
		acc = acc << 6 | (p - A); n += 6;
		if (n >= 8) { n -= 8; o += (char)(acc >> n & 255); }
	}
	return o;
}
// What the document says, by libxml2's tree reader.
static V decode(mc::Run &r, xmlNodePtr n) {
	std::string name = (const char *)n->name;
	std::string text;
	std::vector<xmlNodePtr> kids;
	for (xmlNodePtr k = n->children; k; k = k->next) {
		if (k->type == XML_ELEMENT_NODE) kids.push_back(k);
		else if (k->type == XML_TEXT_NODE || k->type == XML_CDATA_SECTION_NODE) text += (const char *)k->content;
	}
	if (name == "plist") return decode(r, kids.at(0));
	if (name == "null") return V::null();
	if (name == "true" || name == "false") return V::boolean(name == "true");
	if (name == "string" || name == "key") return V::str(text);
	if (name == "integer") return text[0] == '-' ? V::integer(strtoimax(text.c_str(), 0, 10)) : V::uinteger(strtoumax(text.c_str(), 0, 10));
	if (name == "real") return V::flt(strtod(text.c_str(), 0));
	if (name == "data") return V::blob(b64dec(text));
	for (char c : text) r.check(c == ' ' || c == '\n' || c == '\t', "stray-text", "text between elements: %s", mc::q(text).c_str());
	if (name == "array") { V v = V::list(); for (auto k : kids) v.l.push_back(decode(r, k)); return v; }
	r.check(name == "dict" && kids.size() % 2 == 0, "not-plist", "element %s with %zu children", name.c_str(), kids.size());
	V v = V::map();
	for (size_t i = 0; i < kids.size(); i += 2) {
		r.check(!strcmp((const char *)kids[i]->name, "key"), "not-plist", "dict entry is not a key");
		v.m[decode(r, kids[i]).s] = decode(r, kids[i + 1]);
	}
	return v;
}

static void round(mc::Run &r, const V &v, int style) {
	r.note("style %d %s", style, ref::show(v).substr(0, 300).c_str());
	std::string text = Serialize(ref::to(v), SERIALIZE_XMLPLIST, params(style));
	V back;
	try { back = ref::from(Deserialize(text, SERIALIZE_XMLPLIST)); }
	catch (std::exception &e) { r.fail("not-readable", "own output %s not accepted: %s", mc::q(text.substr(0, 600)).c_str(), e.what()); }
	r.check(ref::same(back, v), "round-trip", "%s came back as %s (text %s)", ref::show(v).substr(0, 500).c_str(), ref::show(back).substr(0, 500).c_str(), mc::q(text.substr(0, 500)).c_str());
	xmlDocPtr d = xmlReadMemory(text.data(), (int)text.size(), 0, 0, XML_PARSE_NOENT | XML_PARSE_NONET | XML_PARSE_NOERROR | XML_PARSE_NOWARNING | XML_PARSE_HUGE);
	r.check(d != 0, "not-well-formed", "output is not well-formed XML: %s", mc::q(text.substr(0, 600)).c_str());
	V t;
	try { t = decode(r, xmlDocGetRootElement(d)); } catch (...) { xmlFreeDoc(d); throw; }
	xmlFreeDoc(d);
	r.step(2);
	r.check(ref::same(t, v), "text-says-other", "output %s says %s", mc::q(text.substr(0, 500)).c_str(), ref::show(t).substr(0, 500).c_str());
	r.state(mc::hash(text));
	r.outcome(ref::show(back));
}

static bool xmlchar(unsigned c) { return c == 9 || c == 10 || c == 13 || (c >= 0x20 && c <= 0xd7ff) || (c >= 0xe000 && c <= 0xfffd) || c >= 0x10000; }

int main(int argc, char **argv) {
	xmlInitParser();
	mc::Check c;
	c.prop = "P03"; c.level = "model_checking";
	c.rule = "every value enumerated is serialized by the real emitter; the text is decoded by libxml2's tree reader and by the real parser and both readings are compared with the value";
	c.assumptions = {"strings consist of XML 1.0 characters in UTF-8", "libxml2 itself is trusted"};

	c.spaces.push_back({"ascii", "all strings of length 0..2 over the 98 ASCII characters XML allows, as document root, list element and key with value, compact and pretty", [](mc::Run &r) {
		static std::string A; if (A.empty()) for (int i = 0; i < 128; ++i) if (xmlchar(i)) A += (char)i;
		int b0 = r.choose((int)A.size() + 1);
		std::string s;
		if (b0) { s += A[b0 - 1]; int b1 = r.choose((int)A.size() + 1); if (b1) s += A[b1 - 1]; }
		int form = r.choose(3);
		round(r, form == 0 ? V::str(s) : form == 1 ? V::list({V::str(s)}) : V::map({{s, V::str(s)}}), b0 & 1);
	}, 1, false});
	c.spaces.push_back({"words", "all strings of up to 4 (thorough 5) symbols over markup characters, blanks, line ends and words like comments, CDATA ends and entities", [](mc::Run &r) {
		static const std::vector<std::string> A = {"<", ">", "&", "\"", "'", " ", "\n", "\r", "\t", "]]>", "a", "&amp;", "<!--", "\xc3\xa9", "/"};
		int n = r.choose(r.thorough ? 6 : 5);
		std::string s;
		for (int i = 0; i < n; ++i) s += A[r.choose((int)A.size())];
		round(r, V::map({{s, V::list({V::str(s)})}}), n & 1);
	}, 3, false});
	c.spaces.push_back({"codepoints", "every XML character, alone, in batches of 64 per document", [](mc::Run &r) {
		int b = r.choose(0x110000 / 64);
		V v = V::list();
		for (int i = 0; i < 64; ++i) {
			unsigned cp = b * 64 + i;
			if (!xmlchar(cp)) continue;
			std::string s; ref::put_utf8(s, cp);
			v.l.push_back(V::str(s)); v.l.push_back(V::map({{s + "k", V::str("x" + s)}}));
		}
		round(r, v, 0);
	}, 1, false});
	c.spaces.push_back({"integers", "+-(2^k + d), +-(10^k + d), signed and unsigned, as root and in four surroundings", [](mc::Run &r) {
		int form = r.choose(5);
		V x = gen::integer(r);
		round(r, form == 4 ? x : gen::surround(form, x), form & 1);
	}, 2, false});
	c.spaces.push_back({"doubles", "every binary exponent incl. infinities and NaN x both signs x 12 mantissas; d*10^e", [](mc::Run &r) {
		V v = gen::doubles(r);
		for (auto &x : v.l) if (std::isnan(x.f)) x.f = NAN;
		round(r, v, 0);
	}, 1, false});
	c.spaces.push_back({"trees", "all trees of at most 4 (thorough 5) nodes, depth 3, over 10 leaves and 3 keys, in 5 output styles; each execution must not leak", [](mc::Run &r) {
		ref::TreeGen g;
		g.leaves = {V::null(), V::boolean(true), V::boolean(false), V::integer(-7), V::uinteger(UINTMAX_MAX), V::flt(2.5), V::str(""), V::str(" \n"), V::str("x<&"), V::blob("bl")};
		g.keys = {"", " ", "b&"};
		int style = r.choose(5), n = r.thorough ? 5 : 4;
		V v = g.gen(r, n, 3);
		round(r, v, style);
	}, 4, true});
	c.spaces.push_back({"long", "strings and keys of lengths around 300, 512, 4000, 8192 and 10000 (libxml2 buffers), with markup at the end", [](mc::Run &r) {
		static const int S[] = {300, 512, 1024, 4000, 8192, 10000};
		static const char *T[] = {"z", "\n", "\xc3\xa9", "&", " "};
		std::string s(S[r.choose(6)] - 12 + r.choose(24), 'q');
		s += T[r.choose(5)];
		s = T[r.choose(5)] + s;
		int form = r.choose(3);
		round(r, form == 0 ? V::str(s) : form == 1 ? V::map({{s, V::integer(1)}, {"t", V::str("u")}}) : V::list({V::str(s), V::map({{"k", V::str(s)}})}), form);
	}, 3, false});
	c.spaces.push_back({"depth-width", "nesting depth 1..120 and widths 0..150 (thorough 600) of lists and maps", [](mc::Run &r) {
		int deep = r.choose(2), n = 1 + r.choose(r.thorough ? (deep ? 200 : 600) : deep ? 120 : 150), kind = r.choose(3), style = r.choose(2);
		V v;
		if (deep) { v = V::integer(n); for (int i = 0; i < n; ++i) v = (kind == 0 || (kind == 2 && i % 2)) ? V::list({v}) : V::map({{"k", v}}); }
		else { v = kind ? V::map() : V::list(); for (int i = 0; i < n; ++i) { V x = i % 2 ? V::integer(i) : V::str(mc::fmt("s%d", i)); if (kind) v.m[mc::fmt("%d", i)] = x; else v.l.push_back(x); } }
		round(r, v, style);
	}, 2, false});
	c.spaces.push_back({"blobs", "blobs of 0..200 (thorough 0..700) bytes", [](mc::Run &r) {
		int n = r.choose(r.thorough ? 701 : 201), start = r.choose(8) * 32;
		std::string s; for (int i = 0; i < n; ++i) s += (char)(start + i * 3);
		int form = r.choose(3);
		round(r, form == 0 ? V::blob(s) : form == 1 ? V::map({{"b", V::blob(s)}}) : V::list({V::blob(s), V::str("x")}), form);
	}, 1, true});
	return mc::run(argc, argv, c);
}
