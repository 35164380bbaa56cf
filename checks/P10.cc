// P10: hostile input.
#include "values.hpp"
#include <Variant/Parser.h>
using namespace libvariant;
using ref::V;

static const SerializeType TYPES[] = {SERIALIZE_JSON, SERIALIZE_YAML, SERIALIZE_XMLPLIST, SERIALIZE_BUNDLEHDR, SERIALIZE_GUESS};
static const char *NAMES[] = {"JSON", "YAML", "XML", "bundle", "guess"};
static const char *GOOD[] = {"{\"a\":[1,\"x\"]}", "a: [1, x]\n", "<plist><dict><key>a</key><array><integer>1</integer><string>x</string></array></dict></plist>", "a: 1|x|\n"};

static size_t weigh(const Variant &v, size_t &budget) {     // visit everything (bounded: aliases may share)
	if (!budget) return 0;
	--budget;
	size_t n = 1;
	switch (v.GetType()) {
	case Variant::StringType: n += v.AsString().size(); break;
	case Variant::BlobType: n += ref::bytes(v.AsBlob()).size(); break;
	case Variant::ListType: for (Variant::ConstListIterator i = v.ListBegin(); i != v.ListEnd(); ++i) n += weigh(*i, budget); break;
	case Variant::MapType: for (Variant::ConstMapIterator i = v.MapBegin(); i != v.MapEnd(); ++i) n += i->first.size() + weigh(i->second, budget); break;
	default: break;
	}
	return n;
}
static V the_good() { return V::map({{"a", V::list({V::integer(1), V::str("x")})}}); }

// Different callers have different frames: state a parser keeps must not depend on them.
static Variant __attribute__((noinline)) from_depth(Parser &p, int n) {
	volatile char pad[777]; pad[n] = (char)n;
	Variant v = n ? from_depth(p, n - 1) : ParseVariant(p);
	pad[1] = pad[0];
	return v;
}

// Parse as one document, as a stream to its end (carrying on after errors), and check that
// another parse made afterwards is not disturbed.
static void hostile(mc::Run &r, const std::string &t, int f, bool probe = true) {
	r.note("%s %s", NAMES[f], mc::q(t.size() > 300 ? t.substr(0, 300) + "..." : t).c_str());
	char *m = (char *)malloc(t.size() ? t.size() : 1); memcpy(m, t.data(), t.size());
	bool threw = false; size_t n = 0;
	std::string out;
	try { Variant v = Deserialize(m, (unsigned)t.size(), TYPES[f]); size_t b = 20000; n = weigh(v, b); } catch (std::exception &) { threw = true; }
	r.step(1);
	{
		bool made = false; Parser p;
		try { p = CreateParser(CreateParserInput(m, (unsigned)t.size()), TYPES[f]); made = true; } catch (std::exception &) {}
		if (made) {
			int docs = 0, errors = 0;
			// errors are bounded by the events in the text, documents by its length
			while (!p.Done() && docs + errors < 8) { try { Variant v = from_depth(p, (docs + errors) * 7 % 5); ++docs; size_t b = 20000; weigh(v, b); } catch (std::exception &) { ++errors; } }
			if (threw) r.check(errors > 0, "inconsistent", "refused as a document but parsed without error from a parser");
			r.step(docs + errors);
		}
	}
	{
		try {
			int docs = 0;
			for (LoadAllIterator i = DeserializeAll(m, (unsigned)t.size(), TYPES[f]), e; i != e; ++i) { r.check(++docs <= (int)t.size() + 2, "endless", "more documents than bytes"); size_t b = 20000; weigh(*i, b); }
			r.step(docs);
		} catch (mc::Violation &) { free(m); throw; } catch (std::exception &) {}
	}
	free(m);
	if (probe) {
		int g = f == 4 ? 1 : f;
		V got; std::string err;
		try { got = ref::from(Deserialize(GOOD[g], TYPES[g])); } catch (std::exception &e) { err = e.what(); }
		r.check(ref::same(got, the_good()), "disturbed", "a good document parsed afterwards gives %s %s", ref::show(got).c_str(), err.c_str());
	}
	r.state(mc::hash(t, f)); r.outcome_hash(threw ? 1 : 1000 + n);
}

static const std::vector<std::vector<std::string>> DOCS = {
	{"{\"name\":\"caf\xc3\xa9\\ud83d\\ude00\",\"n\":[-1.5e3,0,true,null],\"b\":\"\\u0000BLOBAAEC\"}", "[/*c*/[[[{\"a\":{}}]]],\"x\\n\"]"},
	{"a: &x [1, 2.5, ~]\nb: *x\nc: |\n  text\nd: \"q\\x41\"\ne: !!binary AAEC\n? f\n: 'g'\n--- {x: y}\n...\n", "%YAML 1.1\n--- !t\n- - a\n  - b: >-\n      c\n"},
	{"<?xml version=\"1.0\"?><plist version=\"1.0\"><dict><key>a</key><array><integer>1</integer><real>2.5</real><true/><string>x&amp;y</string><data>AAEC</data></array><key>b</key><dict/></dict></plist>", "<!DOCTYPE plist [<!ENTITY e \"z\">]><plist><string>&e;<![CDATA[q]]><!--c--></string></plist>"},
	{"version:1.0\nname : text # c\nlist: 1|2.5|x|\nlast: 0x1F", "#\n:\n|\na:|b\n"},
	{" \n{a: 1}", "\t<plist><true/></plist>"},
};

int main(int argc, char **argv) {
	mc::Check c;
	c.prop = "P10"; c.level = "model_checking";
	c.rule = "every input is parsed as one document, document by document from one parser carrying on after errors, and by the document iterator, under AddressSanitizer, UndefinedBehaviorSanitizer, a leak check per execution and a time limit; a good document parsed afterwards must read correctly";
	c.assumptions = {"libxml2, libyaml and the C++ library are trusted", "nesting is explored up to 20000 levels"};
	c.spaces.push_back({"bytes", "every input of up to two bytes in each format", [](mc::Run &r) {
		int f = r.choose(5); std::string t; int a = r.choose(257); if (a) { t += (char)(a - 1); int b = r.choose(257); if (b) t += (char)(b - 1); }
		hostile(r, t, f, false);
	}, 2, true});
	c.spaces.push_back({"json", "every sequence of up to 4 JSON fragments (thorough 6)", [](mc::Run &r) {
		std::string t; int n = r.thorough ? 6 : 4;
		static const std::vector<std::string> A = {"[", "]", "{", "}", ",", ":", "\"", "\\u", "d8", "1e", "-", "/*", "*/", "\xff", std::string(1, '\0'), "\"\\u0000BLOB", "=="};
		for (int i = 0; i < n; ++i) { int k = r.choose((int)A.size() + 1); if (!k) break; t += A[k - 1]; }
		if (!r.thorough && t.size() > 9 && t[0] != '[' && t[0] != '{') return;
		hostile(r, t, 0, false);
	}, 2, true});
	c.spaces.push_back({"yaml", "every sequence of up to 4 YAML fragments (thorough 5)", [](mc::Run &r) {
		std::string t; int n = r.thorough ? 5 : 4;
		static const std::vector<std::string> A = {"a", "- ", ": ", "? ", "\n", "  ", "[", "]", "{", "}", ", ", "&x ", "*x", "!!binary ", "!t ", "\"", "'", "|\n", "--- ", "...\n", "%YAML 1.1\n", "#", "\xff", "\t", "<<: "};
		for (int i = 0; i < n; ++i) { int k = r.choose((int)A.size() + 1); if (!k) break; t += A[k - 1]; }
		hostile(r, t, 1);
	}, 2, true});
	c.spaces.push_back({"yaml-docs", "every sequence of up to 4 whole documents and broken documents in one stream (thorough 5)", [](mc::Run &r) {
		std::string t; int n = r.thorough ? 5 : 4;
		static const std::vector<std::string> A = {"--- 1\n", "--- [a, {b: c}]\n", "--- {[a]: b, c: d}\n", "--- *undefined\n", "--- {a: *u, b: [1]}\n", "--- &x a\n", "--- [*x]\n", "--- [\n", "--- ? {a: b}\n: c\n", "...\n", "--- !!binary '%%'\n", "---\n", "--- {a: !!binary A}\n"};
		for (int i = 0; i < n; ++i) { int k = r.choose((int)A.size() + 1); if (!k) break; t += A[k - 1]; }
		hostile(r, t, 1);
	}, 2, true});
	c.spaces.push_back({"xml", "every sequence of up to 3 XML fragments (thorough 4), bare and inside a plist element", [](mc::Run &r) {
		std::string t; int n = r.thorough ? 4 : 3;
		static const std::vector<std::string> A = {"<plist>", "</plist>", "<dict>", "</dict>", "<key>", "</key>", "<array>", "</array>", "<integer>", "</integer>", "<real>", "</real>", "<data>", "</data>", "<string>", "</string>", "<true/>", "<false>", "</false>", "<null/>", "<integer/>", "<dict/>", "<array/>", "<x>", "</x>", "x", "1", "&amp;", "&e;", "<!--c-->", "<![CDATA[d]]>", "<plist/>", "<", "=", "\xff"};
		int wrap = r.choose(2);
		for (int i = 0; i < n; ++i) { int k = r.choose((int)A.size() + 1); if (!k) break; t += A[k - 1]; }
		if (wrap) t = "<plist>" + t + "</plist>";
		hostile(r, t, 2, false);
	}, 3, true});
	c.spaces.push_back({"xml-elements", "every sequence of up to 5 elements and tags (thorough 6) inside a plist element", [](mc::Run &r) {
		std::string t; int n = r.thorough ? 6 : 5;
		static const std::vector<std::string> A = {"<key>a</key>", "<integer>1</integer>", "<dict>", "</dict>", "<array>", "</array>", "<true></true>", "<data>A</data>", "x", "<key><string>b</string></key>"};
		for (int i = 0; i < n; ++i) { int k = r.choose((int)A.size() + 1); if (!k) break; t += A[k - 1]; }
		hostile(r, "<plist>" + t + "</plist>", 2, false);
	}, 2, true});
	c.spaces.push_back({"bundle", "every sequence of up to 6 bundle header fragments (thorough 7)", [](mc::Run &r) {
		std::string t; int n = r.thorough ? 7 : 6;
		static const std::vector<std::string> A = {"a", ":", "|", "#", "\n", " ", "1", "\r", std::string(1, '\0')};
		for (int i = 0; i < n; ++i) { int k = r.choose((int)A.size() + 1); if (!k) break; t += A[k - 1]; }
		hostile(r, t, 3, false);
	}, 2, true});
	c.spaces.push_back({"damage", "every prefix, every removed range of up to 3 bytes and every byte replaced by each of 16 bytes (thorough: all 256) in 10 documents", [](mc::Run &r) {
		int f = r.choose(5); std::string t = r.pick(DOCS[f]); int kind = r.choose(3), p = r.choose((int)t.size());
		if (kind == 0) t.resize(p);
		else if (kind == 1) t.erase(p, 1 + r.choose(3));
		else { static const unsigned char B[] = {0, 1, '\t', '\n', '"', '&', '-', '/', ':', '<', '>', '[', ']', '{', 0x80, 0xff}; t[p] = r.thorough ? (char)r.choose(256) : (char)B[r.choose(16)]; }
		hostile(r, t, f);
	}, 3, true});
	c.spaces.push_back({"doubled", "every range of 10 documents repeated in place, ranges of 1..8 bytes (thorough 16)", [](mc::Run &r) {
		int f = r.choose(5); std::string t = r.pick(DOCS[f]); int p = r.choose((int)t.size()), n = 1 + r.choose(r.thorough ? 16 : 8);
		t.insert(p, t.substr(p, n));
		hostile(r, t, f);
	}, 3, true});
	c.spaces.push_back({"deep", "nesting of 1, 10, 100, 255..258, 999..1001, 4999..5001 and 20000 levels, open or closed, lists and maps, in each format", [](mc::Run &r) {
		static const int N[] = {1, 10, 100, 255, 256, 257, 258, 999, 1000, 1001, 4999, 5000, 5001, 20000};
		int f = r.choose(3), n = N[r.choose(14)], map = r.choose(2), closed = r.choose(3);
		std::string a = f == 2 ? (map ? "<dict><key>a</key>" : "<array>") : map ? (f ? "{a: " : "{\"a\":") : "[", b = f == 2 ? (map ? "</dict>" : "</array>") : map ? "}" : "]", t = f == 2 ? "<plist>" : "";
		for (int i = 0; i < n; ++i) t += a;
		t += f == 2 ? "<true/>" : "1";
		if (closed) for (int i = 0; i < n - (closed == 1); ++i) t += b;
		if (f == 2 && closed == 2) t += "</plist>";
		hostile(r, t, f, false);
	}, 2, false, 120});
	c.spaces.push_back({"deep-block", "block sequences and mappings nested by indentation to 1200 levels", [](mc::Run &r) {
		int n = 1 + r.choose(24); n *= 50; int map = r.choose(2); std::string t;
		if (map) for (int i = 0; i < n; ++i) t += std::string(i, ' ') + "a:\n"; else for (int i = 0; i < n; ++i) t += "- ";
		hostile(r, t, 1, false);
	}, 1, false, 120});
	c.spaces.push_back({"long", "tokens of 1..70, 127..129, 255..257, 4095..4097, 8191..8193 and 70000 bytes of 8 kinds in each format", [](mc::Run &r) {
		static const int X[] = {127, 128, 129, 255, 256, 257, 1023, 1024, 4095, 4096, 4097, 8191, 8192, 8193, 70000};
		int f = r.choose(5), k = r.choose(85), kind = r.choose(8); int n = k < 70 ? k + 1 : X[k - 70];
		static const char *U[] = {"7", "x", "\xc3\xa9", " ", "\n", "-", "\\", "A="};
		std::string u; for (int i = 0; i < n; ++i) u += U[kind];
		std::string t = f == 0 ? "[\"" + u + "\"," + u + "]" : f == 1 ? "a: " + u + "\nb: \"" + u + "\"\n" : f == 2 ? "<plist><array><string>" + u + "</string><integer>" + u + "</integer><data>" + u + "</data></array></plist>" : f == 3 ? u + ":" + u + "|" + u + "\n" : u + "{}";
		hostile(r, t, f, false);
	}, 2, true});
	c.spaces.push_back({"aliases", "every YAML stream of up to 3 list entries (thorough 4) out of anchors, aliases, nested and self references", [](mc::Run &r) {
		static const std::vector<std::string> A = {"&a x", "*a", "&a [1]", "&b {k: *a}", "*b", "&a [*a]", "[*b, *b]", "{&a k: *a}", "{*a : 1}", "&a &b x", "{? &a [] : 1}"};
		std::string t; int n = r.thorough ? 4 : 3;
		for (int i = 0; i < n; ++i) { int k = r.choose((int)A.size() + 1); if (!k) break; t += "- " + A[k - 1] + "\n"; }
		hostile(r, t, 1);
	}, 2, true});
	return mc::run(argc, argv, c);
}
