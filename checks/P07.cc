// P07: the way input arrives does not matter.
#include "values.hpp"
#include <Variant/ParserInput.h>
#include <Variant/Parser.h>
#include <unistd.h>
using namespace libvariant;
using ref::V;

static const SerializeType TYPES[] = {SERIALIZE_JSON, SERIALIZE_YAML, SERIALIZE_XMLPLIST, SERIALIZE_BUNDLEHDR, SERIALIZE_GUESS};
static const char *NAMES[] = {"JSON", "YAML", "XML", "bundle", "guess"};

// Reads as long as the list says, then in pieces of the last size.
struct Pieces : ParserStreamInput {
	const std::string &s; size_t p = 0, k = 0; std::vector<unsigned> sizes; int fail_at; int reads = 0;
	Pieces(const std::string &t, std::vector<unsigned> z, unsigned buf, int fa = -1) : ParserStreamInput(buf), s(t), sizes(z), fail_at(fa) {}
	unsigned Read(void *ptr, unsigned len) override {
		if (reads++ == fail_at) throw std::runtime_error("read failed");
		if (len == 0) return 0;
		if (k < sizes.size() && sizes[k] == 0) ++k;
		unsigned n = k < sizes.size() ? sizes[k] : sizes.empty() ? 1u : 0x7fffffffu;
		unsigned g = (unsigned)std::min<size_t>(std::min(len, n), s.size() - p);
		if (k < sizes.size()) sizes[k] -= g;
		memcpy(ptr, s.data() + p, g); p += g; return g;
	}
};
struct Steps : ParserStreamInput {
	const std::string &s; size_t p = 0; unsigned step;
	Steps(const std::string &t, unsigned st, unsigned buf) : ParserStreamInput(buf), s(t), step(st) {}
	unsigned Read(void *ptr, unsigned len) override {
		unsigned g = (unsigned)std::min<size_t>(std::min(len, step), s.size() - p);
		memcpy(ptr, s.data() + p, g); p += g; return g;
	}
};
// Gives exactly what is asked for, in a heap block of exactly that size.
struct Exact : ParserInput {
	const std::string &s; size_t p = 0; char *m = 0; size_t given = 0; bool bad = false;
	Exact(const std::string &t) : s(t) {}
	~Exact() { free(m); }
	const void *GetPtr(unsigned &len) override {
		size_t left = s.size() - p, n = std::min<size_t>(len ? len : 1, left);
		free(m); m = 0; len = (unsigned)n; given = n;
		if (!n) return 0;
		m = (char *)malloc(n); memcpy(m, s.data() + p, n);
		return m;
	}
	void Release(unsigned n) override { if (n > given) bad = true; p += n; given = 0; }
};

struct Result { bool threw = false; V v; };
static Result parse(shared_ptr<ParserInput> in, SerializeType t) {
	Result o;
	try { Parser p = CreateParser(in, t); o.v = ref::from(ParseVariant(p)); } catch (std::exception &) { o.threw = true; }
	return o;
}
static Result memory(const std::string &s, SerializeType t) {
	char *m = (char *)malloc(s.size() ? s.size() : 1); memcpy(m, s.data(), s.size());
	Result o;
	try { o.v = ref::from(Deserialize(m, (unsigned)s.size(), t)); } catch (std::exception &) { o.threw = true; }
	free(m);
	return o;
}
static std::string show(const Result &x) { return x.threw ? "an error" : ref::show(x.v).substr(0, 300); }
static void same(mc::Run &r, const Result &a, const Result &b, const char *how) {
	r.check(a.threw == b.threw && (a.threw || ref::same(a.v, b.v)), "differs", "%s gives %s, memory gives %s", how, show(b).c_str(), show(a).c_str());
	r.step(1);
}

static const std::vector<std::vector<std::string>> SHORT = {
	{"[\"\\u00e9\"]", "[-1.5e+3]", "{\"a\":true}", "[\"\xc3\xa9\xe2\x82\xac\"]", "[nul]", "[1,2", "[1]x[2]", "[/*x*/1]", " \n[null] ", "[\"\\ud83d\\ude00\"]"},
	{"a: \"\xc3\xa9\"", "- ~\n- 1.5", "{a: [1]}", "&x a", "a: |\n b\n", "--- 1\n...", "\"\\x41\\u00e9\"", "'it''s'", "a: b: c", "\xef\xbb\xbf- 1", "# c\r\n1"},
	{"<plist/>", "<a>", "<plist>x</a>"},
	{"a: 1|2|", "a: x # y\n", "a : \xc3\xa9\n\n", "a\nb:2\r\n", " a:1.5\n#", "a:1\nb:|\n", "", "\n", "a:"},
	{"[1]", "  - a", "<plist/>", " \n", "", "{\"a\":1}"},
};
static const std::vector<std::vector<std::string>> LONG = {
	{"{\"name\": \"caf\xc3\xa9 \xf0\x9f\x98\x80 \\u00e9\\ud83d\\ude00\\n\\\"\", \"n\": [-12.5e-3, 0, 18446744073709551615, -9223372036854775808], \"t\": {\"a\": true, \"b\": false, \"c\": null}} ",
	 "/* comment * / */ [ /**/ \"x\" /***/, [[], {}], 1.25 ]", "[\"\\ud83d\"]", "{\"a\":1,}", "{\"b\": \"\\u0000BLOBAAEC\"}"},
	{"name: \"caf\xc3\xa9 \xf0\x9f\x98\x80 \\u00e9\\n\"\nlist:\n  - 'it''s'\n  - |\n    line one\n\n    line two\n  - >-\n    fold\n    ed\nblob: !!binary AAECAwQ=\nref: &r {x: [1, 2.5, .inf]}\nagain: *r\n",
	 "--- \n# comment\nkey with space: value # c\n? complex\n: [a, 'b', \"c\"]\n...\n--- second\n", "a: [1, 2\nb: 3\n", "\xff\xfe""a\0:\0 \0001\0"},
	{"<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<plist><dict><key>caf\xc3\xa9 &amp; &#233; &lt;x&gt;</key><array><integer>-12</integer><real>2.5</real><true/><string> \xf0\x9f\x98\x80 </string><data>AAEC AwQ=</data><null/><array/></array></dict></plist>\n",
	 "<plist><string>a<!-- c -->b<![CDATA[ <c> ]]></string></plist>", "<plist><dict><key>k</key></dict></plist>", "<plist><array><integer>1</integer></plist>", "<!DOCTYPE plist [<!ENTITY e \"expanded\">]><plist><string>x &e; y</string></plist>"},
	{"version:1.0\nname : some text here  # comment\nlist: 1|2.5|text|\n# full comment\n\nlast.key: caf\xc3\xa9 and more", "bad line without colon\nkey: 0x1F\r\n  indented: .inf\n"},
	{"   \n\t <plist><array><integer>1</integer></array></plist>", "\n\n  {\"a\": [1, 2, {\"b\": null}]}", "--- \nx: 1\n"},
};

int main(int argc, char **argv) {
	mc::Check c;
	c.prop = "P07"; c.level = "model_checking";
	c.rule = "each text is parsed from one memory block and through every listed input; all results must agree; inputs hand out exact heap blocks under AddressSanitizer so reading past what was given is seen";
	c.assumptions = {"an input gives at least as much as is asked for unless it is at its end, as documented in ParserInput.h", "failures are compared by being failures, not by message"};
	c.spaces.push_back({"divisions", "every division into reads of 39 texts of up to 14 bytes x window sizes 1, 2, 3, 16", [](mc::Run &r) {
		int f = r.choose(5); const std::string &t = r.pick(SHORT[f]);
		static const unsigned B[] = {16, 1, 2, 3};
		unsigned buf = B[r.choose(r.thorough ? 4 : 2)];
		std::vector<unsigned> z; unsigned run = 1;
		for (size_t i = 1; i < t.size(); ++i) { if (r.flip()) { z.push_back(run); run = 1; } else ++run; }
		z.push_back(run);
		r.note("%s %s in %zu reads, window %u", NAMES[f], mc::q(t).c_str(), z.size(), buf);
		Result a = memory(t, TYPES[f]), b = parse(shared_ptr<ParserInput>(new Pieces(t, z, buf)), TYPES[f]);
		same(r, a, b, "reading in pieces"); r.state(mc::hash(t, f)); r.outcome(show(a));
	}, 3, true});
	c.spaces.push_back({"cuts", "19 longer texts x every pair of cut positions (quick: every cut and every step size) x window sizes", [](mc::Run &r) {
		int f = r.choose(5); const std::string &t = r.pick(LONG[f]);
		static const unsigned B[] = {16, 1, 3, 64, 8192};
		unsigned buf = B[r.choose(5)]; int kind = r.choose(3);
		Result a = memory(t, TYPES[f]), b;
		if (kind == 0) { unsigned st = 1 + r.choose((int)t.size()); r.note("%s %s steps of %u window %u", NAMES[f], mc::q(t).c_str(), st, buf); b = parse(shared_ptr<ParserInput>(new Steps(t, st, buf)), TYPES[f]); }
		else if (kind == 1) {
			unsigned x = 1 + r.choose((int)t.size()), y = r.thorough ? 1 + r.choose((int)(t.size() - x + 1)) : 1;
			r.note("%s %s cut after %u and %u more, window %u", NAMES[f], mc::q(t).c_str(), x, y, buf);
			b = parse(shared_ptr<ParserInput>(new Pieces(t, {x, y}, buf)), TYPES[f]);
		} else { if (buf != 16) return; r.note("%s %s exact", NAMES[f], mc::q(t).c_str()); Exact *e = new Exact(t); shared_ptr<ParserInput> in(e); b = parse(in, TYPES[f]); r.check(!e->bad, "release", "more released than was given"); }
		same(r, a, b, "reading in pieces"); r.state(mc::hash(t, f)); r.outcome(show(a));
	}, 4, true});
	c.spaces.push_back({"words", "every text of up to 5 symbols (thorough 6) over each format's syntax, by single bytes, by pairs and from exact blocks", [](mc::Run &r) {
		static const std::vector<std::vector<std::string>> A = {
			{"[", "]", "1", "-", ".", "e", "\"", "\\", ",", "{", ":", " ", "\xc3\xa9", "/*", "*/", "null"},
			{"a", "1", "-", " ", "\n", ":", "[", "]", "{", "}", ",", "\"", "'", "#", "\xc3\xa9"},
			{"<plist>", "</plist>", "<array>", "</array>", "<integer>", "</integer>", "<string>", "</string>", "7", " ", "&amp;", "\xc3\xa9"},
			{"a", "1", ":", " ", "\n", "|", "#", "\r", "\t", "\xc3\xa9"},
		};
		int f = r.choose(4); 
		std::string t; int max = r.thorough ? 6 : f == 0 ? 5 : f == 1 ? 5 : 5;
		for (int i = 0; i < max; ++i) { int k = r.choose((int)A[f].size() + 1); if (!k) break; t += A[f][k - 1]; }
		r.note("%s %s", NAMES[f], mc::q(t).c_str());
		Result a = memory(t, TYPES[f]);
		same(r, a, parse(shared_ptr<ParserInput>(new Steps(t, 1, 1)), TYPES[f]), "single bytes");
		if (r.thorough || t.size() < 5) same(r, a, parse(shared_ptr<ParserInput>(new Steps(t, 2, 3)), TYPES[f]), "pairs");
		shared_ptr<Exact> e(new Exact(t));
		same(r, a, parse(e, TYPES[f]), "exact blocks");
		r.check(!e->bad, "release", "more released than was given");
		r.state(mc::hash(t, f)); r.outcome(a.threw ? "error" : ref::show(a.v));
	}, 3, false});
	c.spaces.push_back({"sources", "documents padded so that each of the bytes around positions 4096 and 8192 falls on the boundary, from string, memory, file name, FILE and stream", [](mc::Run &r) {
		int f = r.choose(5); const std::string &tail = r.pick(LONG[f]);
		int at = r.choose(2) ? 8192 : 4096;
		if (f == 3 && at == 4096 && !r.thorough) return;
		int off = r.choose((int)tail.size() + 2);
		if (!r.thorough && off % 3 && off + 2 < (int)tail.size()) return;
		std::string pad(at - off, ' ');
		if (f == 2 || f == 4) { if (tail.compare(0, 5, "<?xml") == 0) pad = ""; else pad = std::string(at - off, '\n'); }
		else if (f == 1) { pad = "#" + std::string(at - off - 2, 'c') + "\n"; if (tail[0] == '\xff') return; }
		else if (f == 3) pad = "#" + std::string(at - off - 2, 'c') + "\n";
		std::string t = pad + tail;
		r.note("%s %zu bytes of padding then %s", NAMES[f], pad.size(), mc::q(tail).c_str());
		Result a = memory(t, TYPES[f]), b;
		b = Result(); try { b.v = ref::from(Deserialize(t, TYPES[f])); } catch (std::exception &) { b.threw = true; } same(r, a, b, "string");
		std::istringstream s2(t); b = Result(); try { b.v = ref::from(DeserializeFile(s2.rdbuf(), TYPES[f])); } catch (std::exception &) { b.threw = true; } same(r, a, b, "streambuf");
		std::string path = mc::fmt("%s/p07.%d", getenv("MC_SCRATCH") ? getenv("MC_SCRATCH") : "/tmp", (int)getpid());
		FILE *o = fopen(path.c_str(), "w"); fwrite(t.data(), 1, t.size(), o); fclose(o);
		b = Result(); try { b.v = ref::from(DeserializeFile(path.c_str(), TYPES[f])); } catch (std::exception &) { b.threw = true; } same(r, a, b, "file name");
		FILE *i = fopen(path.c_str(), "r"); b = Result(); try { b.v = ref::from(DeserializeFile(i, TYPES[f])); } catch (std::exception &) { b.threw = true; } fclose(i); same(r, a, b, "FILE");
		unlink(path.c_str());
		r.state(mc::hash(t, f)); r.outcome(show(a));
	}, 3, true});
	c.spaces.push_back({"large", "documents of 16384, 65536 and 131072 (thorough also 1048576) bytes and up to 2 more or less, of many texts, one long text or many lists, in each format from each input: the value is the one written", [](mc::Run &r) {
		static const size_t AT[] = {16384, 65536, 131072, 1048576};
		int f = r.choose(4), shape = r.choose(f == 3 ? 2 : 3);
		size_t n = AT[r.choose(r.thorough ? 4 : 3)] + r.choose(5) - 2;
		static const char *HEAD[] = {"[", "", "<plist><array>", ""}, *TAIL[] = {"]", "", "</array></plist>", ""};
		V want = f == 3 ? V::map() : V::list();
		std::string t = HEAD[f], tail = TAIL[f];
		auto entry = [&](size_t i, const std::string &s) {
			switch (f) {
			case 0: return (i ? "," : "") + ("\"" + s + "\"");
			case 1: return "- \"" + s + "\"\n";
			case 2: return "<string>" + s + "</string>";
			default: return mc::fmt("k%zu:", i) + s + "\n";
			}
		};
		auto add = [&](size_t i, const std::string &s) { t += entry(i, s); if (f == 3) want.m[mc::fmt("k%zu", i)] = V::str(s); else want.l.push_back(V::str(s)); };
		size_t i = 0;
		static const char *EMPTY[] = {"[]", "- []\n", "<array/>"};
		if (shape == 2) for (; t.size() + 60 + tail.size() < n; ++i) { t += f || !i ? EMPTY[f] : ",[]"; want.l.push_back(V::list()); }
		if (shape == 0) while (t.size() + 60 + tail.size() < n) { add(i, mc::fmt("entry %zu", i * 7919)); ++i; }
		add(i, "x" + std::string(n - t.size() - tail.size() - entry(i, "x").size(), 'y'));
		t += tail;
		if (t.size() != n) throw std::logic_error("size");
		int how = r.choose(6);
		r.note("%s %zu bytes, %zu entries, input %d", NAMES[f], n, i + 1, how);
		if (!r.fresh()) return;
		Result b;
		std::istringstream ss(t);
		std::string path = mc::fmt("%s/p07.%d", getenv("MC_SCRATCH") ? getenv("MC_SCRATCH") : "/tmp", (int)getpid());
		if (how == 2 || how == 3) { FILE *o = fopen(path.c_str(), "w"); fwrite(t.data(), 1, t.size(), o); fclose(o); }
		FILE *in = how == 3 ? fopen(path.c_str(), "r") : 0;
		try {
			switch (how) {
			case 0: b = memory(t, TYPES[f]); break;
			case 1: b.v = ref::from(DeserializeFile(ss.rdbuf(), TYPES[f])); break;
			case 2: b.v = ref::from(DeserializeFile(path.c_str(), TYPES[f])); break;
			case 3: b.v = ref::from(DeserializeFile(in, TYPES[f])); break;
			case 4: b = parse(shared_ptr<ParserInput>(new Steps(t, 65536, 65536)), TYPES[f]); break;
			case 5: b = parse(shared_ptr<ParserInput>(new Steps(t, 4097, 512)), TYPES[f]); break;
			}
		} catch (std::exception &) { b.threw = true; }
		if (in) fclose(in);
		if (how == 2 || how == 3) unlink(path.c_str());
		r.check(!b.threw && ref::same(b.v, want), "value", "%s", b.threw ? "is refused" : "is read as another value");
		r.state(mc::hash(t, f)); r.outcome(mc::fmt("%zu", n)); r.step(1);
	}, 3, true});
	c.spaces.push_back({"read-errors", "19 texts x the n-th read failing with an exception, for every n: the failure is reported unless the document was complete before", [](mc::Run &r) {
		int f = r.choose(5); const std::string &t = r.pick(LONG[f]);
		unsigned step = r.choose(2) ? 7 : 1; unsigned buf = 16;
		int total; { Pieces *p = new Pieces(t, std::vector<unsigned>(t.size() / step + 1, step), buf); shared_ptr<ParserInput> in(p); parse(in, TYPES[f]); total = p->reads; }
		int n = r.choose(total);
		r.note("%s %s reads of %u, read %d of %d fails", NAMES[f], mc::q(t).c_str(), step, n, total);
		Result b = parse(shared_ptr<ParserInput>(new Pieces(t, std::vector<unsigned>(t.size() / step + 1, step), buf, n)), TYPES[f]);
		r.check(b.threw, "read-error", "the read failed but the result is %s", show(b).c_str());
		r.step(1); r.state(mc::hash(t, f) + n * 2 + step);
	}, 3, true});
	c.spaces.push_back({"functions", "every function that reads a value: by format, under the format's own name, by guessing, the first of all documents, and a parser of its own; from string, C string, memory, file name, FILE and stream; all the texts", [](mc::Run &r) {
		int f = r.choose(5), set = r.choose(2), fn = r.choose(5), in = r.choose(6);
		const std::string &t = r.pick(set ? LONG[f] : SHORT[f]);
		if (in == 1 && t.find('\0') != std::string::npos) throw mc::Skip();
		if (fn == 1 && f == 4) throw mc::Skip();
		if (fn == 2 && f != 4) throw mc::Skip();
		if (fn == 3 && f == 4) throw mc::Skip();
		static const char *FN[] = {"Deserialize", "the format's function", "DeserializeGuess", "DeserializeAll", "CreateParser"}, *IN[] = {"string", "C string", "memory", "file name", "FILE", "stream"};
		r.note("%s of %s from %s: %s", FN[fn], NAMES[f], IN[in], mc::q(t).c_str());
		Result a = memory(t, TYPES[f]), b;
		std::string path = mc::fmt("%s/p07.%d", getenv("MC_SCRATCH") ? getenv("MC_SCRATCH") : "/tmp", (int)getpid());
		FILE *o = fopen(path.c_str(), "w"); fwrite(t.data(), 1, t.size(), o); fclose(o);
		FILE *h = fopen(path.c_str(), "r");
		std::istringstream ss(t);
		const char *cs = t.c_str(); const void *m = t.data(); unsigned n = (unsigned)t.size(); std::streambuf *sb = ss.rdbuf(); const char *name = path.c_str();
		SerializeType y = TYPES[f];
#define FROM(G, ...) (in == 0 ? G(t, ##__VA_ARGS__) : in == 1 ? G(cs, ##__VA_ARGS__) : in == 2 ? G(m, n, ##__VA_ARGS__) : in == 3 ? G##File(name, ##__VA_ARGS__) : in == 4 ? G##File(h, ##__VA_ARGS__) : G##File(sb, ##__VA_ARGS__))
		try {
			Variant v;
			if (fn == 0) v = FROM(Deserialize, y);
			else if (fn == 1) v = f == 0 ? FROM(DeserializeJSON) : f == 1 ? FROM(DeserializeYAML) : f == 2 ? FROM(DeserializeXMLPLIST) : FROM(DeserializeBundleHdr);
			else if (fn == 2) v = FROM(DeserializeGuess);
			else if (fn == 3) {
				LoadAllIterator i = FROM(DeserializeAll, y), e;
				if (i == e) b.threw = a.threw || ref::same(a.v, V::null()) || t.empty();      // no document at all
				else v = *i;
				if (b.threw) a.threw = true;
			} else { Parser p = CreateParser(FROM(CreateParserInput), y); v = ParseVariant(p); }
			b.v = ref::from(v);
		} catch (std::exception &) { b.threw = true; }
#undef FROM
		fclose(h); unlink(path.c_str());
		same(r, a, b, FN[fn]);
		r.state(mc::hash(t, f * 100 + fn * 10 + in)); r.outcome(show(a));
	}, 2, true});
	return mc::run(argc, argv, c);
}
