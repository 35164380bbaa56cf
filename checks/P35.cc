// P35: what is written, read and converted does not depend on the locale of the program.
#include "values.hpp"
#include "schemaset.hpp"
#include <Variant/Blob.h>
#include <Variant/Emitter.h>
#include <Variant/Schema.h>
#include <Variant/ArgParse.h>
#include <Variant/Path.h>
#include <Variant/Extensions.h>
#include <clocale>
#include <functional>
#include <getopt.h>
#include <iostream>
#include <locale>
#include <sstream>
#include <sys/stat.h>
#include <unistd.h>
// The sanitizer's own versions of these pay no attention to the locale; the C library's do.
#include <ctype.h>
extern "C" int strncasecmp(const char *a, const char *b, size_t n) {
	for (; n; ++a, ++b, --n) {
		int d = tolower((unsigned char)*a) - tolower((unsigned char)*b);
		if (d || !*a) return d;
	}
	return 0;
}
extern "C" int strcasecmp(const char *a, const char *b) { return strncasecmp(a, b, (size_t)-1); }
using namespace libvariant;

static const SerializeType F[] = {SERIALIZE_JSON, SERIALIZE_YAML, SERIALIZE_XMLPLIST, SERIALIZE_BUNDLEHDR};
static const char *FN[] = {"JSON", "YAML", "XML", "bundle header"};

// ---- locales: those of the C++ library made here, those of the C library compiled by localedef
struct Punct : std::numpunct<char> {
	char d, t; const char *g; bool names;
	Punct(char d_, char t_, const char *g_, bool n) : d(d_), t(t_), g(g_), names(n) {}
	char do_decimal_point() const override { return d; }
	char do_thousands_sep() const override { return t; }
	std::string do_grouping() const override { return g; }
	std::string do_truename() const override { return names ? "0" : "true"; }
	std::string do_falsename() const override { return names ? "1" : "false"; }
};
struct Loc { const char *name; bool cxx; char d, t; const char *g; bool names; const char *source, *charset; };
static std::vector<Loc> LOCS = {
	{"C++ 1.234,5", true, ',', '.', "\3", false, 0, 0}, {"C++ 1,234.5", true, '.', ',', "\3", false, 0, 0}, {"C++ 1 2 3 4,5", true, ',', ' ', "\1", false, 0, 0}, {"C++ 12-34;5 and other truth", true, ';', '-', "\2", true, 0, 0},
	{"C de_DE.UTF-8", false, 0, 0, 0, false, "de_DE", "UTF-8"}, {"C de_DE.ISO-8859-1", false, 0, 0, 0, false, "de_DE", "ISO-8859-1"}, {"C tr_TR.ISO-8859-9", false, 0, 0, 0, false, "tr_TR", "ISO-8859-9"}, {"C en_US.UTF-8", false, 0, 0, 0, false, "en_US", "UTF-8"}};
static std::string LOCDIR;
static std::string cname(const Loc &l) { return std::string(l.source) + "." + l.charset; }
static void compile_locales() {
	const char *s = getenv("MC_SCRATCH");
	LOCDIR = std::string(s ? s : "/tmp") + "/p35.locale";
	mkdir(LOCDIR.c_str(), 0700);
	setenv("LOCPATH", LOCDIR.c_str(), 1);
	std::vector<Loc> have;
	for (auto &l : LOCS) {
		if (!l.cxx) {
			if (access((LOCDIR + "/" + cname(l) + "/LC_NUMERIC").c_str(), R_OK)) { if (system(("localedef -c -i " + std::string(l.source) + " -f " + l.charset + " " + LOCDIR + "/" + cname(l) + " >/dev/null 2>&1").c_str())) {} }
			if (!setlocale(LC_ALL, cname(l).c_str())) continue;
			setlocale(LC_ALL, "C");
		}
		have.push_back(l);
	}
	LOCS = have;
}
struct In {
	explicit In(const Loc &l) {
		if (l.cxx) std::locale::global(std::locale(std::locale::classic(), new Punct(l.d, l.t, l.g, l.names)));
		else if (!setlocale(LC_ALL, cname(l).c_str())) throw mc::Skip();
	}
	~In() { std::locale::global(std::locale::classic()); setlocale(LC_ALL, "C"); }
};
// the result of an operation, the fact that it failed being one
static V result(const std::function<V()> &f) { try { return f(); } catch (const mc::Violation &) { throw; } catch (const std::exception &) { return V::blob("failed"); } }
static void compare(mc::Run &r, const Loc &l, const char *what, const std::function<V()> &f) {
	V plain = result(f), here;
	{ In in(l); here = result(f); }
	r.step(1);
	r.check(ref::show(plain) == ref::show(here), "locale", "%s gives %s, in the locale \"%s\" %s", what, ref::show(plain).c_str(), l.name, ref::show(here).c_str());
}
static V text(const std::string &s) { return V::str(s); }

// ---- writing
static const std::vector<V> NUMBERS = {V::integer(0), V::integer(-7), V::integer(999), V::integer(1000), V::integer(-12345), V::integer(1234567), V::integer(INTMAX_MIN), V::integer(INTMAX_MAX), V::uinteger(UINTMAX_MAX), V::uinteger(100000), V::flt(0), V::flt(0.5), V::flt(-1.25), V::flt(1000), V::flt(12345.5), V::flt(-1234567.875), V::flt(1e15), V::flt(1e17), V::flt(1e-7), V::flt(1.5e300), V::flt(HUGE_VAL), V::flt(5e-324)};
static const std::vector<V> OTHERS = {V(), V::boolean(true), V::boolean(false), V::str(""), V::str("1.5"), V::str("1,5"), V::str("1.234"), V::str("\xc3\x85"), V::str("I\xc4\xb1"), V::str("wahr"), V::str("a b"), V::blob(std::string("\x85\xa0x", 3))};
static V some(mc::Run &r) { size_t i = r.choose(NUMBERS.size() + OTHERS.size()); return i < NUMBERS.size() ? NUMBERS[i] : OTHERS[i - NUMBERS.size()]; }
static void written(mc::Run &r) {
	const Loc &l = r.pick(LOCS);
	int f = r.choose(4), shape = r.choose(4), way = r.choose(4);
	V a = some(r), v;
	V b = shape < 2 ? V() : r.thorough ? some(r) : NUMBERS[(a.s.size() + way + shape * 5) % NUMBERS.size()];
	switch (shape) {
	case 0: v = V::list({a}); break;
	case 1: v = V::map({{"k", a}}); break;
	case 2: v = V::map({{"k", V::list({a, b})}, {"1.5", b}}); break;
	default: v = V::list({V::list({a}), V::map({{"x", b}})}); break;
	}
	if (f == 3) v = V::map({{"k", V::list({a, b})}, {"j", a}});
	if (!r.fresh()) return;
	r.note("%s %s", FN[f], ref::show(v).c_str());
	Variant x = ref::to(v);
	compare(r, l, "writing", [&]() {
		std::stringbuf sb;
		Variant p;
		if (way & 1) p["precision"] = 6;
		if (way & 2) { p["pretty"] = true; p["indent"] = f == 1 ? 3 : 2; }
		Emitter e = CreateEmitter(CreateEmitterOutput(&sb), F[f], p);
		e.BeginDocument(); e << x; e.EndDocument(); e.Close();
		return text(sb.str());
	});
	// and read again, where it was written
	compare(r, l, "writing and reading", [&]() { return ref::from(Deserialize(Serialize(x, F[f]), F[f])); });
	r.state(mc::hash(ref::show(v) + l.name)); r.outcome(l.name);
}
// ---- text to values
static std::string word(mc::Run &r, const char *alphabet, int most) {
	std::string s; int n = (int)strlen(alphabet);
	for (int i = 0; i < most; ++i) { int c = r.choose(n + 1); if (!c) break; s += alphabet[c - 1]; }
	return s;
}
static void guessed(mc::Run &r) {
	const Loc &l = r.pick(LOCS);
	std::string s = word(r, "1.,e-0+I", r.thorough ? 6 : 5);
	if (!r.fresh()) return;
	r.note("%s", mc::q(s).c_str());
	compare(r, l, "a YAML scalar", [&]() { return ref::from(Deserialize("- " + s + "\n", SERIALIZE_YAML)); });
	compare(r, l, "a bundle header value", [&]() { return ref::from(Deserialize("A: " + s + "\n", SERIALIZE_BUNDLEHDR)); });
	compare(r, l, "an XML real", [&]() { return ref::from(Deserialize("<plist><array><real>" + s + "</real></array></plist>", SERIALIZE_XMLPLIST)); });
	compare(r, l, "an XML integer", [&]() { return ref::from(Deserialize("<plist><array><integer>" + s + "</integer></array></plist>", SERIALIZE_XMLPLIST)); });
	compare(r, l, "a JSON value", [&]() { return ref::from(Deserialize("[" + s + "]", SERIALIZE_JSON)); });
	Variant v(s);
	compare(r, l, "AsInt", [&]() { return V::integer(v.AsInt()); });
	compare(r, l, "AsUnsigned", [&]() { return V::uinteger(v.AsUnsigned()); });
	compare(r, l, "AsDouble", [&]() { return V::flt(v.AsDouble()); });
	compare(r, l, "AsBool", [&]() { return V::boolean(v.AsBool()); });
	r.state(mc::hash(s + l.name)); r.outcome(l.name);
}
static void converted(mc::Run &r) {
	const Loc &l = r.pick(LOCS);
	V v = some(r), w = some(r);
	if (!r.fresh()) return;
	r.note("%s and %s", ref::show(v).c_str(), ref::show(w).c_str());
	Variant a = ref::to(v), b = ref::to(w);
	compare(r, l, "AsString", [&]() { return text(a.AsString()); });
	compare(r, l, "AsString and back", [&]() { return ref::from(Variant(Variant(a.AsString()).AsLongDouble())); });
	compare(r, l, "comparison", [&]() { return V::integer(a.Compare(b)); });
	compare(r, l, "equality", [&]() { return V::boolean(a == b); });
	compare(r, l, "string added", [&]() { return text("x" + a.AsString() + b.AsString()); });
	compare(r, l, "flattened to strings", [&]() { Variant m; m["a"] = a; m["b"].Append(b); m["b"].Append(a); V o = V::map(); for (auto &e : FlattenPathToStrStrMap(m)) o.m[e.first] = text(e.second); return o; });
	compare(r, l, "expanded", [&]() { Variant m; m["a/b"] = a; m["c[0]"] = b; m["1.5/d"] = a; return ref::from(ExpandPath(m)); });
	r.state(mc::hash(ref::show(v) + ref::show(w) + l.name)); r.outcome(l.name);
}
// ---- places
static void places(mc::Run &r) {
	const Loc &l = r.pick(LOCS);
	static const std::vector<unsigned> IDX = {0, 9, 10, 999, 1000, 1001, 1099};
	unsigned i = r.pick(IDX), j = r.pick(IDX); int what = r.choose(9);
	if (!r.fresh()) return;
	r.note("elements %u and %u, %d", i, j, what);
	Variant big, other;
	for (unsigned k = 0; k < 1100; ++k) big.Append(k);
	other = big.Copy(); other[i] = "x";
	Path p; p.push_back("a"); p.push_back(i); p.push_back(4294967295u); p.push_back(j);
	Variant m; m["a"] = big;
	std::string ptr = "/a/" + std::to_string(i), pth = "a[" + std::to_string(i) + "]";
	compare(r, l, "place", [&]() -> V {
		Variant c = m.Copy();
		switch (what) {
		case 0: return text(PathString(p));
		case 1: return text(PathString(ParsePath(PathString(p))));
		case 2: return text(FormJSONPointer(p));
		case 3: return ref::from(JSONPointerLookup(ptr, m));
		case 4: return ref::from(m.GetPath(pth));
		case 5: c.SetPath(pth, "y"); return ref::from(c["a"][i]);
		case 6: { Variant d = JSONDiff(big, other); Variant x = big.Copy(); JSONPatch(x, d); V o = V::list({ref::from(d), V::boolean(x == other)}); return o; }
		case 7: { Variant d; d["q"] = m; d["q"]["a"][j] = Variant::MapType; d["q"]["a"][j]["z"] = 1; Variant fl = FlattenPath(d); V o = V::list(); for (Variant::MapIterator k(fl.MapBegin()), e(fl.MapEnd()); k != e; ++k) o.l.push_back(text(k->first)); o.l.push_back(V::boolean(ExpandPath(fl) == d)); return o; }
		default: { JSONPointerReplace(ptr, c, "w"); JSONPointerAdd(ptr, c, "v"); JSONPointerRemove("/a/" + std::to_string(j), c); return ref::from(c["a"]); }
		}
	});
	r.state(mc::hash(mc::fmt("%u %u %d", i, j, what) + l.name)); r.outcome(l.name);
}
// ---- characters
static void characters(mc::Run &r) {
	const Loc &l = r.pick(LOCS);
	int c = r.choose(0x80 + 12), lead = r.choose(3), f = r.choose(4), where = r.choose(4);
	if (!r.fresh()) return;
	static const unsigned REST[] = {0x2028, 0x2029, 0x3000, 0xfeff, 0x130, 0x131, 0x1e9e, 0x212a, 0x10ffff, 0x1f600, 0x85, 0xa0};
	std::string u;
	if (c < 0x80) {   // every second byte of two, after three first ones
		if (c < 0x40) { u += (char)(lead == 0 ? 0xc2 : lead == 1 ? 0xc3 : 0xd9); u += (char)(0x80 + c); }
		else { u = "\xe2"; u += (char)(0x80 + (c & 0x3f)); u += (char)(lead == 0 ? 0x80 : lead == 1 ? 0x85 : 0xa0); }
	} else {
		unsigned x = REST[c - 0x80];
		if (x < 0x800) { u += (char)(0xc0 | x >> 6); u += (char)(0x80 | (x & 63)); }
		else if (x < 0x10000) { u += (char)(0xe0 | x >> 12); u += (char)(0x80 | (x >> 6 & 63)); u += (char)(0x80 | (x & 63)); }
		else { u += (char)(0xf0 | x >> 18); u += (char)(0x80 | (x >> 12 & 63)); u += (char)(0x80 | (x >> 6 & 63)); u += (char)(0x80 | (x & 63)); }
	}
	std::string s = where == 0 ? u : where == 1 ? "a" + u : where == 2 ? u + "a" : "a " + u + " b" + u;
	V v = V::map({{"k", text(s)}, {"l", V::list({text(s), text("z")})}});
	if (f != 3 || s.find(' ') == std::string::npos) v.m[s] = V::integer(1);
	r.note("%s %s", FN[f], mc::q(s).c_str());
	Variant x = ref::to(v);
	compare(r, l, "writing", [&]() { return text(Serialize(x, F[f])); });
	std::string t;
	try { t = Serialize(x, F[f]); } catch (const std::exception &) { return; }
	compare(r, l, "reading", [&]() { return ref::from(Deserialize(t, F[f])); });
	r.state(mc::hash(t + l.name)); r.outcome(l.name);
}
// ---- names
static void names(mc::Run &r) {
	static const std::vector<std::pair<int, std::string>> T = {{2, "<PLIST><ARRAY><INTEGER>1</INTEGER><STRING>I</STRING><TRUE/><FALSE/><REAL>1.5</REAL><DICT><KEY>I</KEY><DATA>SUk=</DATA></DICT></ARRAY></PLIST>"}, {2, "<Plist><Array><Integer>1</Integer><String>i</String></Array></Plist>"}, {2, "<plIst><dIct><key>i</key><strIng>x</strIng></dIct></plIst>"},
		{1, "- TRUE\n- True\n- true\n- FALSE\n- NULL\n- Null\n- .INF\n- .Inf\n- .inf\n- -.INF\n- .NaN\n- .NAN\n"}, {1, "- 0xFF\n- 0Xff\n- 0o17\n- 017\n- 1_000\n- 1,000\n- 1E5\n- 1e5\n"}, {1, "- !<tag:yaml.org,2002:str> 1.5\n- !!str 1.5\n- \"1.5\"\n"}, {3, "A: TRUE\nB: FALSE\nC: INF\nD: inf\nI: i\ni2: I\n"}, {0, "[true,false,null,1.5,-1.5e-5,1E5,12345678901234567890,1.0]"}, {0, "{\"I\":1,\"i\":2.5,\"\\u0130\":\"\\u0131\"}"}};
	const Loc &l = r.pick(LOCS);
	int k = r.choose(T.size() + 16);
	if (!r.fresh()) return;
	if (k < (int)T.size()) {
		r.note("%s", mc::q(T[k].second).c_str());
		compare(r, l, "reading", [&]() { return ref::from(Deserialize(T[k].second, F[T[k].first])); });
		compare(r, l, "reading, the format guessed", [&]() { return ref::from(Deserialize(T[k].second, SERIALIZE_GUESS)); });
	} else {
		static const char *B[] = {"no", "NO", "No", "false", "FALSE", "faLSe", "0", " 0 ", "I", "i", "fI", "nI", "\xa0no", "no\xa0", "\x85 f", "t"};
		Variant v(B[k - T.size()]);
		r.note("%s", mc::q(v.AsString()).c_str());
		compare(r, l, "AsBool", [&]() { return V::boolean(v.AsBool()); });
	}
	r.state(mc::hash(mc::fmt("%d", k) + l.name)); r.outcome(l.name);
}
// ---- schemas
static void schemas(mc::Run &r) {
	const Loc &l = r.pick(LOCS);
	const KV &k = r.pick(KW);
	if (!r.fresh()) return;
	V s = M({{k.first, k.second}});
	r.note("%s", ref::show(s).c_str());
	Variant ls = ref::to(s);
	for (auto &d : DATA) {
		Variant ld = ref::to(d);
		compare(r, l, ("validating " + ref::show(d)).c_str(), [&]() { SchemaResult res = SchemaValidate(ls, ld); V o = V::list({V::boolean(res.Error())}); for (auto &e : res.GetErrors()) { o.l.push_back(text(e.GetDataPathStr())); o.l.push_back(text(e.GetSchemaPathStr())); } return o; });
	}
	r.state(mc::hash(ref::show(s) + l.name)); r.outcome(l.name);
}
// ---- command lines
static void arguments(mc::Run &r) {
	static const std::vector<std::string> A = {"1", "1234", "1.234", "1,234", "1.5", "1,5", "-1.5e3", "true", "FALSE", "I", "\xc3\x85", "x\x85", "0x1F", "12345678901234567890", "", " 1"};
	static const ArgParseType T[] = {ARGTYPE_GUESS, ARGTYPE_INT, ARGTYPE_BOOL, ARGTYPE_STRING};
	const Loc &l = r.pick(LOCS);
	const std::string &s = r.pick(A); int t = r.choose(4), how = r.choose(3);
	if (!r.fresh()) return;
	r.note("type %d %s", t, mc::q(s).c_str());
	compare(r, l, "parsing the command line", [&]() {
		static char name[] = "prog"; char *none[] = {name, 0}; struct option no = {0, 0, 0, 0};
		optind = 0; getopt_long(1, none, "", &no, 0);
		ArgParse a("prog");
		a.AddOption("x", 'x', "ex").Type(T[t]);
		a.AddArgument("n").Type(T[t]).MinArgs(0).MaxArgs(3).Action(ARGACTION_APPEND);
		std::vector<std::string> w = {"prog"};
		if (how == 0) w.push_back("--ex=" + s);
		else if (how == 1) { w.push_back("-x"); w.push_back(s); }
		else { w.push_back("--"); w.push_back(s); }
		std::vector<char *> v; for (auto &e : w) v.push_back(&e[0]);
		v.push_back(nullptr);
		return ref::from(a.Parse((int)w.size(), v.data()));
	});
	r.state(mc::hash(mc::fmt("%d %d ", t, how) + s + l.name)); r.outcome(l.name);
}

int main(int argc, char **argv) {
	compile_locales();
	struct Null : std::streambuf { int overflow(int c) override { return c; } };
	static Null nowhere;
	std::cerr.rdbuf(&nowhere);
	opterr = 0;
	mc::exit_hook = [](int n) { throw std::runtime_error(mc::fmt("exit %d", n)); };
	mc::Check c;
	c.prop = "P35"; c.level = "model_checking";
	c.rule = "every operation gives the same result in each locale as in the \"C\" locale";
	std::string names_;
	for (auto &l : LOCS) names_ += std::string(names_.empty() ? "" : "; ") + l.name;
	c.assumptions = {"the locale does not change while a parser or emitter exists", "the decimal point of the locale is one byte", "typed floating point command line arguments follow the user's locale and are not judged", "locales: " + names_};
	std::string n = mc::fmt("%zu locales x ", LOCS.size());
	c.spaces.push_back({"written", n + mc::fmt("4 formats x 4 shapes x 4 parameter sets x %zu scalars (thorough: pairs)", NUMBERS.size() + OTHERS.size()), written, 3, true});
	c.spaces.push_back({"guessed", n + "every text of up to 5 (thorough 6) of 8 characters of numbers, read as a scalar of each format and converted", guessed, 4, true});
	c.spaces.push_back({"converted", n + "every pair of scalars: conversions, comparison, flattening", converted, 2, true});
	c.spaces.push_back({"places", n + "indices up to 1099 in lists of 1100 elements x 9 uses of paths, pointers, patches and flattened keys", places, 2, true});
	c.spaces.push_back({"characters", n + "4 formats x every final byte of characters of two and three bytes and 12 others x 4 positions", characters, 3, true});
	c.spaces.push_back({"names", n + "names and words in either case, 9 documents and 16 words", names, 1, true});
	c.spaces.push_back({"schemas", n + mc::fmt("%zu keyword settings x %zu data", KW.size(), DATA.size()), schemas, 2, true});
	c.spaces.push_back({"arguments", n + "16 texts x 4 types x 3 ways to give them", arguments, 2, true});
	return mc::run(argc, argv, c);
}
