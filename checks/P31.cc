// P31: the varsh tool.
#include "vpath.hpp"
#include "guess.hpp"
#include <Variant/Emitter.h>
#include <Variant/Extensions.h>
#include <Variant/Parser.h>
#include <Variant/Payload.h>
#include <getopt.h>
#include <iostream>
#include <sstream>
using namespace libvariant;
using ref::V;

int program_main(int argc, char **argv);

static V L(std::vector<V> v) { return V::list(v); }
static V M(std::map<std::string, V> m) { return V::map(m); }
static V I(int i) { return V::integer(i); }
static V S(const std::string &s) { return V::str(s); }

// ---- an output that fails after so many bytes
struct Sink : std::streambuf {
	std::string got; long room = -1;
	bool fits(long n) { return room < 0 || (long)got.size() + n <= room; }
	int overflow(int c) override { if (c == EOF) return 0; if (!fits(1)) return EOF; got += char(c); return c; }
	std::streamsize xsputn(const char *p, std::streamsize n) override {
		if (!fits(n)) n = room - (long)got.size();
		got.append(p, n); return n;
	}
};

// ---- running the tool
struct Ran { int rc = 0; bool exited = false, threw = false; std::string what, out, err; };
struct Exit { int code; };
static bool exit_seen; static int exit_code;
static Ran run(const std::vector<std::string> &args, const std::string &in, long room) {
	Ran g;
	std::vector<std::string> a = {"varsh"};
	a.insert(a.end(), args.begin(), args.end());
	std::vector<char *> p;
	for (auto &s : a) p.push_back(&s[0]);
	p.push_back(0);
	std::stringbuf ib(in, std::ios::in), eb(std::ios::out);
	Sink ob; ob.room = room;
	std::streambuf *i0 = std::cin.rdbuf(&ib), *o0 = std::cout.rdbuf(&ob), *e0 = std::cerr.rdbuf(&eb);
	std::cin.clear(); std::cout.clear(); std::cerr.clear();
	// a process of its own has no earlier scan
	static char name[] = "varsh"; char *none[] = {name, 0}; struct option no = {0, 0, 0, 0};
	optind = 0; getopt_long(1, none, "", &no, 0);
	exit_seen = false;
	mc::exit_hook = [](int c) { if (!exit_seen) { exit_seen = true; exit_code = c; } throw Exit{c}; };
	try { g.rc = program_main((int)a.size(), &p[0]); }
	catch (Exit &e) { g.rc = e.code; }
	catch (std::exception &e) { g.threw = true; g.what = e.what(); }
	catch (...) { g.threw = true; g.what = "something else"; }
	if (exit_seen) { g.rc = exit_code; g.exited = true; g.threw = false; }
	mc::exit_hook = 0;
	std::cin.rdbuf(i0); std::cout.rdbuf(o0); std::cerr.rdbuf(e0);
	std::cin.clear(); std::cout.clear(); std::cerr.clear();
	g.out = ob.got; g.err = eb.str();
	return g;
}

// ---- documents
static const std::vector<V> &docs() {
	static std::vector<V> d;
	if (d.empty()) d = {
		M({{"a", I(1)}, {"b", M({{"c", L({I(1), S("x"), V::null()})}, {"d", V::boolean(true)}})}, {"f", V::flt(1.0 / 3)}}),
		M({{"a", S("some words")}, {"n", V::flt(2.5)}, {"l", L({I(1), I(2)})}}),
		L({I(7), L({I(2), I(3)}), M({{"a", S("v")}})}),
		M({{"a", V::blob("bytes\1")}, {"b", M({{"c", L({V::blob(""), S("t")})}})}}),
		M({{"a", I(3)}, {"payload", M({{"data", V::blob(std::string("\0raw\n\xff", 6))}, {"n", I(1)}})}}),
		M({}),
	};
	return d;
}
static const SerializeType TYPES[] = {SERIALIZE_JSON, SERIALIZE_YAML, SERIALIZE_XMLPLIST, SERIALIZE_BUNDLEHDR};
static const char *TYPE[] = {"JSON", "YAML", "XML", "bundle header"};
static bool nested(const V &v) { return v.k == V::List || v.k == V::Map; }
static bool bundles(const V &v) {      // a bundle header can hold it
	if (v.k != V::Map) return false;
	for (auto &e : v.m) { if (e.second.k == V::Map || e.second.k == V::Blob) return false; for (auto &x : e.second.l) if (nested(x) || x.k == V::Blob || x.k == V::Null) return false; }
	return true;
}
static bool blobs(const V &v) { if (v.k == V::Blob) return true; for (auto &e : v.l) if (blobs(e)) return true; for (auto &e : v.m) if (blobs(e.second)) return true; return false; }
static std::string written(const V &v, int type, bool payload, const V &params, bool &ok) {
	std::stringbuf sb(std::ios::out);
	try {
		if (payload) SerializeWithPayload(&sb, ref::to(v), TYPES[type], ref::to(params)); else Serialize(&sb, ref::to(v), TYPES[type], ref::to(params));
	} catch (std::exception &) { ok = false; return ""; }
	return sb.str();
}

// ---- flat forms
struct Style { bool nosimple; std::string prefix, delim; };
static bool simple(const V &v) { if (v.k != V::List) return false; for (auto &e : v.l) if (nested(e)) return false; return true; }
static void flatten(const V &v, const Style &s, const std::string &at, std::map<std::string, V> &out) {
	if (v.k == V::Map) { for (auto &e : v.m) flatten(e.second, s, (at.empty() ? s.prefix : at + s.delim) + e.first, out); return; }
	if (v.k == V::List && (s.nosimple || !simple(v))) { for (size_t i = 0; i < v.l.size(); ++i) flatten(v.l[i], s, at + "[" + std::to_string(i) + "]", out); return; }
	out[at] = v;
}
static V flat(const V &v, const Style &s) {
	std::map<std::string, V> m; flatten(v, s, "", m);
	return m.empty() ? V::null() : m.size() == 1 && m.begin()->first.empty() ? m.begin()->second : V::map(m);
}

static std::string dir() {
	static std::string d; static int pid;
	if (pid != getpid()) { pid = getpid(); const char *e = getenv("MC_SCRATCH"); d = std::string(e ? e : "/tmp") + mc::fmt("/p31.%d", pid); mkdir(d.c_str(), 0700); mkdir((d + "/sub").c_str(), 0700); }
	return d;
}
static void put(const std::string &f, const std::string &t) { FILE *h = fopen(f.c_str(), "wb"); if (!h) throw std::logic_error("cannot write " + f); fwrite(t.data(), 1, t.size(), h); fclose(h); }
static bool get(const std::string &f, std::string &t) { FILE *h = fopen(f.c_str(), "rb"); if (!h) return false; char b[65536]; size_t n; t.clear(); while ((n = fread(b, 1, sizeof b, h)) > 0) t.append(b, n); fclose(h); return true; }

enum Source { FILE1, STDIN, TWO, MISSING, THEN_MISSING, MISSING_THEN, DIRECTORY, CUT, THEN_CUT, SOURCES };
enum Action { NONE, SET_INT, SET_TEXT, SET_FILE, SET_FILE_MAP, SET_FILE_MISSING, SET_FILE_CUT, LIST, LENGTH, ACTIONS };
enum Out { STDOUT, OUT_FILE, OUT_REPLACED, OUT_UNOPENABLE, OUT_FULL_AT_ONCE, OUT_FULL_LATER, OUT_FULL_AT_END, OUTS };
enum Sch { NO_SCHEMA, IS_OBJECT, IS_LIST, HAS_A, BOTH, SCH_MISSING, SCH_CUT, SCH_IN_PATH, SCHS };

static void tool(mc::Run &r, int budget) {
	r.budget = budget;
	const int di = r.choose((int)docs().size());
	const V &doc = docs()[di];
	const int source = r.dev(SOURCES);
	const int infmt = r.dev(7), ext = r.dev(6);
	const bool pin = r.dev(2) != 0, pout = r.dev(2) != 0;
	static const std::vector<ref::Steps> PATHS = {{}, {ref::key("a")}, {ref::key("b"), ref::key("c")}, {ref::key("b"), ref::key("c"), ref::at(1)}, {ref::at(2), ref::key("a")}, {ref::at(1)}, {ref::key("nowhere")}, {ref::key("a"), ref::key("below")}};
	const int path = r.dev((int)PATHS.size());
	const int action = r.dev(ACTIONS), sch = r.dev(SCHS), outfmt = r.dev(5), fmt = r.dev(7), out = r.dev(OUTS);
	const std::string D = dir();
	std::vector<std::string> args;
	// the inputs
	static const Style STYLE[] = {{false, "", "/"}, {false, "", "/"}, {true, "", "/"}, {false, ".", "."}, {false, "", "/"}, {true, "", "."}};
	const bool flattens = ext >= 1 && ext <= 3, expands = ext >= 4;
	auto given = [&](const V &v) { return expands ? flat(v, STYLE[ext]) : v; };
	static const int ITYPE[] = {0, 0, 1, 2, 3, 1, 2};
	const int itype = ITYPE[infmt];
	if (!infmt && blobs(doc)) throw mc::Skip();       // guessing takes JSON for YAML, which has other blobs
	V other = M({{"a", I(2)}, {"b", M({{"c", L({S("y"), S("z")})}})}});
	if (itype == 3) other = M({{"a", I(2)}, {"z", S("two")}});
	std::vector<V> in = {doc};
	if (source == TWO) in.push_back(other);
	bool readable = true;
	std::vector<std::string> texts; std::vector<V> readback;     // reading a payload leaves its description in the value
	for (auto &v : in) {
		V g = given(v);
		if (itype == 3 && (!bundles(g) || pin)) throw mc::Skip();
		if (expands && (g.k != V::Map || (v.k == V::Map && v.m.empty()))) throw mc::Skip();
		bool ok = true;
		texts.push_back(written(g, itype, pin, M({}), ok));
		if (!ok || (itype == 3 && !ref::same(ref::bundle(texts.back()), g))) throw mc::Skip();      // bundle headers hold no types
		if (pin) readback.push_back(ref::from(DeserializeWithPayload(texts.back(), TYPES[itype])));
	}
	if (source == CUT) { std::string t = texts[0]; texts[0] = itype == 2 ? t.substr(0, t.size() / 2) : itype == 1 ? "a: [1, 2\nb: }\n" : t.substr(0, t.size() / 2); if (itype == 3 || texts[0].empty()) throw mc::Skip(); readable = false; if (pin) throw mc::Skip(); }
	const std::string cut = itype == 1 ? "a: [1, 2\nb: }\n" : itype == 2 ? "<plist version=\"1.0\"><dict><key>a" : "{\"a\": ";
	if (source == THEN_CUT && (itype == 3 || pin)) throw mc::Skip();
	put(D + "/first", texts[0]);
	if (in.size() > 1) put(D + "/second", texts[1]);
	static const char *IN[] = {0, "-J", "-Y", "-X", "-B", "-G", "--guess"}, *OUTF[] = {0, "-j", "-y", "-x", "-b"};
	if (IN[infmt]) args.push_back(IN[infmt]);
	if (pin) args.push_back("-P");
	if (pout) args.push_back("--payload");
	if (flattens) args.push_back("-f");
	if (expands) args.push_back("--expand-path");
	if (ext && STYLE[ext].nosimple) { args.push_back("--no-simple-lists"); args.push_back("true"); }
	if (ext && !STYLE[ext].prefix.empty()) args.push_back("--path-prefix=" + STYLE[ext].prefix);
	if (ext && STYLE[ext].delim != "/") args.push_back("--path-delimiter=" + STYLE[ext].delim);
	if (path) { args.push_back("--path"); args.push_back(ref::text(PATHS[path])); }
	V setv;
	bool sets = false, setok = true;
	switch (action) {
	case SET_INT: args.push_back("--set=5"); setv = V::uinteger(5); sets = true; break;
	case SET_TEXT: args.push_back("--set"); args.push_back("new text"); setv = S("new text"); sets = true; break;
	case SET_FILE: setv = L({I(1), M({{"q", S("s")}})}); put(D + "/set", "[1, {\"q\": \"s\"}]"); args.push_back("--set-file=" + D + "/set"); sets = true; break;
	case SET_FILE_MAP: setv = M({{"a", I(4)}, {"q", M({})}}); put(D + "/set", "<plist version=\"1.0\"><dict><key>a</key><integer>4</integer><key>q</key><dict/></dict></plist>"); args.push_back("--set-file"); args.push_back(D + "/set"); sets = true; break;
	case SET_FILE_MISSING: args.push_back("--set-file=" + D + "/nosuch"); sets = true; setok = false; break;
	case SET_FILE_CUT: put(D + "/set", "{\"q\": "); args.push_back("--set-file=" + D + "/set"); sets = true; setok = false; break;
	case LIST: args.push_back("--list"); break;
	case LENGTH: args.push_back("--length"); break;
	}
	auto schema = [&](const char *name, const char *text) { if (text) put(D + "/" + name, text); args.push_back("--schema"); args.push_back(D + "/" + name); };
	static const char *OBJ = "{\"type\": \"object\"}", *LST = "{\"type\": \"array\"}", *HASA = "{\"required\": [\"a\"]}";
	if (sch == IS_OBJECT || sch == BOTH) schema("obj.json", OBJ);
	if (sch == IS_LIST) schema("lst.json", LST);
	if (sch == HAS_A || sch == BOTH) schema("hasa.json", HASA);
	if (sch == SCH_MISSING) schema("nosuch.json", 0);
	if (sch == SCH_CUT) schema("cut.json", "{\"type\": ");
	if (sch == SCH_IN_PATH) { put(D + "/sub/insub.json", OBJ); args.push_back("--schema-path=" + D + "/sub"); args.push_back("--schema=insub.json"); }
	if (OUTF[outfmt]) args.push_back(OUTF[outfmt]);
	const int otype = outfmt ? outfmt - 1 : 0;
	V params = M({{"pretty", V::boolean(true)}});
	switch (fmt) {
	case 1: args.push_back("--pretty=false"); params.m["pretty"] = V::boolean(false); break;
	case 2: args.push_back("--indent=4"); params.m["indent"] = I(4); break;
	case 3: args.push_back("--precision=3"); params.m["precision"] = I(3); break;
	case 4: args.push_back("--map-style=flow"); params.m["map_style"] = S("flow"); break;
	case 5: args.push_back("--list-style"); args.push_back("flow"); params.m["list_style"] = S("flow"); break;
	case 6: args.push_back("--scalar-style=double quoted"); params.m["scalar_style"] = S("double quoted"); break;
	}
	const bool tofile = out >= OUT_FILE && out <= OUT_UNOPENABLE;
	const std::string ofile = out == OUT_UNOPENABLE ? D + "/nosuchdir/out" : D + "/out";
	if (tofile) { unlink((D + "/out").c_str()); if (out == OUT_REPLACED) put(ofile, std::string(5000, '#')); args.push_back("-o"); args.push_back(ofile); }
	std::string sin;
	switch (source) {
	case STDIN: sin = texts[0]; break;
	case FILE1: case CUT: args.push_back(D + "/first"); break;
	case TWO: args.push_back(D + "/first"); args.push_back(D + "/second"); break;
	case MISSING: args.push_back(D + "/nosuch"); break;
	case THEN_MISSING: args.push_back(D + "/first"); args.push_back(D + "/nosuch"); break;
	case MISSING_THEN: args.push_back(D + "/nosuch"); args.push_back(D + "/first"); break;
	case DIRECTORY: args.push_back(D + "/sub"); break;
	case THEN_CUT: put(D + "/cut", cut); args.push_back(D + "/first"); args.push_back(D + "/cut"); break;
	}
	if (source == MISSING || source == MISSING_THEN || source == THEN_MISSING || source == DIRECTORY || source == THEN_CUT) readable = false;
	// what it should write
	std::string want; bool good = readable && setok, known = true; std::string why = !readable ? "an input cannot be read" : !setok ? "the value to set cannot be read" : "";
	for (size_t k = 0; k < in.size() && good; ++k) {
		V v = in[k];
		if (pin) { v = readback[k]; if (expands) try { v = ref::from(ExpandPath(ref::to(v), ref::to(M({{"noSimpleLists", V::boolean(STYLE[ext].nosimple)}, {"pathPrefix", S(STYLE[ext].prefix)}, {"pathDelimiter", S(STYLE[ext].delim)}})))); } catch (const std::exception &) { good = false; why = "the paths cannot be expanded"; break; } }
		if (flattens) v = flat(v, STYLE[ext]);
		bool valid = sch == SCH_MISSING || sch == SCH_CUT ? false : sch == IS_OBJECT || sch == SCH_IN_PATH ? v.k == V::Map : sch == IS_LIST ? v.k == V::List : sch == HAS_A ? v.k != V::Map || v.m.count("a") : sch == BOTH ? v.k == V::Map && v.m.count("a") : true;
		if (!valid) { good = false; why = "the schema is not satisfied"; break; }
		if (sets) { if (!ref::set(v, PATHS[path], setv)) { good = false; why = "the path cannot be set"; break; } }
		else { V *x = ref::find(v, PATHS[path]); if (!x) { good = false; why = "nothing is at the path"; break; } V c = *x; v = c; }
		if (action == LIST) {
			if (v.k == V::Null) known = false;
			if (v.k != V::Map) { good = false; why = "it has no keys"; break; }
			for (auto &e : v.m) want += e.first + "\n";
		} else if (action == LENGTH) {
			if (v.k == V::List) want += std::to_string(v.l.size()) + "\n";
			else if (v.k == V::Map) want += std::to_string(v.m.size()) + "\n";
			else if (v.k == V::Str || v.k == V::Blob || v.k == V::Null) { known = false; break; }
			else { good = false; why = "it has no length"; break; }
		} else {
			bool ok = true;
			std::string t = written(v, otype, pout, params, ok);
			if (!ok) { good = false; why = "the format cannot hold it"; break; }
			want += t;
			if (!pout) want += "\n";
		}
	}
	if (!known) throw mc::Skip();
	long room = -1;
	if (out == OUT_UNOPENABLE) { if (good) why = "the output cannot be opened"; good = false; }
	if (out >= OUT_FULL_AT_ONCE) {
		room = out == OUT_FULL_AT_ONCE ? 0 : out == OUT_FULL_LATER ? (long)want.size() / 2 : (long)want.size() - 1;
		if (room < 0) room = 0;
		if (good && (long)want.size() > room) { good = false; why = "the output is full"; }
	}
	std::string cmd;
	for (auto &a : args) { std::string x = a; size_t p = x.find(D); if (p != std::string::npos) x.replace(p, D.size(), "DIR"); cmd += " " + x; }
	r.note("varsh%s, input %s%s (%s)", cmd.c_str(), TYPE[itype], pin ? " with payload" : "", ref::show(doc).c_str());
	Ran g = run(args, sin, room);
	std::string got = g.out, fgot;
	bool there = tofile && get(ofile, fgot);
	r.step(1);
	std::string o = mc::fmt("%d|", g.rc) + (tofile ? fgot : got);
	r.state(mc::hash(o)); r.outcome(o);
	r.check(!g.threw, "crash", "ends with an uncaught exception: %s", g.what.c_str());
	if (!good) {
		r.check(g.rc != 0, "unreported", "%s, but it ends with status 0, having written %s", why.c_str(), mc::q(tofile ? fgot : got).c_str());
		r.check(!g.err.empty(), "silent", "%s, and it ends with status %d, but says nothing", why.c_str(), g.rc);
		return;
	}
	r.check(g.rc == 0, "refused", "ends with status %d: %s", g.rc, mc::q(g.err).c_str());
	if (tofile) { r.check(there, "file", "the output file is not there"); r.check(got.empty(), "stdout", "writes %s to standard output", mc::q(got).c_str()); got = fgot; }
	r.check(got == want, "output", "writes %s, expected %s", mc::q(got).c_str(), mc::q(want).c_str());
}

// ---- command lines it does not understand
static void usage(mc::Run &r) {
	static const std::vector<std::pair<std::vector<std::string>, bool>> A = {
		{{"--help"}, true}, {{"-h"}, true}, {{"--nonsense"}, false}, {{"-Q"}, false}, {{"-J", "-Y"}, false}, {{"-J", "-X"}, false}, {{"-Y", "-B"}, false}, {{"-y", "-x"}, false}, {{"-x", "-b"}, false},
		{{"--list", "--length"}, false}, {{"--set", "1", "--list"}, false}, {{"--set", "1", "--set-file", "x"}, false}, {{"--indent", "-1"}, false}, {{"--indent", "two"}, false},
		{{"--precision=x"}, false}, {{"--map-style=odd"}, false}, {{"--scalar-style=odd"}, false}, {{"--path-delimiter=ab"}, false}, {{"--path"}, false}, {{"-o"}, false},
	};
	auto &c = r.pick(A);
	std::vector<std::string> args = c.first;
	if (r.flip()) args.insert(args.begin(), "-p");
	std::string cmd; for (auto &a : args) cmd += " " + a;
	r.note("varsh%s < {}", cmd.c_str());
	Ran g = run(args, "{}", -1);
	r.step(1); r.state(mc::hash(g.out + g.err)); r.outcome(mc::fmt("%d", g.rc));
	r.check(!g.threw, "crash", "ends with an uncaught exception: %s", g.what.c_str());
	r.check((g.rc == 0) == c.second, "status", "ends with status %d", g.rc);
	r.check(!(g.out + g.err).empty() , "silent", "says nothing");
	r.check(c.second || g.out != "{}\n", "output", "writes %s", mc::q(g.out).c_str());
}

int main(int argc, char **argv) {
	mc::Check c;
	c.prop = "P31"; c.level = "model_checking";
	c.rule = "varsh writes the requested part of each input in the requested format and ends with status 0, or says on standard error what went wrong and ends with another status.";
	c.assumptions = {
		"The main function of the tool is called in the explorer's process with its own standard streams; a call to exit ends it there.",
		"The text a value is written as in each format is the library's (decided by P01-P06 and P30); which value is written, where, and the verdict are decided here.",
		"What is written after the first failing input, the length of strings and null, and an output that is also an input are not claimed.",
	};
	const char *B = "6 documents; up to %d departures from 'varsh FILE' among: source (standard input, two files, missing, directory, malformed, each in first or second place), input format, payload input, 5 flatten/expand styles, payload output, 7 paths (present, absent, through a scalar), set/set-file/list/length, 7 schema set-ups, output format, 6 format parameters, output (file, file replaced, not openable, full at once, half way, at the last byte)";
	c.spaces.push_back({"commands", mc::fmt(B, 3) + " (thorough: 4)", [](mc::Run &r) { tool(r, r.thorough ? 4 : 3); }, 3});
	c.spaces.push_back({"command lines", "20 command lines that ask for help or are wrong, also after another option", [](mc::Run &r) { usage(r); }, 1});
	return mc::run(argc, argv, c);
}
