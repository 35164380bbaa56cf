// P23: command lines parse to the values the options declare.
#include "argdecl.hpp"
using namespace libvariant;
using ref::V;

typedef std::vector<std::string> Line;

static void judge(mc::Run &r, const Decl &d, const Line &line, const Env &env = Env(), bool again = true) {
	if (!r.fresh()) return;
	r.note("%s line: %s", show(d).c_str(), show(line, env).c_str());
	Outcome want = model(d, line, env);
	ArgParse a("prog");
	std::string err;
	if (!declare(a, d, err)) r.fail("declare", "the declaration is refused: %s", err.c_str());
	for (int round = 0; round < (again ? 2 : 1); ++round) {
		Variant raw;
		Outcome got = parse(a, line, env, &raw);
		r.step(1);
		std::string g = show(got), w = show(want);
		r.check(want.kind == Outcome::RESULT ? got.kind == Outcome::RESULT : got.kind != Outcome::RESULT, round ? "again-outcome" : "outcome", "parse %d: %s, not %s", round + 1, g.c_str(), w.c_str());
		if (want.kind == Outcome::RESULT) r.check(ref::same(got.v, want.v), round ? "again" : "result", "parse %d: %s, not %s", round + 1, g.c_str(), w.c_str());
		if (want.kind == Outcome::ERROR || want.kind == Outcome::USAGE) r.check(got.code != 0, "status", "the error ends with status 0");
		if (want.kind == Outcome::HELP) r.check(got.code == 0, "status", "help ends with status %d", got.code);
		if (got.kind != Outcome::RESULT) break;
		spoil(raw);
	}
	r.state(mc::hash(show(want)));
	r.outcome(mc::fmt("%d", want.kind));
}

// ---- one option, every kind of value
static const std::vector<std::string> TEXT = {"0", "1", "-1", "+5", "10", "11", "007", "-0", "2147483648", "-2147483649", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809",
	"18446744073709551615", "18446744073709551616", "-18446744073709551615", "99999999999999999999999", "-99999999999999999999999", "0x10", "1x", "1 2", "--1", "1.0", "1.5", "-2.5", ".5", "5.", "1e2", "1e-2", "1e", "e1", "0.1", "0.5", "0.49999999999999994",
	"", "a", "b", "ab", "abc", "ba", "b a", "-", "--", "-a", "--x", "=", "a=b", "true", "True", "false", "FALSE", "f", "F", "fa", "falsey", "no", "NO", "n", "N", "nope", "yes", "y", "00", "000 ", "01", "null", "~", "none", "0o17", "\xc3\xa9", "\xc3\xa9\xc3\xa9", "\xc3\xa9\xc3\xa9\xc3\xa9", "inf", ".inf", "\"q\"", "[1]", "{}", "a\nb", "a\tb"};
static void values(mc::Run &r) {
	static const ArgParseType TYPES[] = {ARGTYPE_GUESS, ARGTYPE_INT, ARGTYPE_UINT, ARGTYPE_FLOAT, ARGTYPE_STRING, ARGTYPE_BOOL};
	Opt o;
	o.key = "k"; o.sh = 'o'; o.lg = "option";
	o.type = TYPES[r.choose(6)];
	int way = r.choose(8);
	o.act = r.choose(2) ? ARGACTION_APPEND : ARGACTION_STORE;
	int c = r.choose(15);
	switch (c) {
	case 1: o.min = V::integer(0); break;
	case 2: o.max = V::integer(10); break;
	case 3: o.min = V::integer(-5); o.max = V::integer(5); break;
	case 4: o.min = V::flt(0.5); break;
	case 5: o.max = V::uinteger(9223372036854775807ull); o.min = V::integer(INTMAX_MIN); break;
	case 6: o.choices = {V::integer(1), V::integer(10), V::str("1")}; break;
	case 7: o.choices = {V::str("a"), V::str("ab"), V::boolean(true)}; break;
	case 8: o.choices = {V::flt(1.5), V::flt(1), V::boolean(false)}; break;
	case 9: o.pattern = "^a"; break;
	case 10: o.pattern = "b$|^$"; break;
	case 11: o.minlen = 2; break;
	case 12: o.maxlen = 2; break;
	case 13: o.minlen = 1; o.maxlen = 1; o.pattern = "."; break;
	case 14: o.dflt = V::str("d"); o.hasdflt = true; break;
	}
	const std::string &t = r.pick(TEXT);
	Line l; Env e;
	switch (way) {
	case 0: l = {"--option", t}; break;
	case 1: l = {"--option=" + t}; break;
	case 2: l = {"-o", t}; break;
	case 3: l = {"-o" + t}; break;
	case 4: l = {"--opt=" + t}; break;
	case 5: o.arg = true; o.sh = 0; o.lg = ""; l = {"--", t}; break;
	case 6: o.arg = true; o.sh = 0; o.lg = ""; l = {t}; break;
	default: o.env = "MCENV_A"; e["MCENV_A"] = t; break;
	}
	judge(r, {{o}, {}}, l, e);
}

// ---- every command line up to a length
struct Fixed { Decl d; Line tokens; };
static std::vector<Fixed> FIXED;
static Opt option(const char *key, int sh, const char *lg, ArgParseAction a = ARGACTION_STORE, ArgParseType t = ARGTYPE_GUESS) { Opt o; o.key = key; o.sh = sh; o.lg = lg; o.act = a; o.type = t; return o; }
static Opt flag(const char *key, int sh, const char *lg) { Opt o = option(key, sh, lg, ARGACTION_STORE_TRUE, ARGTYPE_BOOL); o.hasdflt = true; o.dflt = V::boolean(false); return o; }
static Opt argument(const char *key, int mn = -1, int mx = -1, ArgParseAction a = ARGACTION_STORE) { Opt o; o.arg = true; o.key = key; o.act = a; o.minargs = mn; o.maxargs = mx; return o; }
static void lines(mc::Run &r) {
	const Fixed &f = r.pick(FIXED);
	int n = r.choose(r.thorough ? 6 : 5);
	Line l;
	for (int i = 0; i < n; ++i) l.push_back(r.pick(f.tokens));
	judge(r, f.d, l, Env(), false);
}
static void fixed() {
	Opt n = option("num", 'n', "num", ARGACTION_STORE, ARGTYPE_INT); n.max = V::integer(5);
	Opt q = flag("quiet", 'q', "quiet"), v = option("verbose", 'v', "verbose", ARGACTION_COUNT);
	FIXED.push_back({{{n, option("out/name", 'o', "output", ARGACTION_STORE, ARGTYPE_STRING), flag("force", 'f', "force"), v, argument("files", 0, 0, ARGACTION_APPEND)}, {}},
		{"-n", "3", "-v", "-vv", "-fv", "-vn2", "-o", "--output", "--force", "--", "x", "-n9"}});
	FIXED.push_back({{{flag("a", 0, "foo"), option("b", 0, "foobar"), option("c", 0, "food", ARGACTION_APPEND), option("d", 'd', "", ARGACTION_APPEND)}, {}},
		{"--foo", "--foob", "--foob=1", "--food", "--foobar", "--fo", "-d", "-dd", "1", "--food=x", "--foo=1", "-"}});
	Opt c1 = option("m", 'x', "xc", ARGACTION_STORE_CONST), c2 = option("s/t/u", 0, "deep", ARGACTION_STORE_FALSE); c1.cnst = V::list({V::integer(1)}); c2.hasdflt = true; c2.dflt = V::boolean(true);
	FIXED.push_back({{{c1, c2, option("s/t/w", 'w', "wide", ARGACTION_APPEND, ARGTYPE_FLOAT), argument("first"), argument("rest", 1, 2, ARGACTION_APPEND)}, {}},
		{"-x", "--xc", "--deep", "-w", "-w1", "--wide=2.5", "1", "b", "--wi", "-wx", "--"}});
	Opt a = option("a", 'a', ""), b = flag("b", 'b', ""); a.group = b.group = q.group = v.group = "g"; b.hasdflt = q.hasdflt = false;
	for (int req = 0; req < 2; ++req)
		FIXED.push_back({{{a, b, q, v}, {{"g", true, req == 1}}}, {"-a", "-b", "-q", "-v", "-a1", "-bv", "--verb", "1", "-h"}});
	Opt h = option("host", 'h', "host"); h.req = 1;
	FIXED.push_back({{{h, option("t", 't', "", ARGACTION_STORE, ARGTYPE_BOOL), argument("p", 0, 1), argument("z", 2, 2, ARGACTION_APPEND)}, {}}, {"-h", "-hx", "--host", "--help", "--he", "--h", "-t", "no", "-tf", "y", "--hos=1"}});
}

// ---- what is declared about an option: two options, and how often each occurs
static void declared(mc::Run &r) {
	static const ArgParseAction ACTS[] = {ARGACTION_STORE, ARGACTION_APPEND, ARGACTION_STORE_TRUE, ARGACTION_STORE_FALSE, ARGACTION_STORE_CONST, ARGACTION_COUNT};
	Opt o = option("p/o", 'o', "opt"), x = option("x", 'x', "xopt");
	Decl d;
	o.act = ACTS[r.choose(6)];
	bool has = o.act <= ARGACTION_STORE || o.act == ARGACTION_APPEND;
	if (o.act == ARGACTION_STORE_CONST) o.cnst = V::map({{"c", V::integer(7)}});
	int df = r.choose(3);
	if (df) { o.hasdflt = true; o.dflt = df == 1 ? V::integer(40) : V::list({V::integer(41)}); }
	int ev = o.act == ARGACTION_COUNT ? 0 : r.choose(4);
	Env e;
	if (ev) o.env = "MCENV_A";
	if (ev == 2) e["MCENV_A"] = "1";
	if (ev == 3) e["MCENV_A"] = "50";
	if (o.act == ARGACTION_STORE || o.act == ARGACTION_APPEND) { if (r.choose(2)) { o.type = ARGTYPE_INT; o.max = V::integer(45); } }
	else if (o.act != ARGACTION_STORE_CONST && o.act != ARGACTION_COUNT) o.type = ARGTYPE_BOOL;
	o.req = r.choose(3);
	if (o.act == ARGACTION_APPEND) { o.minargs = r.choose(4) - 1; o.maxargs = r.choose(4) - 1; }
	int g = r.choose(4);
	if (g) { o.group = x.group = "g"; d.groups.push_back({"g", g != 3, g >= 2}); }
	static const ArgParseAction OTHER[] = {ARGACTION_COUNT, ARGACTION_STORE, ARGACTION_STORE_FALSE};
	x.act = OTHER[r.choose(3)];
	bool xhas = x.act == ARGACTION_STORE;
	if (x.act == ARGACTION_STORE_FALSE) x.type = ARGTYPE_BOOL;
	if (has && r.choose(2)) { o.arg = true; o.sh = 0; o.lg = ""; if (o.act == ARGACTION_STORE) { o.minargs = r.choose(3) - 1; } }
	int n = r.choose(4), k = r.choose(3);
	if (r.thorough) { if (r.choose(2)) { x.hasdflt = !o.hasdflt; x.dflt = V::integer(42); } }
	d.opts = {o, x};
	Line l;
	if (k == 1) l.push_back("-x"), l.push_back("5");
	if (k == 1 && !xhas) l.pop_back();
	for (int i = 0; i < n; ++i) {
		std::string v = mc::fmt("%d", 43 + i);
		if (o.arg) l.push_back(v); else if (has) l.push_back("--opt=" + v); else l.push_back("-o");
	}
	if (k == 2) l.push_back(xhas ? "-x6" : "--xopt");
	judge(r, d, l, e);
}

// ---- one parser used for several lines: nothing of a line remains
static void reuse(mc::Run &r) {
	Opt l = option("l", 'l', "", ARGACTION_APPEND), d = option("d", 'd', "", ARGACTION_APPEND), s = option("s", 's', "long"), n = option("n", 'n', "", ARGACTION_STORE_FALSE, ARGTYPE_BOOL), c = option("c", 'c', "", ARGACTION_COUNT), k = option("k", 'k', "", ARGACTION_STORE_CONST);
	d.hasdflt = s.hasdflt = n.hasdflt = true; d.dflt = V::integer(7); s.dflt = V::map({{"x", V::integer(1)}}); n.dflt = V::boolean(true); k.cnst = V::list({V::integer(1)});
	s.env = "MCENV_A";
	Opt a = option("a", 'a', ""), b = flag("b", 'b', ""); a.group = b.group = "g"; b.hasdflt = false;
	static const Decl D = {{l, d, s, n, c, k, a, b, argument("rest", 0, 0, ARGACTION_APPEND)}, {{"g", true, false}}};
	static const std::vector<Line> LINES = {{}, {"-l1", "-l2", "-l3", "-l4"}, {"-d1"}, {"-s2", "-n"}, {"-cc", "-k"}, {"-a1"}, {"-b"}, {"x", "y", "z", "w"}, {"-d1", "-d2", "-c", "x", "-b", "-l9"}, {"--conf"}, {"-a1", "-b"}, {"-l"}};
	static const std::vector<Env> ENVS = {{}, {{"MCENV_A", "5"}}};
	ArgParse p("prog");
	std::string err, did;
	r.check(declare(p, D, err), "declare", "the declaration is refused: %s", err.c_str());
	int depth = r.thorough ? 4 : 3;
	std::list<Words> words;
	bool exited = true;
	for (int i = 0; i < depth; ++i) {
		const Line &line = r.pick(LINES);
		const Env &env = ENVS[r.choose(2)];
		did += show(line, env) + "; ";
		Outcome want = model(D, line, env);
		Variant raw;
		if (exited) forget_scan();
		words.emplace_back(line);
		Outcome got = parse_words(p, words.back(), env, &raw);
		words.back().gone();
		exited = got.kind != Outcome::RESULT;
		r.step(1);
		r.note("lines %s", did.c_str());
		r.check(want.kind == Outcome::RESULT ? got.kind == Outcome::RESULT && ref::same(got.v, want.v) : got.kind != Outcome::RESULT, "reuse", "line %d: %s, not %s", i + 1, show(got).c_str(), show(want).c_str());
		if (got.kind == Outcome::RESULT) spoil(raw);
	}
	r.state(mc::hash(did)); r.outcome(did.substr(0, 20));
}

// ---- configuration files
static void config(mc::Run &r) {
	static const std::vector<V> DOC = {V::map({}), V::map({{"s", V::integer(1)}}), V::map({{"s", V::integer(9)}}), V::map({{"s", V()}, {"other", V::integer(1)}}), V::map({{"l", V::list({V::integer(1), V::integer(2)})}}), V::map({{"l", V::integer(3)}}),
		V::map({{"l", V::list({V::integer(1), V::integer(9)})}}), V::map({{"n", V::map({{"f", V::boolean(true)}, {"t", V::str("x")}, {"none", V::str("y")}})}}), V::map({{"n", V::map({{"f", V::boolean(false)}, {"t", V::str("long")}})}}), V::map({{"c", V::integer(3)}}), V::map({{"s", V::integer(2)}, {"l", V::list({})}, {"extra", V::map({{"s", V::integer(9)}})}}), V::map({{"list", V::list({V::integer(1), V::map({{"a", V::integer(2)}})})}, {"s", V::integer(3)}})};
	Opt s = option("s", 's', "", ARGACTION_STORE, ARGTYPE_INT), l = option("l", 'l', "", ARGACTION_APPEND, ARGTYPE_INT), t = option("n/t", 't', "", ARGACTION_STORE, ARGTYPE_STRING);
	s.max = V::integer(5); l.max = V::integer(5); s.hasdflt = true; s.dflt = V::integer(0); s.env = "MCENV_A"; t.maxlen = 3;
	static const ArgParseAction ACTS[] = {ARGACTION_CONFIG, ARGACTION_CONFIG_JSON, ARGACTION_CONFIG_YAML, ARGACTION_CONFIG_PLIST};
	int how = r.choose(4), nd = r.choose(3);
	Decl d;
	d.opts = {s, l, t, flag("n/f", 'f', ""), option("c", 'c', "", ARGACTION_COUNT), option("load", 'C', "conf", ACTS[how])};
	std::vector<int> docs;
	for (int i = 0; i < nd; ++i) docs.push_back(r.choose(DOC.size()));
	static const Line CLI = {"-s4", "-l4", "-f", "-c", "-tz"};
	int named = r.choose(5);
	if (!r.thorough && named && nd == 2) return;
	int before = r.choose(CLI.size() + 1), after = r.choose(CLI.size() + 1), env = r.choose(2), bad = r.choose(nd ? 3 : 1);
	if (!r.fresh()) return;
	if ((named + before) % 2) d.opts.back().sh = 0;
	Env e;
	if (env) e["MCENV_A"] = "1";
	Line line;
	if (before) line.push_back(CLI[before - 1]);
	for (int k : docs) line.push_back("--conf=" + config_file(DOC[k], how));
	if (named) { d.opts.back().env = "MCENV_B"; if (named > 1) e["MCENV_B"] = named == 2 ? config_file(DOC[2 - !!nd], how) : named == 3 ? config_file(DOC[4], how) : "/nonexistent/p23"; }
	if (bad == 1) line.push_back("--conf=" + config_file(V(), -1));
	if (bad == 2) line.push_back("--conf=/nonexistent/p23");
	if (after) line.push_back(CLI[after - 1]);
	judge(r, d, line, e);
}

// ---- keys that lead into lists
static void indexed(mc::Run &r) {
	static const std::vector<std::vector<std::string>> KEYS = {{"v[0]", "v[1]", "v[2]"}, {"p[0]/x", "p[0]/y", "p[1]/x"}, {"a/b[1]", "a/c", "a/b[0]"}, {"m[0][1]", "m[1]", "m[0][0]"}, {"v[10]", "v[2]", "w"}};
	static const ArgParseAction ACTS[] = {ARGACTION_STORE, ARGACTION_APPEND, ARGACTION_COUNT, ARGACTION_STORE_TRUE};
	const std::vector<std::string> &k = r.pick(KEYS);
	Decl d;
	int dflt = r.choose(4), arg = r.choose(2), order = r.choose(2);
	for (int i = 0; i < 3; ++i) {
		Opt o = option(k[i].c_str(), "abc"[i], mc::fmt("key%d", i).c_str(), ACTS[r.choose(i ? 3 : 4)]);
		if (o.act == ARGACTION_STORE && i < 2) o.type = i ? ARGTYPE_INT : ARGTYPE_STRING;
		if (i == 2 && arg) { o = argument(k[i].c_str(), 0, 1, o.act == ARGACTION_COUNT ? ARGACTION_STORE : o.act); }
		if (dflt == i + 1) { o.hasdflt = true; o.dflt = o.act == ARGACTION_STORE_TRUE ? V::boolean(false) : V::integer(7); }
		d.opts.insert(order ? d.opts.begin() : d.opts.end(), o);
	}
	static const std::vector<Line> LINES = {{}, {"-a5"}, {"-a"}, {"-b2"}, {"-b"}, {"-c3"}, {"-c"}, {"x"}, {"-b2", "-a5"}, {"-b2", "--key0=5", "x"}, {"-b", "-b"}, {"-ac"}, {"-b1", "-b2", "-c3"}, {"-bx"}};
	int l = r.choose(LINES.size());
	judge(r, d, LINES[l]);
}

// ---- the same declarations, stated in other ways
static void state_otherwise(ArgParse &a, const Decl &d, int way) {
	size_t nth = 0;
	for (auto &o : d.opts) {
		if (o.arg) a.AddArgument(o.key);
		else if (way & 1 && o.act == ARGACTION_STORE_TRUE && o.type == ARGTYPE_BOOL && o.hasdflt && o.dflt.k == V::Bool && !o.dflt.b) { a.AddFlag(o.key, o.sh, o.lg); continue; }
		else a.AddOption(o.key, o.sh, o.lg);
	}
	for (auto &o : d.opts) {
		ArgParseOption p = o.arg && way & 2 ? way & 4 ? a[nth] : a.At(nth) : way & 4 ? a[o.key] : a.At(o.key);
		nth += o.arg;
		if (way & 4) {
			// stated twice: the later one counts
			p.Action(o.act == ARGACTION_STORE ? ARGACTION_COUNT : ARGACTION_STORE).Type(o.type == ARGTYPE_STRING ? ARGTYPE_INT : ARGTYPE_STRING);
			if (o.minargs >= 0 && o.maxargs >= 0) p.NumArgs(7);
			p.Required(o.req != 1);
		}
		static const char *TYPES[] = {"string", "number", "integer", "boolean"};
		int t = o.type == ARGTYPE_STRING ? 0 : o.type == ARGTYPE_FLOAT ? 1 : o.type == ARGTYPE_INT ? 2 : o.type == ARGTYPE_BOOL ? 3 : -1;
		if (way & 1) p.Action(ArgParseActionToStr(o.act)); else p.Action(o.act);
		if (way & 2 && t >= 0) p.Type(std::string(TYPES[t])); else if (way & 2 && o.type == ARGTYPE_GUESS) p.Type(std::string("null")); else p.Type(Variant::Type_t(o.type));
		p.Required(o.req == 1);
		if (o.hasdflt) p.Default(ref::to(o.dflt));
		if (o.cnst.k != V::Null) p.Const(ref::to(o.cnst));
		if (o.min.k != V::Null) p.Minimum(ref::to(o.min));
		if (o.max.k != V::Null) p.Maximum(ref::to(o.max));
		if (!o.env.empty()) p.Env(o.env.c_str());
		if (!o.choices.empty()) {
			std::vector<Variant> c;
			for (auto &x : o.choices) c.push_back(ref::to(x));
			if (way & 4) p.AddChoice("old");
			p.SetChoices(c);
		}
		if (o.minargs >= 0 && o.minargs == o.maxargs) p.NumArgs(o.minargs);
		else { if (o.maxargs >= 0) p.MaxArgs(o.maxargs); if (o.minargs >= 0) p.MinArgs(o.minargs); }
	}
	for (auto &g : d.groups) a.AddGroup(g.name);
	for (auto &o : d.opts) if (!o.group.empty()) {
		Path path;
		ParsePath(path, o.key);
		if (way & 1) a.GetGroup(o.group).Add(path); else a.GetGroup(o.group).Add(o.key);
	}
	for (auto &g : d.groups) {
		if (way & 4) a.GetGroup(g.name).MutuallyExclusive(!g.exclusive).Required(!g.required);
		a.GetGroup(g.name).MutuallyExclusive(g.exclusive).Required(g.required);
	}
}
static void ways(mc::Run &r) {
	const Fixed &f = r.pick(FIXED);
	int way = r.choose(8), help = r.choose(3), n = r.choose(r.thorough ? 5 : 4);
	Line l;
	for (int i = 0; i < n; ++i) l.push_back(r.pick(f.tokens));
	int choice = r.choose(r.thorough ? 2 : 1) ;
	if (!r.fresh()) return;
	Decl d = f.d;
	if (choice || (way + n) % 2) { d.opts[0].choices = {V::integer(1), V::integer(3), V::str("x"), V::str("-v")}; if (d.opts[0].act == ARGACTION_STORE_TRUE || d.opts[0].act == ARGACTION_STORE_CONST) d.opts[0].choices.clear(); }
	r.note("%s line: %s, stated in way %d%s", show(d).c_str(), show(l, Env()).c_str(), way, help == 1 ? ", without help" : help == 2 ? ", help added" : "");
	ArgParse a("prog", help == 0);
	if (help == 2) a.AddHelp();
	state_otherwise(a, d, way);
	Outcome want = model(d, l, Env(), help != 1), got = parse(a, l, Env(), 0);
	r.step(1);
	r.check(want.kind == Outcome::RESULT ? got.kind == Outcome::RESULT && ref::same(got.v, want.v) : got.kind != Outcome::RESULT && (got.code != 0) == (want.kind != Outcome::HELP), "ways", "%s, not %s", show(got).c_str(), show(want).c_str());
	r.state(mc::hash(show(want))); r.outcome(mc::fmt("%d", want.kind));
}

// ---- the configuration that is printed
static void printed(mc::Run &r) {
	static const Line TOKENS = {"-s4", "-l4", "-l1", "-f", "-c", "-cc", "-tz", "-t\"\\\n\xc3\xa9", "-g1", "-g1.5", "-gtrue", "-gnull", "-g\"1\"", "-g01", "-x", "p", "7", "-r0.1", "-r1e300", "-u18446744073709551615", "-k"};
	Opt s = option("s", 's', "", ARGACTION_STORE, ARGTYPE_INT), g = option("m/g/h", 'g', ""), x = option("k", 'k', "", ARGACTION_STORE_CONST);
	s.hasdflt = true; s.dflt = V::integer(0); s.env = "MCENV_A"; g.env = "MCENV_B"; x.cnst = V::str("konst");
	Decl d;
	d.opts = {s, option("l", 'l', "", ARGACTION_APPEND, ARGTYPE_INT), option("n/t", 't', "", ARGACTION_STORE, ARGTYPE_STRING), flag("n/f", 'f', ""), option("c", 'c', "", ARGACTION_COUNT), g, option("x", 'x', "", ARGACTION_STORE_TRUE),
		option("r", 'r', "", ARGACTION_STORE, ARGTYPE_FLOAT), option("u", 'u', "", ARGACTION_STORE, ARGTYPE_UINT), x, argument("p", 0, 0, ARGACTION_APPEND)};
	int n = r.choose(r.thorough ? 5 : 4);
	Line l;
	for (int i = 0; i < n; ++i) l.push_back(r.pick(TOKENS));
	int env = r.choose(3), own = r.choose(2), where = (n + env + own) % 2;
	if (!r.fresh()) return;
	Env e;
	if (env == 1) e["MCENV_A"] = "3";
	if (env == 2) e["MCENV_B"] = "b c";
	r.note("line: %s", show(l, e).c_str());
	ArgParse a("prog");
	std::string err;
	declare(a, d, err);
	if (own) { a.AddOption("pc", 'P', "print-config").Action(ARGACTION_PRINT_CONFIG); a.AddOption("lc", 'C', "config").Action(ARGACTION_CONFIG); }
	else a.AddConfigDefaults();
	Outcome want = model(d, l, e), plain = parse(a, l, e, 0);
	r.check(want.kind == plain.kind && (want.kind != Outcome::RESULT || ref::same(want.v, plain.v)), "plain", "%s, not %s", show(plain).c_str(), show(want).c_str());
	if (want.kind != Outcome::RESULT) throw mc::Skip();
	std::ostringstream out;
	std::streambuf *old = std::cout.rdbuf(out.rdbuf());
	Line pl = l;
	pl.insert(where ? pl.end() : pl.begin(), own && where ? "-P" : "--print-config");
	Outcome got = parse(a, pl, e, 0);
	std::cout.rdbuf(old);
	r.step(1);
	r.check(got.kind != Outcome::RESULT && got.code == 0, "print-status", "printing the configuration: %s", show(got).c_str());
	V back;
	try { back = ref::from(Deserialize(out.str(), SERIALIZE_JSON)); } catch (const std::exception &x) { r.fail("print", "the configuration printed does not read: %s", x.what()); }
	r.check(ref::same(back, want.v), "print", "printed %s, not %s", ref::show(back).c_str(), ref::show(want.v).c_str());
	// and loaded again, it gives the same
	const char *t = getenv("MC_SCRATCH");
	std::string f = mc::fmt("%s/printed.%d", t ? t : "/tmp", int(getpid()));
	{ std::ofstream o(f.c_str()); o << out.str(); }
	got = parse(a, {"--config", f}, e, 0);
	unlink(f.c_str());
	r.check(got.kind == Outcome::RESULT && ref::same(got.v, want.v), "reload", "loading what was printed: %s, not %s", show(got).c_str(), show(want).c_str());
	r.state(mc::hash(show(want))); r.outcome(mc::fmt("%zu", want.v.m.size()));
}

// ---- what may be declared together
static void conflicts(mc::Run &r) {
	static const char *KEYS[] = {"a", "b", "c/d"}, *LONGS[] = {"", "one", "two"};
	static const int SH[] = {0, 'p', 'q'};
	ArgParse a("prog");
	std::set<std::string> keys, longs; std::set<int> shorts;
	Decl d;
	int n = r.choose(r.thorough ? 3 : 2) + 1;
	for (int i = 0; i < n; ++i) {
		int what = r.choose(2), res = what ? 0 : r.choose(2);
		Opt o;
		o.key = KEYS[r.choose(3)]; o.act = ARGACTION_APPEND;
		if (what) { o.arg = true; o.minargs = 0; o.maxargs = 1; } else { o.sh = SH[r.choose(3)]; o.lg = LONGS[r.choose(3)]; }
		a.ConflictResolution(res);
		bool bad = keys.count(o.key) || longs.count(o.lg);
		int sh = o.sh;
		if (o.sh && shorts.count(o.sh)) { if (res) sh = 0; else bad = true; }
		if (!o.arg && !sh && o.lg.empty()) bad = true;
		std::string err;
		bool ok = declare1(a, o, err);
		r.step(1);
		r.note("%s%s%s", res ? "resolving " : "", show(o).c_str(), bad ? " is refused" : "");
		r.check(ok == !bad, "conflict", "declaring %s is %s", show(o).c_str(), ok ? "accepted" : err.c_str());
		if (ok) { o.sh = sh; keys.insert(o.key); if (sh) shorts.insert(sh); if (!o.lg.empty()) longs.insert(o.lg); d.opts.push_back(o); }
	}
	static const std::vector<Line> LINES = {{}, {"-p1"}, {"-q", "1"}, {"--one=1", "--two=2"}, {"x"}, {"x", "-p1", "y"}, {"-p1", "-p2"}};
	const Line &l = r.pick(LINES);
	if (!r.fresh()) return;
	r.note("line: %s", show(l, Env()).c_str());
	for (const char *k : KEYS) {
		bool found = true;
		try { a.At(k).Help("text"); } catch (const std::runtime_error &) { found = false; }
		r.check(found == (keys.count(k) > 0), "lookup", "option %s is %sfound", k, found ? "" : "not ");
	}
	Outcome want = model(d, l, Env()), got = parse(a, l, Env(), 0);
	r.check(want.kind == Outcome::RESULT ? got.kind == Outcome::RESULT && ref::same(got.v, want.v) : got.kind != Outcome::RESULT, "conflict-result", "%s, not %s", show(got).c_str(), show(want).c_str());
	r.state(mc::hash(show(d))); r.outcome(show(want));
}

int main(int argc, char **argv) {
	quiet();
	fixed();
	mc::Check c;
	c.prop = "P23"; c.level = "model_checking";
	c.rule = "the outcome and result of Parse equal those of an independent command line model; parsing again gives the same; errors end with a non-zero status, help with zero";
	c.assumptions = {"option keys do not lie within one another", "at most one member of an exclusive group has a default", "a null value counts as not given", "counting options have no default, environment variable or bounds", "values in configuration files have the declared type", "exit is replaced by an observable stand-in"};
	c.spaces.push_back({"values", mc::fmt("6 types x 8 ways to give a value x 2 actions x 15 constraints x %zu texts", TEXT.size()), values, 3, true});
	c.spaces.push_back({"lines", mc::fmt("%zu declarations x all lines of up to 4 (thorough 5) of about 11 tokens", FIXED.size()), lines, 2, true});
	c.spaces.push_back({"declared", "6 actions x 3 defaults x 4 environments x types x required x 4 x 4 argument counts x 4 groups x option or argument x occurrences of it and of another option", declared, 3, true});
	c.spaces.push_back({"reuse", "one parser with 9 options and arguments x all sequences of 3 (thorough 4) of 12 lines in 2 environments, the words of each line overwritten once it is parsed", reuse, 2, true});
	c.spaces.push_back({"config", "4 actions x up to 2 of 12 files x options before and after x environment x a file named by the environment x bad files", config, 3, true});
	c.spaces.push_back({"indexed", "5 sets of 3 keys that lead into lists x 4 actions each x defaults x option or argument x 2 orders x 14 lines", indexed, 2, true});
	c.spaces.push_back({"ways", mc::fmt("%zu declarations x 8 other ways to state them x help or not x all lines of up to 3 (thorough 4) tokens", FIXED.size()), ways, 2, true});
	c.spaces.push_back({"printed", "the configuration printed, and loaded again: all lines of up to 3 (thorough 4) of 21 tokens x 3 environments x 2 ways to declare", printed, 2, true});
	c.spaces.push_back({"conflicts", "up to 2 (thorough 3) declarations x 3 keys x 3 short and 3 long names x conflict resolution x 7 lines", conflicts, 3, true});
	return mc::run(argc, argv, c);
}
