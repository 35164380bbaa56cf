// P34: help and error messages of ArgParse tell what was declared and what went wrong.
#include "argdecl.hpp"
#include <algorithm>
#include <sstream>
using namespace libvariant;
using ref::V;

typedef std::vector<std::string> Line;

// ---- text
static bool wordc(char c) { return isalnum((unsigned char)c) || c == '-' || c == '_'; }
static std::vector<size_t> where(const std::string &t, const std::string &w) {
	std::vector<size_t> p;
	for (size_t i = t.find(w); i != std::string::npos; i = t.find(w, i + 1)) {
		if (i && wordc(w[0]) && wordc(t[i - 1])) continue;
		if (i + w.size() < t.size() && wordc(w.back()) && wordc(t[i + w.size()])) continue;
		p.push_back(i);
	}
	return p;
}
static bool has(const std::string &t, const std::string &w) { return !where(t, w).empty(); }
static std::string json(const V &v) {
	switch (v.k) {
	case V::Bool: return v.b ? "true" : "false";
	case V::Null: return "null";
	case V::Str: return "\"" + v.s + "\"";
	case V::Flt: return mc::fmt("%g", v.f);
	default: return v.k == V::Int ? mc::fmt("%jd", v.i) : mc::fmt("%ju", v.u);
	}
}

static bool holds(const std::string &t, const V &v) {
	if (v.k != V::Flt) return has(t, json(v));
	size_t i = t.find_first_of("-0123456789");
	return i != std::string::npos && strtod(t.c_str() + i, 0) == v.f;
}

struct Group { std::string name, title, help; bool adv; };
struct Prog {
	std::vector<Opt> opts; std::vector<Group> groups; std::string desc, epilog;
	bool addhelp = true;
};
static void declare(mc::Run &r, ArgParse &a, const Prog &p) {
	std::string err;
	if (!p.desc.empty()) a.SetDescription(p.desc);
	if (!p.epilog.empty()) a.SetEpilog(p.epilog);
	for (auto &o : p.opts) if (!declare1(a, o, err)) r.fail("declare", "the declaration is refused: %s", err.c_str());
	for (auto &g : p.groups) { OptionGroup x = a.AddGroup(g.name, g.title, g.help); if (g.adv) x.Advanced(); }
}
static std::string show(const Prog &p) {
	Decl d; d.opts = p.opts;
	std::string s = ::show(d);
	for (auto &o : p.opts) s += mc::fmt(" %s%s%s", o.key.c_str(), o.adv ? " advanced" : "", o.title.empty() ? "" : (" shown as " + o.title).c_str());
	for (auto &g : p.groups) s += mc::fmt(" group %s '%s' '%s'%s", g.name.c_str(), g.title.c_str(), g.help.c_str(), g.adv ? " advanced" : "");
	return s;
}

// ---- the help text
static std::vector<std::string> names(const Opt &o) {
	std::vector<std::string> n;
	if (o.sh) n.push_back(std::string("-") + char(o.sh));
	if (!o.lg.empty()) n.push_back("--" + o.lg);
	if (n.empty() && !o.env.empty()) n.push_back("$" + o.env);
	return n;
}
static const Group *heading(const Prog &p, const Opt &o) {
	for (auto &g : p.groups) if (g.name == o.group && (!g.title.empty() || !g.help.empty())) return &g;
	return 0;
}
static void judge_help(mc::Run &r, const Prog &p, const std::string &text, bool adv, bool parsed) {
	const char *t = text.c_str();
	std::vector<Opt> all = p.opts;
	bool any = false, taken = false, hshort = false;
	for (auto &o : all) { any |= o.adv != 0; hshort |= o.sh == 'h'; taken |= o.lg == "help"; }
	for (auto &g : p.groups) any |= g.adv;
	if (p.addhelp && parsed && !taken) {
		Opt h; h.act = ARGACTION_HELP; h.sh = hshort ? 0 : 'h'; h.lg = "help"; all.push_back(h);
		if (any) { h.act = ARGACTION_ADVHELP; h.sh = 0; h.lg = "adv-help"; all.push_back(h); }
	}
	// the first line is the way to call the program
	size_t eol = text.find('\n');
	r.check(eol != std::string::npos && text.compare(0, 4, "prog") == 0, "usage", "the help does not begin with the name of the program:\n%s", t);
	std::string usage = text.substr(0, eol);
	for (auto &o : all) if (o.arg) {
		int mn = o.minargs < 0 ? 1 : o.minargs, mx = o.maxargs < 0 ? 1 : o.maxargs;
		std::string w = o.title.empty() ? o.key : o.title;
		std::vector<size_t> at = where(usage, w);
		int n = 0, optional = 0;      // those in brackets are optional
		for (size_t i : at) { int depth = std::count(usage.begin() + usage.find(']') + 1, usage.begin() + i, '[') - std::count(usage.begin() + usage.find(']') + 1, usage.begin() + i, ']'); ++n; optional += depth > 0; }
		size_t dots = at.empty() ? std::string::npos : usage.find("...", at.back());
		for (auto &q : all) if (q.arg && q.key != o.key && dots != std::string::npos) for (size_t i : where(usage, q.title.empty() ? q.key : q.title)) if (i > at.back() && i < dots) dots = std::string::npos;
		r.check(n - optional == mn, "usage", "%s is needed %d times but shown as needed %d times: %s", w.c_str(), mn, n - optional, usage.c_str());
		if (mx == 0) r.check(optional > 0 && dots != std::string::npos, "usage", "it is not shown that %s may be given any number of times: %s", w.c_str(), usage.c_str());
		else { r.check(optional == mx - mn, "usage", "%s may be given %d times more than needed but is shown with %d more: %s", w.c_str(), mx - mn, optional, usage.c_str()); r.check(dots == std::string::npos, "usage", "%s is shown as given any number of times: %s", w.c_str(), usage.c_str()); }
	}
	// where everything is
	std::string body = text.substr(eol);
	struct At { size_t pos; const Opt *o; const Group *g; bool end; };
	std::vector<At> at;
	std::set<const Group *> shown;
	for (auto &o : all) {
		const Group *g = o.arg ? 0 : heading(p, o);
		bool visible = o.arg || ((adv || !o.adv) && (!g || adv || !g->adv));
		std::vector<std::string> n = o.arg ? std::vector<std::string>{o.title.empty() ? o.key : o.title} : names(o);
		if (!visible) {
			for (auto &w : n) r.check(!has(body, w), "hidden", "%s is advanced but is shown:\n%s", w.c_str(), t);
			if (!o.help.empty()) r.check(!has(body, o.help), "hidden", "the description of %s is shown:\n%s", n[0].c_str(), t);
			if (!o.env.empty()) r.check(!has(body, o.env), "hidden", "the environment variable of %s is shown:\n%s", n[0].c_str(), t);
			continue;
		}
		if (g) shown.insert(g);
		size_t first = std::string::npos;
		for (auto &w : n) {
			size_t c = where(body, w).size();
			r.check(o.arg ? c >= 1 : c == 1, "shown", "%s is shown %zu times:\n%s", w.c_str(), c, t);
			first = std::min(first, where(body, w)[0]);
		}
		at.push_back({first, &o, 0, false});
	}
	for (auto &g : p.groups) {
		std::vector<std::string> w;
		if (!g.title.empty()) w.push_back(g.title);
		if (!g.help.empty()) w.push_back(g.help);
		size_t first = std::string::npos;
		for (auto &x : w) {
			size_t c = where(body, x).size();
			if (shown.count(&g)) r.check(c == 1, "heading", "the heading \"%s\" of a group with options is shown %zu times:\n%s", x.c_str(), c, t);
			else if (g.adv && !adv) r.check(c == 0, "heading", "the heading \"%s\" of an advanced group is shown:\n%s", x.c_str(), t);
			if (c) first = std::min(first, where(body, x)[0]);
		}
		if (first != std::string::npos) at.push_back({first, 0, &g, false});
	}
	if (!p.desc.empty()) { r.check(where(body, p.desc).size() == 1, "description", "the description of the program is shown %zu times:\n%s", where(body, p.desc).size(), t); }
	if (!p.epilog.empty()) { r.check(where(body, p.epilog).size() == 1, "epilog", "the epilog is shown %zu times:\n%s", where(body, p.epilog).size(), t); at.push_back({where(body, p.epilog)[0], 0, 0, true}); }
	std::sort(at.begin(), at.end(), [](const At &a, const At &b) { return a.pos < b.pos; });
	const Group *cur = 0;
	for (size_t i = 0; i < at.size(); ++i) {
		if (at[i].end) { r.check(i + 1 == at.size(), "epilog", "the epilog is not at the end:\n%s", t); r.check(body.find(p.desc) <= at[i].pos, "description", "the description comes after the epilog:\n%s", t); continue; }
		if (at[i].g) { cur = at[i].g; continue; }
		const Opt &o = *at[i].o;
		std::string block = body.substr(at[i].pos, i + 1 < at.size() ? at[i + 1].pos - at[i].pos : std::string::npos);
		std::string n = o.arg ? o.key : names(o)[0];
		r.step(1);
		r.check((o.arg ? 0 : heading(p, o)) == cur, "section", "%s is shown under %s:\n%s", n.c_str(), cur ? cur->name.c_str() : "no heading", t);
		for (auto &w : names(o)) r.check(o.arg || has(block, w), "entry", "%s is not shown next to %s:\n%s", w.c_str(), n.c_str(), t);
		if (!o.help.empty()) r.check(where(block, o.help).size() == 1, "entry", "the description of %s is not shown with it:\n%s", n.c_str(), t);
		if (!o.env.empty()) r.check(has(block, "$" + o.env), "entry", "the environment variable of %s is not shown with it:\n%s", n.c_str(), t);
		std::string title = o.title.empty() ? o.key : o.title;
		if (o.act == ARGACTION_STORE || o.act == ARGACTION_APPEND) {
			if (!o.choices.empty()) { for (auto &c : o.choices) { std::string w = c.k == V::Str ? c.s : json(c); r.check(has(block, w), "entry", "the choice %s of %s is not shown with it:\n%s", w.c_str(), n.c_str(), t); } }
			else if (o.type == ARGTYPE_BOOL) r.check(has(block, "yes") && has(block, "no"), "entry", "it is not shown that %s takes a truth value:\n%s", n.c_str(), t);
			else if (!o.title.empty()) r.check(has(block, o.title), "entry", "the value of %s is not shown as %s:\n%s", n.c_str(), o.title.c_str(), t);
		} else if (has_arg(o)) r.check(has(block, "FILE"), "entry", "it is not shown that %s takes a file:\n%s", n.c_str(), t);
		else if (!o.title.empty()) r.check(!has(block, o.title), "entry", "%s is shown with a value it does not take:\n%s", n.c_str(), t);
		bool d = has(block, "default");
		if (!o.hasdflt) r.check(!d, "entry", "%s is shown with a default:\n%s", n.c_str(), t);
		else if (o.dflt.k != V::List && o.dflt.k != V::Map) r.check(d && holds(block.substr(block.find("default")), o.dflt), "entry", "the default %s of %s is not shown with it:\n%s", json(o.dflt).c_str(), n.c_str(), t);
	}
	r.state(mc::hash(text));
}

enum Way { HELP, SHORT, ADV, DIRECT, DIRECT_ADV, UNKNOWN, WITH_ERROR, WAYS };
static std::string capture(std::function<void()> f, int &code) {
	std::ostringstream o;
	std::streambuf *old = std::cerr.rdbuf(o.rdbuf());
	code = -1;
	try { f(); } catch (const Exit &e) { code = e.code; } catch (...) { std::cerr.rdbuf(old); throw; }
	std::cerr.rdbuf(old);
	return o.str();
}
static void help(mc::Run &r, const Prog &p, int way) {
	bool adv = way == ADV || way == DIRECT_ADV, any = false;
	for (auto &o : p.opts) any |= o.adv != 0;
	for (auto &g : p.groups) any |= g.adv;
	if (way == ADV && !any) return;
	if (way == SHORT) for (auto &o : p.opts) if (o.sh == 'h') return;
	r.note("%s way %d", show(p).c_str(), way);
	ArgParse a("prog", p.addhelp);
	declare(r, a, p);
	int code;
	std::string text = capture([&] {
		static const char *W[] = {"--help", "-h", "--adv-help", 0, 0, "--no-such-option", "--help"};
		if (way == DIRECT || way == DIRECT_ADV) a.PrintHelp(way == DIRECT_ADV);
		else { Line l(1, W[way]); if (way == WITH_ERROR) l.insert(l.end(), 20, "too-many"); Outcome o = parse(a, l, Env(), 0); if (o.kind == Outcome::ERROR) throw Exit{o.code}; }
	}, code);
	if (way == UNKNOWN) r.check(code > 0, "status", "an unknown option ends with status %d", code);
	else r.check(code == 0, "status", "help ends with status %d", code);
	judge_help(r, p, text, adv, way != DIRECT && way != DIRECT_ADV);
	r.outcome(mc::fmt("%d", way));
}

static Opt option(int i) {
	static const char *LG[] = {"alpha", "beta", "gamma"}, *TI[] = {"AAA", "BBB", "CCC"}, *HE[] = {"First thing.", "Second thing.", "Third thing."};
	Opt o;
	o.key = mc::fmt("key%d", i); o.sh = "abc"[i]; o.lg = LG[i]; o.title = TI[i]; o.help = HE[i];
	return o;
}
static void one(mc::Run &r) {
	static const ArgParseAction ACT[] = {ARGACTION_STORE, ARGACTION_STORE_CONST, ARGACTION_STORE_TRUE, ARGACTION_STORE_FALSE, ARGACTION_APPEND, ARGACTION_COUNT, ARGACTION_CONFIG, ARGACTION_CONFIG_JSON, ARGACTION_CONFIG_YAML, ARGACTION_CONFIG_PLIST, ARGACTION_PRINT_CONFIG};
	static const ArgParseType TY[] = {ARGTYPE_GUESS, ARGTYPE_INT, ARGTYPE_UINT, ARGTYPE_FLOAT, ARGTYPE_STRING, ARGTYPE_BOOL};
	Prog p;
	Opt o = option(0);
	o.act = ACT[r.choose(11)];
	int way = r.choose(WAYS);
	switch (r.choose(3)) { case 1: o.sh = 0; break; case 2: o.lg = ""; break; }
	if (o.act == ARGACTION_STORE || o.act == ARGACTION_APPEND) {
		o.type = TY[r.choose(6)];
		switch (r.choose(o.type == ARGTYPE_BOOL ? 1 : 4)) {
		case 1: o.choices = {V::integer(31), V::integer(47)}; break;
		case 2: o.choices = {V::str("red")}; break;
		case 3: o.choices = {V::str("red"), V::str("green"), V::integer(5)}; break;
		}
	}
	if (o.act == ARGACTION_STORE_CONST) o.cnst = V::integer(9);
	bool stores = o.act == ARGACTION_STORE || o.act == ARGACTION_STORE_CONST;
	static const V D[] = {V::null(), V::integer(4711), V::str("dflt"), V::boolean(true), V::flt(2.5), V::integer(-3), V::str(""), V::integer(0), V::boolean(false)};
	if (stores) { int d = r.choose(9); if (d) { o.hasdflt = true; o.dflt = D[d]; } }
	if (r.flip()) o.env = "SOME_VARIABLE";
	switch (r.choose(4)) { case 1: o.help = ""; break; case 2: o.title = ""; break; case 3: o.help = "Two lines\n\t\tof words."; break; }
	switch (r.choose(3)) { case 1: p.desc = "What it is for."; break; case 2: p.epilog = "What else to know."; p.desc = "What it is for."; break; }
	if (r.flip()) o.adv = 1;
	p.opts.push_back(o);
	if (r.fresh()) help(r, p, way);
}
static void several(mc::Run &r) {
	Prog p;
	int way = r.choose(WAYS);
	int n = 2 + r.choose(2);
	for (int i = 0; i < n; ++i) {
		Opt o = option(i);
		switch (r.choose(4)) { case 1: o.group = "g1"; break; case 2: o.group = "g2"; break; case 3: o.group = "g3"; break; }
		if (r.flip()) o.adv = 1;
		if (n == 2 || r.thorough) switch (r.choose(3)) { case 1: o.act = ARGACTION_COUNT; break; case 2: o.env = mc::fmt("VARIABLE_%d", i); o.hasdflt = true; o.dflt = V::integer(100 + i); break; }
		p.opts.push_back(o);
	}
	// what the groups are called: with a title, with a description, with both or with none
	int form = r.choose(6);
	auto add = [&](const char *name, const char *title, const char *text, int f, bool adv) { p.groups.push_back({name, f & 1 ? title : "", f & 2 ? text : "", adv}); };
	static const int F[][3] = {{3, 3, 3}, {1, 2, 0}, {0, 3, 1}, {2, 0, 3}, {3, 1, 3}, {0, 0, 1}};
	int a = r.choose(4);
	add("g1", "Colours:", "All that is bright.", F[form][0], a & 1);
	add("g2", "Shapes:", "All that is round.", F[form][1], a & 2);
	add("g3", "Sounds:", "All that is loud.", F[form][2], false);
	if (r.fresh()) help(r, p, way);
}
static void arguments(mc::Run &r) {
	Prog p;
	int way = r.choose(WAYS), n = 1 + r.choose(3);
	for (int i = 0; i < n; ++i) {
		Opt o = option(i);
		o.arg = true; o.sh = 0; o.lg = "";
		int mn = r.choose(4), mx = r.choose(5);
		if (mx && mx < mn) throw mc::Skip();
		o.act = mn == 1 && mx == 1 ? ARGACTION_STORE : ARGACTION_APPEND;
		if (!(mn == 1 && mx == 1 && i == 1)) { o.minargs = mn; o.maxargs = mx; }
		p.opts.push_back(o);
	}
	if (r.flip()) { Opt o = option(2); o.key = "opt"; o.title = "OOO"; o.help = "An option."; p.opts.insert(p.opts.begin(), o); p.desc = "What it is for."; p.epilog = "What else to know."; }
	if (way == WITH_ERROR && r.choose(2)) way = HELP;
	if (r.fresh()) help(r, p, way);
}
// the names the help option would take are taken
static void taken(mc::Run &r) {
	Prog p;
	int way = r.choose(WAYS);
	Opt o = option(0), q = option(1);
	switch (r.choose(4)) { case 1: o.sh = 'h'; break; case 2: o.sh = 'h'; o.lg = ""; break; case 3: p.addhelp = false; o.act = ARGACTION_HELP; o.sh = 'h'; o.lg = "help"; break; }
	if (r.flip()) { q.adv = 1; if (!p.addhelp) throw mc::Skip(); }
	p.opts.push_back(q);
	p.opts.insert(r.flip() ? p.opts.begin() : p.opts.end(), o);
	if (!p.addhelp && way == SHORT) way = HELP;
	if (r.fresh()) help(r, p, way);
}

// ---- the name of the program
static void program(mc::Run &r) {
	static const std::vector<std::string> NAMES = {"", "prog", "./prog", "/usr/bin/a-tool.x", "two words", "../x/y"};
	auto last = [](const std::string &s) { return s.substr(s.rfind('/') + 1); };
	char exe[4096]; ssize_t n = readlink("/proc/self/exe", exe, sizeof(exe));
	if (n <= 0) throw mc::Skip();
	std::string own = last(std::string(exe, n));
	const std::string &made = r.pick(NAMES);
	int ctor = r.choose(2), set = r.choose(3), under = r.choose(3), way = r.choose(2);
	const std::string &name = set ? r.pick(NAMES) : made;
	if (!r.fresh()) return;
	r.note("made as '%s', %s '%s'", made.c_str(), set == 1 ? "set to the last part of" : set == 2 ? "set to" : "not set", set ? name.c_str() : "");
	if (under) setenv("_", under == 1 ? "/bin/launcher" : "", 1); else unsetenv("_");
	std::string want = set == 2 && !name.empty() ? name : last(name);
	if (name.empty()) want = own;
	if (ctor && !made.empty()) throw mc::Skip();
	ArgParse a = ctor ? ArgParse() : ArgParse(made);
	a.AddOption("key", 'k', "key");
	if (set) { if (set == 1) a.SetProgramName(name); else a.SetProgramName(name, false); }
	r.check(a.GetProgramName() == want, "program", "the program is called '%s', not '%s'", a.GetProgramName().c_str(), want.c_str());
	int code;
	std::string text = capture([&] { if (way) a.PrintHelp(); else { Outcome o = parse(a, {"--help"}, Env(), 0); throw Exit{o.code}; } }, code);
	r.step(1);
	r.check(text.compare(0, want.size() + 1, want + ":") == 0, "program-help", "the usage begins '%s', not with '%s'", text.substr(0, 30).c_str(), want.c_str());
	r.state(mc::hash(text)); r.outcome(want);
}

// ---- what went wrong
static void messages(mc::Run &r) {
	Opt o = option(0); Decl d; Line l;
	o.title = "AAA";
	int kind = r.choose(12);
	bool pos = r.flip();
	int nm = r.choose(pos ? 1 : 3);
	if (nm == 1) o.sh = 0;
	if (nm == 2) o.lg = "";
	o.arg = pos;
	if (pos) { o.sh = 0; o.lg = ""; }
	bool app = r.flip();
	if (app) { o.act = ARGACTION_APPEND; if (pos) { o.minargs = 1; o.maxargs = 0; } }
	std::string bad = "1";
	switch (kind) {
	case 0: o.type = ARGTYPE_INT; bad = "12x"; break;
	case 1: o.type = ARGTYPE_UINT; bad = "-12"; if (pos) bad = "12y"; break;
	case 2: o.type = ARGTYPE_FLOAT; bad = "word"; break;
	case 3: o.type = ARGTYPE_INT; o.min = V::integer(5); bad = "3"; break;
	case 4: o.type = ARGTYPE_FLOAT; o.max = V::integer(5); bad = "8"; break;
	case 5: o.type = ARGTYPE_STRING; o.minlen = 3; bad = "ab"; break;
	case 6: o.type = ARGTYPE_STRING; o.maxlen = 3; bad = "abcd"; break;
	case 7: o.type = ARGTYPE_STRING; o.pattern = "^a"; bad = "ba"; break;
	case 8: o.choices = {V::str("red"), V::integer(5)}; bad = "blue"; break;
	case 9: o.req = 1; bad = ""; break;
	case 10: if (!app) throw mc::Skip(); o.minargs = 3; o.maxargs = 0; bad = "x"; break;
	case 11: if (!app || pos) throw mc::Skip(); o.maxargs = 2; bad = "x"; break;
	}
	d.opts.push_back(o);
	if (r.flip()) { Opt q = option(1); d.opts.push_back(q); l.push_back("--beta=1"); }
	std::string name = pos ? "AAA" : o.lg.empty() ? "-a" : "--alpha";
	int times = kind == 9 ? 0 : kind == 11 ? 3 : 1;
	for (int i = 0; i < times; ++i) { if (!pos) l.push_back(name); l.push_back(bad); }
	if (!r.fresh()) return;
	r.note("%s line: %s", ::show(d).c_str(), ::show(l, Env()).c_str());
	ArgParse a("prog");
	std::string err;
	if (!::declare(a, d, err)) r.fail("declare", "the declaration is refused: %s", err.c_str());
	int code;
	Outcome got;
	std::string text = capture([&] { got = parse(a, l, Env(), 0); if (got.kind == Outcome::ERROR) throw Exit{got.code}; }, code);
	r.check(code > 0, "status", "the line ends with status %d", code);
	bool conversion = kind < 3;
	r.check(conversion ? has(text, bad) || has(text, name) : has(text, name), "message", "the message does not name what is wrong (%s): %s", conversion ? bad.c_str() : name.c_str(), text.c_str());
	if (!conversion) for (auto &q : d.opts) if (q.key != o.key) r.check(!has(text, "--" + q.lg), "message", "the message names --%s: %s", q.lg.c_str(), text.c_str());
	r.step(1); r.state(mc::hash(text)); r.outcome(mc::fmt("%d", kind));
}
static void exclusion(mc::Run &r) {
	Decl d; Line l;
	d.groups.push_back({"g", true, r.flip(), "", ""});
	int n = 2 + r.choose(2), given = 0, members = 0;
	std::vector<int> in, use;
	for (int i = 0; i < n; ++i) {
		Opt o = option(i);
		switch (r.choose(3)) { case 1: o.sh = 0; break; case 2: o.lg = ""; break; }
		in.push_back(r.choose(2));
		if (in[i]) { o.group = "g"; ++members; }
		use.push_back(r.choose(2));
		if (use[i]) { l.push_back(o.lg.empty() ? std::string("-") + char(o.sh) : "--" + o.lg); l.push_back("v"); given += in[i]; }
		d.opts.push_back(o);
	}
	if (!members || given == 1 || given > 2 || (given == 0 && !d.groups[0].required) || !r.fresh()) return;
	r.note("%s line: %s", ::show(d).c_str(), ::show(l, Env()).c_str());
	ArgParse a("prog");
	std::string err;
	if (!::declare(a, d, err)) r.fail("declare", "the declaration is refused: %s", err.c_str());
	int code; Outcome got;
	std::string text = capture([&] { got = parse(a, l, Env(), 0); if (got.kind == Outcome::ERROR) throw Exit{got.code}; }, code);
	r.check(code > 0, "status", "the line ends with status %d", code);
	for (int i = 0; i < n; ++i) {
		std::string name = d.opts[i].lg.empty() ? std::string("-") + char(d.opts[i].sh) : "--" + d.opts[i].lg;
		bool should = in[i] && (given == 0 || use[i]);
		r.check(has(text, name) == should, "message", "the message %s %s: %s", should ? "does not name" : "names", name.c_str(), text.c_str());
	}
	r.step(1); r.state(mc::hash(text)); r.outcome(given ? "exclusive" : "required");
}

int main(int argc, char **argv) {
	quiet();
	mc::Check c;
	c.prop = "P34"; c.level = "model_checking";
	c.rule = "the help text, cut into entries by the names of the options, shows each visible option, argument and group once, in its section, with its names, value, choices, variable, description and default, and nothing of what is hidden; messages name the option at fault";
	c.assumptions = {"words and their order are judged, not the layout", "exit() inside the library is replaced by an exception, so that the text can be read in the same process"};
	c.spaces.push_back({"one", "one option: 11 actions, 3 forms of name, 6 types, 4 sets of choices, 9 defaults, variable, description, advanced; 7 ways to get help", one, 2, false});
	c.spaces.push_back({"several", "2-3 options in and out of 3 groups with and without titles and descriptions, advanced or not; 7 ways to get help", several, 2, false});
	c.spaces.push_back({"arguments", "1-3 positional arguments wanted 0-3 to 1-4 or any number of times; 7 ways to get help", arguments, 2, false});
	c.spaces.push_back({"taken", "options that take the names of the help option", taken, 2, false});
	c.spaces.push_back({"program", "6 names given to the parser x 3 ways to change it to 6 names x 3 environments, no name meaning that of the executable", program, 2, false});
	c.spaces.push_back({"messages", "12 kinds of mistake, options named in 3 ways and arguments", messages, 2, false});
	c.spaces.push_back({"exclusion", "2-3 options in and out of a mutually exclusive group, given and not given", exclusion, 2, false});
	return mc::run(argc, argv, c);
}
