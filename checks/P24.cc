// P24: the description and the schema of an option parser say what the parser does.
#include "argdecl.hpp"
#include <Variant/SchemaLoader.h>
#include <algorithm>
using namespace libvariant;
using ref::V;

typedef std::vector<std::string> Line;

// Groups keep no order of their members.
static V sorted(const V &v, const std::string &name = "") {
	V o = v;
	for (auto &e : o.l) e = sorted(e);
	for (auto &e : o.m) e.second = sorted(e.second, e.first);
	if (name == "members" || name == "oneOf" || name == "anyOf" || name == "allOf" || name == "required")
		std::sort(o.l.begin(), o.l.end(), [](const V &a, const V &b) { return ref::show(a) < ref::show(b); });
	return o;
}
static V description(const ArgParse &a) {
	V d = ref::from(a.GetDescription()), o = V::map({});
	for (const char *k : {"options", "arguments", "groups"}) if (d.m.count(k)) o.m[k] = sorted(d.m[k]);
	return o;
}
static V schema_of(const ArgParse &a) { return sorted(ref::from(a.GenerateSchema())); }

static void rebuild(mc::Run &r, ArgParse &b, const ArgParse &a, int way) {
	try {
		switch (way) {
		case 0: b.Merge(a.GetDescription()); break;
		case 1: b.Merge(a); break;
		case 2: b.Merge(Deserialize(Serialize(a.GetDescription(), SERIALIZE_JSON), SERIALIZE_JSON)); break;
		case 3: b.Merge(Deserialize(Serialize(a.GetDescription(), SERIALIZE_YAML), SERIALIZE_YAML)); break;
		default: b.Merge(Deserialize(Serialize(a.GetDescription(), SERIALIZE_XMLPLIST), SERIALIZE_XMLPLIST));
		}
	} catch (const std::exception &e) { r.fail("merge", "the description is refused: %s; %s", e.what(), ref::show(ref::from(a.GetDescription())).c_str()); }
}
static void validate(mc::Run &r, const ArgParse &a, const char *what) {
	try { a.Validate(); }
	catch (const std::exception &e) { r.fail("validate", "the description of %s parser is invalid: %s", what, e.what()); }
}
static void compare(mc::Run &r, ArgParse &a, ArgParse &b, const std::vector<Line> &lines, const Env &env, bool schema = true) {
	V da = description(a), db = description(b);
	r.check(ref::same(da, db), "description", "rebuilt: %s; original: %s", ref::show(db).c_str(), ref::show(da).c_str());
	V sa = schema_of(a), sb = schema_of(b);
	r.check(ref::same(sa, sb), "schema", "rebuilt: %s; original: %s", ref::show(sb).c_str(), ref::show(sa).c_str());
	Variant s = a.GenerateSchema();
	for (auto &l : lines) {
		Variant raw;
		Outcome oa = parse(a, l, env, &raw), ob = parse(b, l, env, 0);
		r.step(2);
		r.check(oa.kind == ob.kind && oa.code == ob.code && (oa.kind != Outcome::RESULT || ref::same(oa.v, ob.v)), "behaviour", "line %s: rebuilt %s; original %s", show(l, env).c_str(), show(ob).c_str(), show(oa).c_str());
		if (schema && oa.kind == Outcome::RESULT) {
			SchemaResult v = SchemaValidate(s, raw);
			r.check(!v.Error(), "result-schema", "line %s: result %s does not match schema %s: %s", show(l, env).c_str(), ref::show(oa.v).c_str(), ref::show(sa).c_str(), v.PrettyPrintMessage().c_str());
		}
		r.outcome(mc::fmt("%d", oa.kind));
	}
	r.state(mc::hash(ref::show(da)));
}
// a minimum number of arguments asks for the option unless it is said not to be required
static bool needed(const Opt &o) { return o.req == 1 || (o.req == 0 && o.minargs > 0); }
// What was declared is in the description.
static void stated(mc::Run &r, const ArgParse &a, const Decl &d) {
	V x = description(a);
	size_t arg = 0;
	for (auto &o : d.opts) {
		V e;
		if (o.arg) { if (x.m["arguments"].l.size() > arg) e = x.m["arguments"].l[arg++]; }
		else e = x.m["options"].m["/" + o.key];
		std::string s = show(o), at = ref::show(e);
		auto want = [&](const char *k, const V &v) { r.check(e.k == V::Map && e.m.count(k) && ref::same(e.m[k], v), "stated", "%s: %s is not %s in %s", s.c_str(), k, ref::show(v).c_str(), at.c_str()); };
		auto none = [&](const char *k) { r.check(!e.m.count(k) || e.m[k].k == V::Null, "stated", "%s: %s is stated in %s", s.c_str(), k, at.c_str()); };
		want("keypath", V::str("/" + o.key)); want("action", V::str(ArgParseActionToStr(o.act))); want("description", V::str(o.help));
		want("required", V::boolean(needed(o))); want("advanced", V::boolean(o.adv != 0));
		if (o.sh) want("shortOption", V::str(std::string(1, char(o.sh)))); else none("shortOption");
		if (!o.lg.empty()) want("longOption", V::str(o.lg)); else none("longOption");
		if (!o.title.empty()) want("title", V::str(o.title));
		if (o.hasdflt) want("default", o.dflt); else none("default");
		if (o.cnst.k != V::Null) want("const", o.cnst); else none("const");
		if (o.min.k != V::Null) want("minimum", type_of(o) == ARGTYPE_UINT && num(o.min) < 0 ? V::integer(0) : o.min); else if (type_of(o) != ARGTYPE_UINT) none("minimum");
		if (o.max.k != V::Null) want("maximum", o.max); else none("maximum");
		if (!o.env.empty()) want("env", V::str(o.env)); else none("env");
		if (!o.pattern.empty()) want("pattern", V::str(o.pattern)); else none("pattern");
		if (o.minlen >= 0) want("minLength", V::integer(o.minlen)); else none("minLength");
		if (o.maxlen >= 0) want("maxLength", V::integer(o.maxlen)); else none("maxLength");
		if (o.minargs >= 0) want("minArgs", V::integer(o.minargs));
		if (o.maxargs >= 0) want("maxArgs", V::integer(o.maxargs));
		if (!o.choices.empty()) want("enum", V::list(o.choices)); else none("enum");
		static const char *T[] = {0, "integer", "integer", "number", "string", "boolean"};
		switch (type_of(o)) {
		case ARGTYPE_GUESS: none("type"); break;
		case ARGTYPE_INT: case ARGTYPE_UINT: want("type", V::str(T[1])); break;
		case ARGTYPE_FLOAT: want("type", V::str(T[3])); break;
		case ARGTYPE_STRING: want("type", V::str(T[4])); break;
		default: want("type", V::str(T[5]));
		}
	}
	for (auto &g : d.groups) {
		V e = x.m["groups"].m[g.name];
		std::vector<std::string> mem;
		for (auto &o : d.opts) if (o.group == g.name) mem.push_back("/" + o.key);
		std::sort(mem.begin(), mem.end());
		std::vector<V> l;
		for (auto &m : mem) l.push_back(V::str(m));
		r.check(ref::same(sorted(e.m["members"], "members"), sorted(V::list(l), "members")) && ref::same(e.m["mutually exclusive"], V::boolean(g.exclusive)) && ref::same(e.m["required"], V::boolean(g.required))
			&& (g.title.empty() || ref::same(e.m["title"], V::str(g.title))) && (g.help.empty() || ref::same(e.m["description"], V::str(g.help))), "stated", "group %s: %s", g.name.c_str(), ref::show(e).c_str());
	}
}

static const ArgParseType TYPES[] = {ARGTYPE_GUESS, ARGTYPE_INT, ARGTYPE_UINT, ARGTYPE_FLOAT, ARGTYPE_STRING, ARGTYPE_BOOL};
static void constraint(Opt &o, int c) {
	switch (c) {
	case 1: o.min = V::integer(0); break;
	case 2: o.max = V::integer(10); break;
	case 3: o.min = V::integer(-5); o.max = V::integer(5); break;
	case 4: o.min = V::flt(0.5); o.max = V::flt(7.25); break;
	case 5: o.choices = {V::integer(1), V::integer(10), V::str("ab")}; break;
	case 6: o.choices = {V::str("a"), V::boolean(true)}; break;
	case 7: o.choices = {V::flt(1.5), V::boolean(false), V::uinteger(UINTMAX_MAX)}; break;
	case 8: o.pattern = "^a"; break;
	case 9: o.pattern = "b$|^$"; break;
	case 10: o.minlen = 2; break;
	case 11: o.maxlen = 2; break;
	case 12: o.minlen = 1; o.maxlen = 1; o.pattern = "."; break;
	}
}
// A value that satisfies everything declared, or null.
static V good_default(const Opt &o) {
	static const std::vector<std::string> T = {"1", "10", "a", "ab", "b", "1.5", "true", "false", "18446744073709551615", "5"};
	for (auto &t : T) try { V v = convert(o, t); constrain(o, v); return v; } catch (const Bad &) {}
	return V();
}
// lines that give an option or argument every kind of value
static std::vector<Line> value_lines(const Opt &o, bool thorough) {
	std::vector<Line> l = {{}, {"-o"}, {"--opt=1", "-x"}, {"-o1", "-o5"}, {"a"}, {"1", "5"}};
	static const char *T[] = {"1", "-1", "11", "1.5", "0.25", "", "a", "ba", "false", "18446744073709551615", "0", "-0", "5", "9", "b", "ab", "\xc3\xa9", "x y"};
	for (size_t i = 0; i < (thorough ? 18 : 10); ++i) l.push_back(o.arg ? Line{"--", T[i]} : Line{(o.lg.empty() ? "-o" : "--opt=") + std::string(T[i])});
	return l;
}

// ---- one option
static void one(mc::Run &r) {
	static const ArgParseAction ACTS[] = {ARGACTION_STORE, ARGACTION_APPEND, ARGACTION_STORE_TRUE, ARGACTION_STORE_FALSE, ARGACTION_STORE_CONST, ARGACTION_COUNT, ARGACTION_CONFIG, ARGACTION_CONFIG_JSON, ARGACTION_CONFIG_YAML, ARGACTION_CONFIG_PLIST, ARGACTION_HELP};
	static const char *KEYS[] = {"o", "p/o", "p q/\xc3\xa9", "a\\/b"};
	Opt o; Decl d; Env env;
	o.act = ACTS[r.choose(11)];
	int way = r.thorough ? r.choose(5) : r.choose(2) * 2;
	bool has = o.act == ARGACTION_STORE || o.act == ARGACTION_APPEND;
	if (has) { o.type = TYPES[r.choose(6)]; constraint(o, r.choose(13)); }
	else if (o.act == ARGACTION_STORE_TRUE || o.act == ARGACTION_STORE_FALSE) o.type = ARGTYPE_BOOL;
	else if (o.act == ARGACTION_STORE_CONST) o.cnst = std::vector<V>{V::integer(7), V::map({{"c", V::list({V::integer(1)})}}), V::boolean(false)}[r.choose(3)];
	o.arg = has && r.choose(2);
	int df = o.act < ARGACTION_COUNT ? r.choose(3) : 0;
	if (df) { o.dflt = has ? good_default(o) : V::boolean(df == 1); o.hasdflt = o.dflt.k != V::Null; }
	if (df == 2 && has) { o.env = "MCENV_A"; env["MCENV_A"] = "1"; }
	if (o.act == ARGACTION_APPEND) { int n = r.choose(4); if (n) { o.minargs = n == 1 ? 0 : n - 1; o.maxargs = n == 1 ? 0 : 2; } }
	else if (o.act == ARGACTION_STORE && o.arg) { if (r.choose(2)) { o.minargs = 0; o.maxargs = 1; } }
	int look = r.choose(r.thorough ? 12 : 4);      // key, title, help, required, advanced
	o.key = KEYS[look % 4];
	if (look % 4 == 1) { o.title = "TITLE"; o.help = "some \"help\"\n text"; }
	o.req = look % 3 == 2 ? 1 : look % 3 == 1 ? 2 : 0;
	o.adv = look / 4 % 2 || look == 3;
	if (!o.arg) { o.sh = look % 2 ? 'o' : 0; o.lg = look % 4 == 3 ? "" : "opt"; }
	d.opts = {o};
	if (!r.fresh()) return;
	r.note("%s merged %d", show(d).c_str(), way);
	ArgParse a("prog"), b("prog");
	std::string err;
	r.check(declare(a, d, err), "declare", "refused: %s", err.c_str());
	validate(r, a, "the declared");
	stated(r, a, d);
	rebuild(r, b, a, way);
	validate(r, b, "the rebuilt");
	compare(r, a, b, value_lines(o, r.thorough), env, o.act != ARGACTION_HELP);
}

// ---- names
static void names(mc::Run &r) {
	static const std::string SH = std::string("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789@%,./=^_~");
	static const std::vector<std::string> LONGS = {"", "x", "UPPER", "x-y", "x_y", "a1", "1a", "no-", "caf\xc3\xa9", "a.b", "Mixed", std::string(60, 'l'), "helper"};
	Opt o, x; Decl d;
	int c = r.choose(SH.size() + 1);
	o.sh = c < (int)SH.size() ? SH[c] : 0; o.lg = r.pick(LONGS); o.key = "k"; o.act = r.choose(2) ? ARGACTION_STORE : ARGACTION_COUNT;
	if (!o.sh && o.lg.empty()) return;
	x.key = "K"; x.sh = isalpha(o.sh) ? o.sh ^ 32 : 'Z'; x.lg = o.lg == "UPPER" ? "upper" : "X"; x.act = ARGACTION_COUNT;
	if (r.choose(2)) { x.group = o.group = "G"; d.groups.push_back({"G", true, false, "", ""}); }
	d.opts = {o, x};
	if (!r.fresh()) return;
	r.note("%s", show(d).c_str());
	ArgParse a("prog"), b("prog"), p("prog");
	std::string err;
	r.check(declare(a, d, err) && declare(p, d, err), "declare", "refused: %s", err.c_str());
	validate(r, a, "the declared");
	stated(r, a, d);
	rebuild(r, b, a, 2);
	std::vector<Line> lines = {{}};
	for (auto &p : d.opts) { if (p.sh) lines.push_back({std::string("-") + char(p.sh), "7"}); if (!p.lg.empty()) { lines.push_back({"--" + p.lg, "7"}); lines.push_back({"--" + p.lg.substr(0, 1), "7"}); } }
	for (auto &l : lines) {
		Outcome want = model(d, l, Env()), got = parse(p, l, Env(), 0);
		r.check(want.kind == Outcome::RESULT ? got.kind == Outcome::RESULT && ref::same(got.v, want.v) : got.kind != Outcome::RESULT, "name", "line %s: %s, not %s", show(l, Env()).c_str(), show(got).c_str(), show(want).c_str());
	}
	compare(r, a, b, lines, Env());
}

// ---- several options, arguments and groups; merged in one or two parts, before or after parsing
static void several(mc::Run &r) {
	static const char *KEYS[] = {"m", "a", "z/y"};
	static const ArgParseAction ACTS[] = {ARGACTION_STORE, ARGACTION_STORE_TRUE, ARGACTION_COUNT, ARGACTION_APPEND};
	int way = r.thorough ? r.choose(3) : r.choose(2) * 2, split = r.choose(3), n = 3;
	Decl d;
	for (int i = 0; i < n; ++i) {
		Opt o;
		o.key = KEYS[i]; o.act = ACTS[r.choose(4)];
		if (o.act == ARGACTION_STORE_TRUE) o.type = ARGTYPE_BOOL;
		if ((o.act == ARGACTION_STORE || o.act == ARGACTION_APPEND) && r.choose(2)) { o.arg = true; o.minargs = 0; o.maxargs = 1; }
		else { o.sh = "bco"[i]; o.lg = std::string("name") + "ABC"[i]; }
		if (i == 1 && o.act == ARGACTION_STORE) { o.hasdflt = true; o.dflt = V::integer(3); }
		d.opts.push_back(o);
	}
	int g = r.choose(5), members = g ? r.choose(3) : 0;
	if (g) {
		d.groups.push_back({"g", g >= 3, g % 2 == 0, "Title", g == 3 ? "text" : ""});
		for (int i = 0; i < n; ++i) if (members == 2 || i != members) d.opts[i].group = "g";
	}
	int pre = r.thorough || way == 0 ? r.choose(2) : split == 1;
	if (!r.fresh()) return;
	r.note("%s merged %d split %d pre %d", show(d).c_str(), way, split, pre);
	static const std::vector<Line> LINES = {{}, {"-b", "-c", "-o"}, {"-b1"}, {"-c1"}, {"-o", "1"}, {"-b"}, {"-c"}, {"-o"}, {"--nameA", "--nameC"}, {"x"}, {"x", "y"}, {"x", "y", "z"}, {"x", "-o"}, {"-bbc", "x"}, {"--name=1"}, {"-h"}};
	ArgParse a("prog"), b("prog");
	std::string err;
	r.check(declare(a, d, err), "declare", "refused: %s", err.c_str());
	if (pre) parse(a, LINES[9], Env(), 0);
	validate(r, a, "the declared");
	if (!pre) stated(r, a, d);
	if (split == 0) rebuild(r, b, a, way);
	else {
		// the first options are declared directly or merged from another parser, the rest and the groups merged
		ArgParse p("prog"), q("prog");
		for (int i = 0; i < n; ++i) declare1(i < 1 ? p : q, d.opts[i], err);
		for (auto &x : d.groups) for (ArgParse *y : {&p, &q}) y->AddGroup(x.name, x.title, x.help).MutuallyExclusive(x.exclusive).Required(x.required);
		if (split == 1) rebuild(r, b, p, way); else declare1(b, d.opts[0], err);
		rebuild(r, b, q, way);
		if (pre) parse(b, LINES[9], Env(), 0);
	}
	validate(r, b, "the rebuilt");
	compare(r, a, b, LINES, Env());
}

// ---- keys that lead into lists
static void indexed(mc::Run &r) {
	static const std::vector<std::vector<std::string>> KEYS = {{"v[0]", "v[1]"}, {"p[0]/x", "p[0]/y"}, {"a/b[0]", "a/c"}, {"m[0][0]", "m[1]"}, {"l[0]/k[0]/z", "l[1]"}};
	static const ArgParseAction ACTS[] = {ARGACTION_STORE, ARGACTION_STORE_TRUE, ARGACTION_APPEND};
	static const std::vector<Line> LINES = {{}, {"-a5"}, {"-a"}, {"-a5", "-b2"}, {"-a", "-b"}, {"-a", "-b3"}, {"-a5", "-a6", "-b"}, {"-b2"}, {"-a5", "x"}, {"-a", "x"}};
	const std::vector<std::string> &k = r.pick(KEYS);
	int way = r.thorough ? r.choose(5) : r.choose(2) * 2, arg = r.choose(2), group = r.choose(2), type = r.choose(2), req = r.choose(2);
	Decl d;
	for (int i = 0; i < 2; ++i) {
		Opt o;
		o.key = k[i]; o.act = ACTS[r.choose(3)];
		if (i && arg) { if (o.act == ARGACTION_STORE_TRUE) throw mc::Skip(); o.arg = true; o.minargs = 0; o.maxargs = 1; } else o.sh = "ab"[i];
		if (o.act == ARGACTION_STORE_TRUE) o.type = ARGTYPE_BOOL; else if (type) o.type = ARGTYPE_INT;
		if (!i && req) o.req = 1;
		if (group) o.group = "g";
		d.opts.push_back(o);
	}
	if (group) d.groups.push_back({"g", true, false, "Title", ""});
	if (!r.fresh()) return;
	r.note("%s merged %d", show(d).c_str(), way);
	ArgParse a("prog"), b("prog");
	std::string err;
	r.check(declare(a, d, err), "declare", "refused: %s", err.c_str());
	validate(r, a, "the declared");
	stated(r, a, d);
	rebuild(r, b, a, way);
	validate(r, b, "the rebuilt");
	compare(r, a, b, LINES, Env());
	// what a line does not give is not accepted either
	Variant s = a.GenerateSchema();
	for (auto &l : LINES) {
		Outcome o = model(d, l, Env());
		if (o.kind != Outcome::RESULT || !type) continue;
		for (int i = 0; i < 2; ++i) {
			if (d.opts[i].act != ARGACTION_STORE) continue;
			V w = o.v;
			if (!i || !group) put(w, d.opts[i].key, V::str("text")); else continue;
			r.check(SchemaValidate(s, ref::to(w)).Error(), "schema-loose", "%s matches schema %s", ref::show(w).c_str(), ref::show(ref::from(s)).c_str());
		}
	}
}

static void indexed_verdict(mc::Run &r) {
	static const std::vector<std::vector<std::string>> KEYS = {{"v[0]", "v[1]", "v[2]"}, {"p[0]/x", "p[0]/y", "p[1]/x"}, {"m[0][0]", "m[0][1]", "m[1][0]"}, {"a/b[1]", "a/b[0]", "a/c"}};
	const std::vector<std::string> &k = r.pick(KEYS);
	int req = r.choose(8), group = r.choose(3), order = r.choose(2), typed = r.choose(2);
	int given[3];
	for (auto &g : given) g = r.choose(3);
	if (!r.fresh()) return;
	Decl d;
	for (int i = 0; i < 3; ++i) {
		Opt o;
		o.key = k[i]; o.sh = "abc"[i];
		if (typed) o.type = ARGTYPE_INT; else o.choices = {V::integer(5), V::integer(6)};
		if (req >> i & 1) o.req = 1;
		if (group && i < 2) o.group = "g";
		d.opts.insert(order ? d.opts.begin() : d.opts.end(), o);
	}
	if (group) d.groups.push_back({"g", true, group == 2, "", ""});
	V doc = V::map({});
	bool ok = true; int n = 0;
	for (int i = 0; i < 3; ++i) {
		if (given[i]) put(doc, k[i], given[i] == 1 ? V::integer(5) : V::str("text"));
		ok &= given[i] ? given[i] == 1 : !(req >> i & 1);
		n += i < 2 && given[i];
	}
	if (group) ok &= n <= 1 && (n || group == 1);
	r.note("%s document %s", show(d).c_str(), ref::show(doc).c_str());
	ArgParse a("prog");
	std::string err;
	r.check(declare(a, d, err), "declare", "refused: %s", err.c_str());
	Variant s = a.GenerateSchema();
	SchemaResult v = SchemaValidate(s, ref::to(doc));
	r.step(1);
	r.check(v.Error() == !ok, "indexed-verdict", "%s by %s: %s", v.Error() ? "refused" : "accepted", ref::show(ref::from(s)).c_str(), v.Error() ? v.PrettyPrintMessage().c_str() : "");
	r.state(mc::hash(ref::show(ref::from(s)))); r.outcome(ok ? "valid" : "invalid");
}

// ---- parsers that were merged stay apart
// A description that is not one: refused or merged, and whatever is done with the parser then ends
static void odd(mc::Run &r) {
	static const char *ACT[] = {"store", "append", "count", "store_const", "store_true", "config"};
	static const std::vector<V> BAD = {V::null(), V::boolean(true), V::integer(-1), V::uinteger(~0ull), V::flt(2.5), V::flt(NAN), V::str(""), V::str("x"), V::str("a[3]/b"), V::list(), V::list({V::null(), V::str("q")}), V::map(), V::map({{"title", V::integer(1)}}), V::blob("b")};
	const V T = V::boolean(true);
	V base = V::map({{"type", V::str("integer")}, {"title", V::str("t")}, {"description", V::str("d")}, {"default", V::integer(1)}, {"const", V::integer(2)}, {"required", T}, {"advanced", T}, {"enum", V::list({V::integer(1), V::integer(2)})}, {"minimum", V::integer(0)}, {"maximum", V::integer(9)}, {"minLength", V::integer(0)}, {"maxLength", V::integer(5)}, {"pattern", V::str("^[0-9]")}, {"minArgs", V::integer(0)}, {"maxArgs", V::integer(2)}});
	base.m["action"] = V::str(ACT[r.choose(6)]);
	V opt = base, arg = base;
	opt.m["longOption"] = V::str("opt"); opt.m["shortOption"] = V::str("o"); opt.m["env"] = V::str("MC_ODD");
	arg.m["keypath"] = V::str("arg");
	if (arg.m["action"].s == "count" || arg.m["action"].s == "store_true") arg.m["action"] = V::str("store");
	V d = V::map({{"title", V::str("t")}, {"description", V::str("d")}, {"epilog", V::str("e")}, {"options", V::map({{"/opt", opt}})}, {"arguments", V::list({arg})},
		{"groups", V::map({{"g", V::map({{"title", V::str("t")}, {"description", V::str("d")}, {"mutually exclusive", T}, {"required", T}, {"advanced", T}, {"members", V::list({V::str("/opt"), V::str("/arg")})}})}})}});
	auto spots = [](V &v) {
		std::vector<std::pair<V *, std::string>> o;
		for (auto &e : v.m) o.push_back({&v, e.first});
		return o;
	};
	for (int n = 0; n < (r.thorough ? 2 : 1); ++n) {
		std::vector<std::pair<V *, std::string>> at = spots(d);
		for (const char *k : {"options", "groups"}) if (d.m.count(k) && d.m[k].k == V::Map) for (auto &e : spots(d.m[k])) { at.push_back(e); V &x = d.m[k].m[e.second]; if (x.k == V::Map) for (auto &f : spots(x)) at.push_back(f); }
		if (d.m.count("arguments") && d.m["arguments"].k == V::List) for (V &x : d.m["arguments"].l) if (x.k == V::Map) for (auto &f : spots(x)) at.push_back(f);
		auto &place = at[r.choose(at.size())];
		int what = r.choose(BAD.size() + 1);
		// the usage message spells out each of that many arguments
		if ((place.second == "minArgs" || place.second == "maxArgs") && (what == 3 || what == 4)) throw mc::Skip();
		r.note("%s %s;", place.second.c_str(), what ? ref::show(BAD[what - 1]).c_str() : "left out");
		if (what) place.first->m[place.second] = BAD[what - 1]; else place.first->m.erase(place.second);
	}
	const Variant given = ref::to(d);
	ArgParse a("prog");
	bool merged = true;
	try { a.Merge(given); } catch (std::exception &) { merged = false; }
	r.step(1);
	r.check(ref::same(ref::from(given), d), "given", "merging changes the description given");
	std::string kind = merged ? "merged" : "refused";
	try { Variant s = a.GenerateSchema(); kind += " S"; (void)SchemaValidate(s, given); } catch (std::exception &) {}
	try { a.Validate(); kind += " V"; } catch (std::exception &) {}
	for (auto &l : std::vector<std::vector<std::string>>{{}, {"--opt", "1"}, {"-o1", "2", "3"}, {"-o", "-o"}, {"x", "y"}}) { Outcome o = parse(a, l, Env(), 0); kind += char('0' + o.kind); }
	r.outcome(kind); r.state(mc::hash(ref::show(d)));
}

static void apart(mc::Run &r) {
	int way = r.choose(2), what = r.choose(9), who = r.choose(3);
	Opt o; o.key = "o"; o.sh = 'o'; o.lg = "opt"; o.choices = {V::integer(1), V::str("a")}; o.hasdflt = true; o.dflt = V::list({V::integer(1)}); o.group = "g";
	Opt c; c.key = "c"; c.lg = "const"; c.act = ARGACTION_STORE_CONST; c.cnst = V::map({{"k", V::integer(1)}}); c.group = "g";
	Decl d; d.opts = {o, c}; d.groups = {{"g", true, false, "", ""}};
	if (!r.fresh()) return;
	r.note("merge %d change %d of %d", way, what, who);
	ArgParse a("prog"), b("prog");
	std::string err;
	declare(a, d, err);
	Variant desc = a.GetDescription();
	if (way) b.Merge(a); else b.Merge(desc);
	V before = description(a);
	ArgParse &changed = who == 0 ? a : b, &other = who == 0 ? b : a;
	r.check(ref::same(before, description(b)), "description", "rebuilt differs");
	if (who == 2) { spoil(desc); r.check(ref::same(before, description(a)) && ref::same(before, description(b)), "apart", "changing a description changes the parser"); r.step(1); return; }
	switch (what) {
	case 0: changed.At("o").AddChoice(2); break;
	case 1: changed.At("o").Default(5); break;
	case 2: changed.At("o").Help("other"); break;
	case 3: changed.At("o").Required(); break;
	case 4: changed.At("o").Type(ARGTYPE_STRING).Pattern("^a"); break;
	case 5: changed.AddOption("n", 'n').Group("g"); break;
	case 6: changed.GetGroup("g").MutuallyExclusive(false); break;
	case 7: { Variant raw; parse(changed, {"--const"}, Env(), &raw); spoil(raw); parse(changed, {}, Env(), &raw); spoil(raw); break; }
	case 8: { Variant s = changed.GenerateSchema(); spoil(s); break; }
	}
	r.step(1);
	r.check(ref::same(before, description(other)), "apart", "the other parser changes: %s", ref::show(description(other)).c_str());
	V own = description(changed);
	if (what == 8) r.check(ref::same(before, own), "apart", "changing a generated schema changes the parser: %s", ref::show(own).c_str());
	if (what == 7) { for (const char *k : {"/o", "/c"}) r.check(ref::same(before.m["options"].m[k], own.m["options"].m[k]), "apart", "parsing changes the description: %s", ref::show(own).c_str()); }
	r.state(mc::hash(ref::show(own)));
}

// ---- the generated schema accepts exactly the values the declaration allows
static bool typed(const Opt &o, const V &v) {
	switch (type_of(o)) {
	case ARGTYPE_INT: return v.k == V::Int || v.k == V::Uint;
	case ARGTYPE_UINT: return v.k == V::Uint || (v.k == V::Int && v.i >= 0);
	case ARGTYPE_FLOAT: return v.isnum();
	case ARGTYPE_STRING: return v.k == V::Str;
	case ARGTYPE_BOOL: return v.k == V::Bool;
	default: return true;
	}
}
static bool allowed(const Opt &o, const V &v) {
	if (!typed(o, v)) return false;
	try { constrain(o, v); } catch (const Bad &) { return false; }
	return true;
}
static const std::vector<V> DOCS = {V::integer(0), V::integer(1), V::integer(-1), V::integer(-5), V::integer(-6), V::integer(5), V::integer(6), V::integer(10), V::integer(11), V::uinteger(UINTMAX_MAX), V::flt(0.5), V::flt(0.25), V::flt(1.5), V::flt(7.25), V::flt(7.5), V::flt(-0.5), V::flt(-5.5), V::flt(10.5),
	V::str(""), V::str("a"), V::str("b"), V::str("ab"), V::str("ba"), V::str("abc"), V::str("\xc3\xa9\xc3\xa9"), V::str("\xc3\xa9"), V::boolean(true), V::boolean(false)};
static void verdict(mc::Run &r) {
	static const ArgParseAction ACTS[] = {ARGACTION_STORE, ARGACTION_APPEND, ARGACTION_STORE_TRUE, ARGACTION_STORE_FALSE, ARGACTION_STORE_CONST, ARGACTION_COUNT};
	Opt o; Decl d;
	o.act = ACTS[r.choose(6)];
	int form = r.choose(2), req = r.choose(2);
	o.lg = "opt"; o.req = req; o.key = (r.thorough ? r.choose(2) : req) ? "p/o" : "o";
	bool has = o.act == ARGACTION_STORE || o.act == ARGACTION_APPEND;
	if (has) { o.type = TYPES[r.choose(6)]; constraint(o, r.choose(13)); }
	else if (o.act < ARGACTION_APPEND && o.act != ARGACTION_STORE_CONST) o.type = ARGTYPE_BOOL;
	else if (o.act == ARGACTION_STORE_CONST) { o.cnst = r.choose(2) ? V::integer(10) : V::str("ab"); if (r.choose(2)) { o.hasdflt = true; o.dflt = V::boolean(false); } }
	std::vector<V> l;
	if (o.act == ARGACTION_APPEND) {
		o.minargs = r.choose(3) - 1; o.maxargs = r.choose(3) - 1;
		if (o.maxargs > 0) o.maxargs = 2;
		int n = form ? 0 : r.choose(4);
		if (n > 0) l.push_back(r.pick(DOCS));
		if (n == 2) { static const int SECOND[] = {1, 18, 22}; l.push_back(r.thorough ? r.pick(DOCS) : DOCS[SECOND[r.choose(3)]]); }
		if (n > 2) { l.push_back(DOCS[1]); l.push_back(l[0]); }
	}
	d.opts = {o};
	int which = form || o.act == ARGACTION_APPEND ? 0 : r.choose(DOCS.size());
	if (!r.fresh()) return;
	ArgParse a("prog");
	std::string err;
	r.check(declare(a, d, err), "declare", "refused: %s", err.c_str());
	V doc = V::map({});
	bool ok;
	if (form) ok = !needed(o);
	else if (o.act == ARGACTION_APPEND) {
		put(doc, o.key, V::list(l));
		ok = (o.minargs < 0 || (int)l.size() >= o.minargs) && (o.maxargs <= 0 || (int)l.size() <= o.maxargs);
		for (auto &v : l) ok = ok && allowed(o, v);
	} else {
		V v = DOCS[which];
		put(doc, o.key, v);
		if (o.act == ARGACTION_STORE) ok = allowed(o, v);
		else if (o.act == ARGACTION_STORE_CONST) ok = equal(v, o.cnst) || (o.hasdflt && equal(v, o.dflt));
		else if (o.act == ARGACTION_COUNT) ok = v.k == V::Uint || (v.k == V::Int && v.i >= 0);
		else ok = v.k == V::Bool;
	}
	SchemaResult got = SchemaValidate(a.GenerateSchema(), ref::to(doc));
	r.step(1);
	r.note("%s document %s", show(d).c_str(), ref::show(doc).c_str());
	r.check(!got.Error() == ok, "verdict", "the generated schema %s says %s", ref::show(schema_of(a)).c_str(), got.Error() ? "invalid" : "valid");
	r.state(mc::hash(ref::show(schema_of(a)))); r.outcome(ok ? "valid" : "invalid");
}
// which of several options must be present
static void several_required(mc::Run &r) {
	static const std::vector<std::vector<const char*>> KEYS = {{"a", "b", "c", "d"}, {"a", "p/b", "p/c", "p/q/d"}, {"p/q/r/a", "p/q/r/b", "z/b", "z/a"}};
	const std::vector<const char*> &keys = r.pick(KEYS);
	int req = r.choose(16), there = r.choose(16), arg = r.choose(2), order = r.choose(2);
	Decl d; V doc = V::map({});
	for (int i = 0; i < 4; ++i) {
		Opt o; o.key = keys[i]; o.req = req >> i & 1;
		if (arg && i > 1) { o.arg = true; o.minargs = o.req; o.maxargs = 1; o.req = 0; } else o.lg = std::string("name") + "ABCD"[i];
		if (there >> i & 1) put(doc, o.key, V::integer(i));
		d.opts.insert(order ? d.opts.begin() : d.opts.end(), o);
	}
	bool ok = (req & ~there) == 0;
	if (!r.fresh()) return;
	ArgParse a("prog");
	std::string err;
	r.check(declare(a, d, err), "declare", "refused: %s", err.c_str());
	SchemaResult got = SchemaValidate(a.GenerateSchema(), ref::to(doc));
	r.step(1);
	r.note("%s document %s", show(d).c_str(), ref::show(doc).c_str());
	r.check(!got.Error() == ok, "required-verdict", "the generated schema %s says %s", ref::show(schema_of(a)).c_str(), got.Error() ? "invalid" : "valid");
	r.state(mc::hash(ref::show(schema_of(a)))); r.outcome(ok ? "valid" : "invalid");
}
// which members of an exclusive group may be present together
static void groups(mc::Run &r) {
	static const char *KEYS[] = {"a", "p/b", "p/c"};
	int kinds[3], g = r.choose(4), count = r.choose(3);
	for (int &k : kinds) k = r.choose(3);         // absent, present, not a member but present
	Decl d; V doc = V::map({}); int n = 0;
	d.groups.push_back({"g", g < 2, g % 2 == 1, "", ""});
	for (int i = 0; i < 3; ++i) {
		Opt o; o.key = KEYS[i]; o.lg = std::string("name") + "ABC"[i];
		if (kinds[i] != 2) o.group = "g";
		bool present = kinds[i] != 0;
		if (i == 0 && count) { o.act = ARGACTION_COUNT; put(doc, o.key, V::integer(present ? count : 0)); }
		else if (present) put(doc, o.key, V::integer(i));
		n += kinds[i] == 1;
		d.opts.push_back(o);
	}
	bool ok = g >= 2 || !(n > 1 || (g == 1 && n == 0));
	if (!r.fresh()) return;
	bool any = false;
	for (int k : kinds) any |= k != 2;
	if (!any) return;
	ArgParse a("prog");
	std::string err;
	declare(a, d, err);
	SchemaResult got = SchemaValidate(a.GenerateSchema(), ref::to(doc));
	r.step(1);
	r.note("%s document %s", show(d).c_str(), ref::show(doc).c_str());
	r.check(!got.Error() == ok, "group-verdict", "the generated schema %s says %s", ref::show(schema_of(a)).c_str(), got.Error() ? "invalid" : "valid");
	r.state(mc::hash(ref::show(schema_of(a)))); r.outcome(ok ? "valid" : "invalid");
}

int main(int argc, char **argv) {
	quiet();
	mc::Check c;
	c.prop = "P24"; c.level = "model_checking";
	c.rule = "the description is valid, states every declaration, and merged into a fresh parser (directly or through a text format, whole or in parts) gives the same description, schema and outcome for every line; every result matches the generated schema, which accepts exactly the documents the declarations allow";
	c.assumptions = {"defaults satisfy the constraints of their option", "flags have boolean type", "choices are distinct scalars", "key paths are names, not list indices", "short names are none of the characters with a meaning for getopt", "title, description and epilog of the program are not merged"};
	c.spaces.push_back({"one", "11 actions x 2 ways of merging (thorough 5) x 6 types x 13 constraints x defaults, environment, counts, names; 16 lines each (thorough 24)", one, 3, true});
	c.spaces.push_back({"names", "73 short names and none x 13 long names x 2 actions x with and without a group, beside an option whose names differ in case", names, 1, true});
	c.spaces.push_back({"several", "3 options or arguments of 4 actions x groups x members x merged whole or in parts, before or after parsing; 16 lines each", several, 4, true});
	c.spaces.push_back({"indexed", "5 pairs of keys that lead into lists x 3 actions each x types, required, group, argument; 10 lines each", indexed, 2, true});
	c.spaces.push_back({"indexed-verdict", "4 sets of 3 keys that lead into lists, each required or not, in and out of 2 groups, declared in 2 orders x documents that have each, rightly or wrongly, or not", indexed_verdict, 2, true});
	c.spaces.push_back({"odd", "a description with an option of 6 actions, an argument and a group with everything stated, in which one place (thorough two) is left out or has one of 14 other values: refused or merged, left as it was, and the parser then answers schema, validation and 5 lines", odd, 2, true});
	c.spaces.push_back({"apart", "2 ways of merging x 9 changes to either parser or the description", apart, 1, true});
	c.spaces.push_back({"verdict", mc::fmt("6 actions x 6 types x 13 constraints x required x counts x %zu documents", DOCS.size()), verdict, 4, true});
	c.spaces.push_back({"several-required", "4 options, or 2 and 2 arguments, with 3 sets of keys, declared in 2 orders, each required or not, present or not", several_required, 2, true});
	c.spaces.push_back({"groups", "4 groups x 3 members or not, present or not, one counting", groups, 2, true});
	return mc::run(argc, argv, c);
}
