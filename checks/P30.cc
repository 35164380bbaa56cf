// P30: the parameters of an emitter do what they say, read back, and never change what is written.
#include "ref.hpp"
#include <Variant/Emitter.h>
#include <Variant/EmitterOutput.h>
#include <Variant/Parser.h>
#include <cmath>
#include <sstream>
#include <yaml.h>
using namespace libvariant;
using ref::V;

static V vlist(std::vector<V> x) { V v = V::list(); v.l = x; return v; }
static V vmap(std::vector<std::pair<std::string, V>> x) { V v = V::map(); for (auto &p : x) v.m[p.first] = p.second; return v; }
static V vs(const std::string &s) { return V::str(s); }

static const double THIRD = 1.0 / 3;
static const std::vector<V> &values() {
	static std::vector<V> x;
	if (x.empty()) {
		V d = vlist({V::flt(THIRD), V::flt(-123456.789), V::flt(1e300 / 3), V::flt(0), V::flt(2.5e-7), V::flt(99999.96)});
		x.push_back(d);
		x.push_back(vmap({{"a", vmap({{"b", vmap({{"c", vlist({V::integer(1), vmap({{"d", V::null()}})})}, {"e", V::boolean(true)}})}, {"f", V::flt(THIRD)}})}, {"g", V::integer(-7)}}));
		x.push_back(vlist({vlist({}), vmap({}), vlist({vlist({vlist({V::integer(3)})}), vmap({{"k", vmap({})}, {"l", vlist({})}})})}));
		x.push_back(vmap({{"one", vs("word")}, {"two", vs("several short words here")}, {"three", vlist({vs("x y"), vs("z")})}}));
		x.push_back(vlist({vs(""), vs("true"), vs("12"), vs("1.5"), vs("null"), vs("- dash"), vs("# hash"), vs("a: b"), vs("[x"), vs("{y"), vs("&a"), vs("*b"), vs("!t"), vs("'q'"), vs("\"q\""), vs("a\\b")}));
		x.push_back(vlist({vs("two\nlines"), vs("two\nlines\n"), vs("ends\n\n"), vs("\nstarts"), vs("tab\there"), vs("\xc3\xa9\xe2\x82\xac"), vs("more\n\nthan\none\n")}));
		x.push_back(vlist({vs(" lead"), vs("trail "), vs(" "), vs("in  side"), vs("a\n b\n  c"), vs(" a\nb"), vs("a \nb"), vs("x\n \ny")}));
		std::string lng; for (int i = 0; i < 40; ++i) lng += (i ? " " : "") + std::string(1 + i % 5, 'a' + i % 26);
		x.push_back(vlist({vs(lng), vmap({{"key", vs(lng)}, {"z", vs("short")}})}));
		x.push_back(vmap({{"big", vlist({V::integer(INT64_MIN), V::uinteger(UINT64_MAX), V::integer(0)})}, {"t", V::boolean(false)}, {"n", V::null()}}));
		x.push_back(vmap({{"two\nlines", V::integer(1)}, {" lead", vs("v")}, {"true", V::integer(2)}, {"", vs("w")}, {"a: b", vlist({vs("q")})}}));
		std::vector<V> many; for (int i = 0; i < 30; ++i) many.push_back(V::integer(i * 1000)); x.push_back(vlist(many));
		x.push_back(vlist({V::blob(std::string("\0\1\2three", 8)), V::blob("")}));
		x.push_back(vlist({V::flt(INFINITY), V::flt(-INFINITY)}));
		V deep = vlist({V::integer(1)}); for (int i = 0; i < 12; ++i) deep = i % 2 ? vlist({deep, vs("s")}) : vmap({{"k", deep}}); x.push_back(deep);
	}
	return x;
}

// ---- what a double written with so many digits is worth
static double rounded(double d, unsigned p) { return strtod(mc::fmt("%.*g", (int)p, d).c_str(), 0); }
static V at_precision(const V &v, unsigned p) {
	V o = v;
	if (v.k == V::Flt && std::isfinite(v.f)) o.f = rounded(v.f, p);
	for (auto &e : o.l) { V c = at_precision(e, p); e = c; }
	for (auto &e : o.m) { V c = at_precision(e.second, p); e.second = c; }
	return o;
}
static bool any(const V &v, bool (*f)(const V &)) { if (f(v)) return true; for (auto &e : v.l) if (any(e, f)) return true; for (auto &e : v.m) if (any(e.second, f)) return true; return false; }
static bool is_blob(const V &v) { return v.k == V::Blob; }
static bool is_inf(const V &v) { return v.k == V::Flt && !std::isfinite(v.f); }
static V infs_to_null(const V &v) { V o = v; if (is_inf(v)) return V::null(); for (auto &e : o.l) { V c = infs_to_null(e); e = c; } for (auto &e : o.m) { V c = infs_to_null(e.second); e.second = c; } return o; }

// ---- ways to give an emitter its parameters
enum Way { AT_CREATION, SET_ALL, SET_EACH, SET_BACKWARDS, SERIALIZE, WAYS };
static const char *WAY[] = {"given at creation", "set together", "set one by one", "set one by one, last first", "given to Serialize"};
typedef std::vector<std::pair<std::string, V>> Params;
struct Got { std::string text, error; Variant params; std::map<std::string, V> each; V unknown; };
static Got produce(const V &v, SerializeType type, const Params &ps, int way, const std::vector<std::string> &keys) {
	Got g; std::stringbuf sb;
	Variant p = Variant::MapType; for (auto &x : ps) p[x.first] = ref::to(x.second);
	Variant val = ref::to(v);
	try {
		if (way == SERIALIZE) { Serialize(&sb, val, type, p); g.text = sb.str(); return g; }
		Emitter e = CreateEmitter(CreateEmitterOutput(&sb), type, way == AT_CREATION ? p : Variant());
		if (way == SET_ALL) e.SetParams(p);
		if (way == SET_EACH) for (size_t i = 0; i < ps.size(); ++i) e.SetParam(ps[i].first, ref::to(ps[i].second));
		if (way == SET_BACKWARDS) for (size_t i = ps.size(); i-- > 0;) e.SetParam(ps[i].first, ref::to(ps[i].second));
		g.params = e.GetParams();
		for (auto &k : keys) g.each[k] = ref::from(e.GetParam(k));
		g.unknown = ref::from(e.GetParam("no such parameter"));
		try { e.BeginDocument(); e << val; e.EndDocument(); } catch (const std::exception &x) { g.error = x.what(); if (g.error.empty()) g.error = "error"; }
		if (g.error.empty()) e.Close();
	} catch (const std::exception &x) { g.error = std::string("error ") + x.what(); }
	g.text = sb.str();
	return g;
}
static const V *find(const Params &ps, const char *k) { for (auto &p : ps) if (p.first == k) return &p.second; return 0; }
static void common(mc::Run &r, const Got &g, const Params &ps, int way, const std::vector<std::pair<std::string, V>> &defaults) {
	r.state(g.text); r.outcome(g.error.empty() ? g.text : "refused");
	if (way == SERIALIZE) return;
	r.check(g.unknown.k == V::Null, "unknown", "GetParam of an unknown parameter gives %s", ref::show(g.unknown).c_str());
	V all = ref::from(g.params);
	r.check(all.k == V::Map && all.m.size() == defaults.size(), "list", "GetParams gives %s", ref::show(all).c_str());
	for (auto &d : defaults) {
		const V *given = find(ps, d.first.c_str()); const V &want = given ? *given : d.second;
		if (want.k == V::Null) continue;   // a default nobody documents
		V got = g.each.at(d.first);
		r.check(ref::show(got) == ref::show(want) || ref::same(got, want), "read back", "parameter %s (%s) is %s but GetParam says %s", d.first.c_str(), WAY[way], ref::show(want).c_str(), ref::show(got).c_str());
		r.check(all.m.count(d.first) && ref::same(all.m[d.first], got), "read back", "parameter %s: GetParam says %s, GetParams %s", d.first.c_str(), ref::show(got).c_str(), ref::show(all).c_str());
	}
}
static Params choose_params(mc::Run &r, const std::vector<std::pair<std::string, std::vector<V>>> &space) {
	Params ps;
	for (auto &s : space) { int c = r.dev(s.second.size() + 1); if (c) { ps.push_back({s.first, s.second[c - 1]}); r.note("%s=%s", s.first.c_str(), ref::show(s.second[c - 1]).c_str()); } }
	return ps;
}
static std::string shown(const Params &ps) { std::string s; for (auto &p : ps) s += p.first + "=" + ref::show(p.second) + " "; return s; }
static bool truth(const V *v, bool d) { return v ? v->b : d; }
static unsigned digits(const Params &ps) { const V *p = find(ps, "precision"); return p ? (unsigned)p->i : 17; }

// ---- JSON
static void json(mc::Run &r) {
	const V &v = r.pick(values()); int way = r.choose(WAYS);
	r.note("%s; %s", ref::show(v).c_str(), WAY[way]);
	r.budget = 4;
	std::vector<V> flags = {V::boolean(false), V::boolean(true)}, indents, precs;
	for (int n : {0, 1, 2, 7, 64, 65, 130, 200}) indents.push_back(V::integer(n));
	for (int n : {0, 1, 3, 6, 15, 16, 17, 20}) precs.push_back(V::integer(n));
	Params ps = choose_params(r, {{"pretty", flags}, {"indent", indents}, {"precision", precs}, {"strict", flags}});
	if (!r.fresh()) return;
	Got g = produce(v, SERIALIZE_JSON, ps, way, {"pretty", "indent", "precision", "strict"});
	common(r, g, ps, way, {{"pretty", V::boolean(false)}, {"indent", V::integer(4)}, {"precision", V::null()}, {"strict", V::boolean(false)}});
	bool strict = truth(find(ps, "strict"), false), pretty = truth(find(ps, "pretty"), false);
	if (strict && (any(v, is_blob) || any(v, is_inf))) { r.check(!g.error.empty(), "strict", "strict JSON (%s) written for %s: %s", WAY[way], ref::show(v).c_str(), mc::q(g.text).c_str()); return; }
	r.check(g.error.empty(), "error", "%s with %s: %s", ref::show(v).c_str(), shown(ps).c_str(), g.error.c_str());
	V want = infs_to_null(at_precision(v, digits(ps)));
	V back = ref::from(Deserialize(g.text, SERIALIZE_JSON));
	r.check(ref::same(back, want), "value", "%s with %s is written as %s, which reads as %s", ref::show(v).c_str(), shown(ps).c_str(), mc::q(g.text).c_str(), ref::show(back).c_str());
	unsigned indent = find(ps, "indent") ? (unsigned)find(ps, "indent")->i : 4;
	std::string t = g.text; while (!t.empty() && t.back() == '\n') t.pop_back();
	if (!pretty) { r.check(t.find('\n') == std::string::npos, "compact", "not pretty but on several lines: %s", mc::q(t).c_str()); return; }
	// each element on a line of its own, as far in as it is deep
	std::istringstream is(t); std::string line; int depth = 0;
	while (std::getline(is, line)) {
		size_t n = line.find_first_not_of(' '); r.check(n != std::string::npos, "pretty", "empty line in %s", mc::q(t).c_str());
		int d = depth - (line[n] == ']' || line[n] == '}');
		r.check(n == (size_t)d * indent, "indent", "line %s at depth %d with indent %u has %zu spaces", mc::q(line).c_str(), d, indent, n);
		bool str = false; int elements = 0;
		for (size_t k = n; k < line.size(); ++k) {
			char c = line[k];
			if (str) { if (c == '\\') ++k; else if (c == '"') str = false; continue; }
			if (c == '"') str = true;
			if (c == '[' || c == '{') { if (k + 1 < line.size() && (line[k + 1] == ']' || line[k + 1] == '}')) { ++k; continue; } ++depth; r.check(k + 1 == line.size(), "pretty", "element on the line of what contains it: %s", mc::q(line).c_str()); }
			if (c == ']' || c == '}') --depth;
			if (c == ',') { r.check(k + 1 == line.size(), "pretty", "two elements on one line: %s", mc::q(line).c_str()); }
		}
	}
	r.check(depth == 0, "pretty", "unbalanced: %s", mc::q(t).c_str());
}

// ---- XML
static void xml(mc::Run &r) {
	const V &v = r.pick(values()); int way = r.choose(WAYS);
	r.note("%s; %s", ref::show(v).c_str(), WAY[way]);
	r.budget = 3;
	std::vector<V> flags = {V::boolean(false), V::boolean(true)}, indents, precs;
	for (int n : {1, 2, 3, 8, 40}) indents.push_back(V::integer(n));
	for (int n : {0, 1, 3, 6, 15, 16, 17, 20}) precs.push_back(V::integer(n));
	Params ps = choose_params(r, {{"pretty", flags}, {"indent", indents}, {"precision", precs}});
	if (!r.fresh()) return;
	if (any(v, is_inf)) return;
	Got g = produce(v, SERIALIZE_XMLPLIST, ps, way, {"pretty", "indent", "precision"});
	common(r, g, ps, way, {{"pretty", V::boolean(false)}, {"indent", V::null()}, {"precision", V::null()}});
	if (!g.error.empty()) { // what XML cannot say does not depend on the parameters
		Got plain = produce(v, SERIALIZE_XMLPLIST, {}, AT_CREATION, {}); r.check(!plain.error.empty(), "error", "%s with %s: %s", ref::show(v).c_str(), shown(ps).c_str(), g.error.c_str()); r.outcome("refused"); return; }
	V want = at_precision(v, digits(ps));
	V back;
	try { back = ref::from(Deserialize(g.text, SERIALIZE_XMLPLIST)); } catch (const std::exception &e) { r.fail("value", "%s with %s is written as %s, which is refused: %s", ref::show(v).c_str(), shown(ps).c_str(), mc::q(g.text).c_str(), e.what()); }
	r.check(ref::same(back, want), "value", "%s with %s is written as %s, which reads as %s", ref::show(v).c_str(), shown(ps).c_str(), mc::q(g.text).c_str(), ref::show(back).c_str());
	bool pretty = truth(find(ps, "pretty"), false);
	unsigned indent = find(ps, "indent") ? (unsigned)find(ps, "indent")->i : 4;
	size_t at = 0; while (at != std::string::npos && (g.text[at] != '<' || g.text[at + 1] == '?' || g.text[at + 1] == '!')) at = g.text.find('<', at + 1);
	r.check(at != std::string::npos, "element", "%s", mc::q(g.text).c_str());
	std::string t = g.text.substr(at);
	// the white space between one tag and the next
	int depth = 0; bool closed = true;
	for (size_t k = 0; k < t.size();) {
		if (t[k] != '<') { ++k; continue; }
		size_t e = t.find('>', k); bool end = t[k + 1] == '/', empty = t[e - 1] == '/';
		std::string name = t.substr(k + 1 + end, t.find_first_of(" />", k + 1 + end) - k - 1 - end);
		bool holder = name == "plist" || name == "array" || name == "dict";
		if (end) --depth;
		if (k && (!end || holder)) {
			// in front of an element, and of the end of one that holds elements
			size_t b = k; while (b > 0 && (t[b - 1] == ' ' || t[b - 1] == '\n')) --b;
			std::string gap = t.substr(b, k - b); bool hollow = end && closed == false;
			if (!pretty) r.check(gap.empty(), "compact", "not pretty but there is %s before %s in %s", mc::q(gap).c_str(), name.c_str(), mc::q(t).c_str());
			else if (!hollow) r.check(gap == "\n" + std::string(depth * indent, ' '), "indent", "%s at depth %d with indent %u has %s before it in %s", name.c_str(), depth, indent, mc::q(gap).c_str(), mc::q(t).c_str());
		}
		if (!end && !empty) ++depth;
		closed = end || empty;
		k = e + 1;
	}
}

// ---- YAML, read by libyaml itself
struct Ev { int type, style, col, line; bool implicit; std::string text; };
static std::vector<Ev> events(mc::Run &r, const std::string &t) {
	std::vector<Ev> o; yaml_parser_t p; yaml_parser_initialize(&p); yaml_parser_set_input_string(&p, (const unsigned char *)t.data(), t.size());
	for (bool done = false; !done;) {
		yaml_event_t e;
		if (!yaml_parser_parse(&p, &e)) { std::string why = p.problem ? p.problem : ""; yaml_parser_delete(&p); r.fail("value", "not YAML (%s): %s", why.c_str(), mc::q(t).c_str()); }
		Ev x = {(int)e.type, 0, (int)e.start_mark.column, (int)e.start_mark.line, false, ""};
		if (e.type == YAML_SCALAR_EVENT) { x.style = e.data.scalar.style; x.text.assign((char *)e.data.scalar.value, e.data.scalar.length); x.implicit = e.data.scalar.tag == 0; }
		if (e.type == YAML_MAPPING_START_EVENT) x.style = e.data.mapping_start.style;
		if (e.type == YAML_SEQUENCE_START_EVENT) x.style = e.data.sequence_start.style;
		if (e.type == YAML_DOCUMENT_START_EVENT) x.implicit = e.data.document_start.implicit;
		if (e.type == YAML_DOCUMENT_END_EVENT) x.implicit = e.data.document_end.implicit;
		done = e.type == YAML_STREAM_END_EVENT;
		o.push_back(x); yaml_event_delete(&e);
	}
	yaml_parser_delete(&p);
	return o;
}
static bool simple(const std::string &s) { if (s.empty() || s[0] == ' ' || s.back() == ' ') return false; for (unsigned char c : s) if (!(isalnum(c) || c == ' ')) return false; return isalpha((unsigned char)s[0]) && s != "true" && s != "null"; }
static void yaml(mc::Run &r) {
	const V &v = r.pick(values()); int way = r.choose(WAYS);
	r.note("%s; %s", ref::show(v).c_str(), WAY[way]);
	r.budget = r.thorough ? 5 : 3;
	std::vector<V> flags = {V::boolean(false), V::boolean(true)}, indents, precs, widths, scalars, styles;
	for (int n : {2, 3, 9}) indents.push_back(V::integer(n));
	for (int n : {20, 40, 200}) widths.push_back(V::integer(n));
	for (int n : {1, 6, 17}) precs.push_back(V::integer(n));
	static const char *SC[] = {"any", "plain", "single quoted", "double quoted", "literal", "folded"}, *ST[] = {"any", "block", "flow"};
	for (auto s : SC) scalars.push_back(vs(s));
	for (auto s : ST) styles.push_back(vs(s));
	Params ps = choose_params(r, {{"scalar_style", scalars}, {"map_style", styles}, {"list_style", styles}, {"implicit_document_begin", flags}, {"implicit_document_end", flags}, {"indent", indents}, {"width", widths}, {"precision", precs}});
	if (!r.fresh()) return;
	Got g = produce(v, SERIALIZE_YAML, ps, way, {"scalar_style", "map_style", "list_style", "implicit_document_begin", "implicit_document_end", "indent", "width", "precision"});
	common(r, g, ps, way, {{"scalar_style", vs("any")}, {"map_style", vs("any")}, {"list_style", vs("any")}, {"implicit_document_begin", V::boolean(false)}, {"implicit_document_end", V::boolean(false)}, {"indent", V::null()}, {"width", V::null()}, {"precision", V::null()}});
	r.check(g.error.empty(), "error", "%s with %s: %s", ref::show(v).c_str(), shown(ps).c_str(), g.error.c_str());
	V want = at_precision(v, digits(ps)), back;
	try { back = ref::from(Deserialize(g.text, SERIALIZE_YAML)); } catch (const std::exception &e) { r.fail("value", "%s with %s is written as %s, which is refused: %s", ref::show(v).c_str(), shown(ps).c_str(), mc::q(g.text).c_str(), e.what()); }
	r.check(ref::same(back, want), "value", "%s with %s is written as %s, which reads as %s", ref::show(v).c_str(), shown(ps).c_str(), mc::q(g.text).c_str(), ref::show(back).c_str());
	std::string ms = find(ps, "map_style") ? find(ps, "map_style")->s : "any", ls = find(ps, "list_style") ? find(ps, "list_style")->s : "any", ss = find(ps, "scalar_style") ? find(ps, "scalar_style")->s : "any";
	int indent = find(ps, "indent") ? (int)find(ps, "indent")->i : 2, width = find(ps, "width") ? (int)find(ps, "width")->i : 80;
	bool ib = truth(find(ps, "implicit_document_begin"), false), ie = truth(find(ps, "implicit_document_end"), false);
	std::vector<Ev> es = events(r, g.text);
	struct Lvl { bool map, flow, key; int col; }; std::vector<Lvl> st;
	for (size_t i = 0; i < es.size(); ++i) {
		const Ev &e = es[i];
		if (e.type == YAML_DOCUMENT_START_EVENT) r.check(e.implicit == ib, "document", "document begin %s, asked for %s: %s", e.implicit ? "implicit" : "explicit", ib ? "implicit" : "explicit", mc::q(g.text).c_str());
		if (e.type == YAML_DOCUMENT_END_EVENT) r.check(e.implicit == ie, "document", "document end %s, asked for %s: %s", e.implicit ? "implicit" : "explicit", ie ? "implicit" : "explicit", mc::q(g.text).c_str());
		bool iskey = !st.empty() && st.back().map && st.back().key, inflow = !st.empty() && st.back().flow, value = !st.empty() && st.back().map && !st.back().key;
		if (!st.empty() && e.type != YAML_MAPPING_END_EVENT && e.type != YAML_SEQUENCE_END_EVENT && st.back().map) st.back().key = !st.back().key;
		if (e.type == YAML_MAPPING_START_EVENT || e.type == YAML_SEQUENCE_START_EVENT) {
			bool map = e.type == YAML_MAPPING_START_EVENT; const std::string &style = map ? ms : ls;
			bool isempty = es[i + 1].type == (map ? YAML_MAPPING_END_EVENT : YAML_SEQUENCE_END_EVENT), flow = map ? e.style == YAML_FLOW_MAPPING_STYLE : e.style == YAML_FLOW_SEQUENCE_STYLE;
			bool must = style == "flow" || inflow || isempty;
			r.check(flow == must, "style", "a %s is written in %s style, asked for %s: %s", map ? "map" : "list", flow ? "flow" : "block", style.c_str(), mc::q(g.text).c_str());
			if (map && !flow && value && !inflow) r.check(e.col == st.back().col + indent, "indent", "a map in a map begins %d columns further in, asked for %d: %s", e.col - st.back().col, indent, mc::q(g.text).c_str());
			st.push_back({map, flow || inflow, map, e.col});
		}
		if (e.type == YAML_MAPPING_END_EVENT || e.type == YAML_SEQUENCE_END_EVENT) st.pop_back();
		if (e.type == YAML_SCALAR_EVENT && e.implicit) {
			if (ss == "double quoted" && e.style != YAML_PLAIN_SCALAR_STYLE) r.check(e.style == YAML_DOUBLE_QUOTED_SCALAR_STYLE, "scalar", "%s is written in style %d, asked for %s: %s", mc::q(e.text).c_str(), e.style, ss.c_str(), mc::q(g.text).c_str());
			if (simple(e.text)) {
				int w = ss == "single quoted" ? YAML_SINGLE_QUOTED_SCALAR_STYLE : ss == "double quoted" ? YAML_DOUBLE_QUOTED_SCALAR_STYLE : ss == "literal" ? YAML_LITERAL_SCALAR_STYLE : ss == "folded" ? YAML_FOLDED_SCALAR_STYLE : YAML_PLAIN_SCALAR_STYLE;
				bool block = w == YAML_LITERAL_SCALAR_STYLE || w == YAML_FOLDED_SCALAR_STYLE;
				if (e.text != "false" && !(block && (inflow || iskey))) r.check(e.style == w, "scalar", "%s is written in style %d, asked for %s: %s", mc::q(e.text).c_str(), e.style, ss.c_str(), mc::q(g.text).c_str());
			}
		}
	}
	// lines are broken where they can be
	if (ss != "literal") {
		std::istringstream is(g.text); std::string line;
		while (std::getline(is, line)) if (line.size() > (size_t)width + 12) { size_t sp = line.find(' ', width + 12); bool words = any(v, [](const V &x) { return x.k == V::Str && x.s.size() > 100; }) || v.l.size() == 30; r.check(!words || sp == std::string::npos, "width", "a line of %zu columns, asked for %d: %s", line.size(), width, mc::q(line).c_str()); }
		if (width == 200 && v.k == V::List && v.l.size() == 2 && v.l[0].k == V::Str && ss == "any") { size_t n = g.text.find(v.l[0].s); r.check(n != std::string::npos, "width", "text of %zu columns broken at width 200: %s", v.l[0].s.size(), mc::q(g.text).c_str()); }
	}
}

// ---- bundle headers
static void bundle(mc::Run &r) {
	static const double D[] = {THIRD, -123456.789, 1e300 / 3, 0, 2.5e-7, 99999.96};
	int way = r.choose(WAYS); double d = D[r.choose(6)]; r.budget = 1;
	std::vector<V> precs; for (int n : {0, 1, 3, 6, 15, 16, 17, 20}) precs.push_back(V::integer(n));
	Params ps = choose_params(r, {{"precision", precs}});
	V v = vmap({{"x", V::flt(d)}, {"y", V::integer(12345678)}, {"l", vlist({V::flt(d), vs("t")})}});
	r.note("%s; %s", ref::show(v).c_str(), WAY[way]);
	Got g = produce(v, SERIALIZE_BUNDLEHDR, ps, way, {"precision"});
	common(r, g, ps, way, {{"precision", V::null()}});
	r.check(g.error.empty(), "error", "%s", g.error.c_str());
	Variant b = Deserialize(g.text, SERIALIZE_BUNDLEHDR);
	double want = rounded(d, digits(ps));
	r.check(b["x"].AsDouble() == want && b["l"][0u].AsDouble() == want && b["y"].AsInt() == 12345678, "value", "%s with %s is written as %s", ref::show(v).c_str(), shown(ps).c_str(), mc::q(g.text).c_str());
}

// ---- changing precision and strictness on the way
static void midway(mc::Run &r) {
	static const SerializeType T[] = {SERIALIZE_JSON, SERIALIZE_YAML, SERIALIZE_XMLPLIST};
	int t = r.choose(3); std::stringbuf sb; std::vector<V> want; unsigned prec = 17; bool strict = false, refused = false;
	r.note("format %d", t);
	Emitter e = CreateEmitter(CreateEmitterOutput(&sb), T[t]);
	e.BeginDocument(); e.BeginList();
	int n = r.thorough ? 6 : 5;
	for (int i = 0; i < n; ++i) {
		int c = r.choose(t == 0 ? 6 : 4);
		if (c == 0) { r.note("end"); break; }
		if (c == 1) { r.note("1/3"); e << THIRD; want.push_back(V::flt(rounded(THIRD, prec))); }
		if (c == 2) { prec = prec == 17 ? 3 : 17; r.note("precision %u", prec); e.SetParam("precision", prec); }
		if (c == 3) { prec = 6; r.note("precision 6 with SetParams"); Variant p; p["precision"] = 6; e.SetParams(p); }
		if (c == 4) { strict = !strict; r.note("strict %d", strict); e.SetParam("strict", strict); }
		if (c == 5) {
			r.note("infinity");
			try { e << (double)INFINITY; want.push_back(V::null()); r.check(!strict, "strict", "infinity written in strict mode"); }
			catch (const std::runtime_error &) { r.check(strict, "strict", "infinity refused though not strict"); refused = true; }
			if (refused) break;
		}
	}
	if (refused) { r.outcome("refused"); return; }
	e.EndList(); e.EndDocument(); e.Close();
	V back = ref::from(Deserialize(sb.str(), T[t]));
	r.check(ref::same(back, vlist(want)), "midway", "wrote %s, expected %s", mc::q(sb.str()).c_str(), ref::show(vlist(want)).c_str());
	r.state(sb.str()); r.outcome(sb.str());
}

// ---- parameters set one way and then another
static void changed(mc::Run &r) {
	static const SerializeType T[] = {SERIALIZE_JSON, SERIALIZE_YAML, SERIALIZE_XMLPLIST, SERIALIZE_BUNDLEHDR};
	static const char *TN[] = {"JSON", "YAML", "XML", "bundle header"};
	static const V B[] = {V::boolean(false), V::boolean(true)};
	std::vector<V> flags(B, B + 2), indents = {V::integer(2), V::integer(3), V::integer(8)}, precs = {V::integer(3), V::integer(17)}, widths = {V::integer(20), V::integer(200)}, scalars = {vs("any"), vs("plain"), vs("single quoted"), vs("double quoted"), vs("literal"), vs("folded")}, styles = {vs("any"), vs("block"), vs("flow")};
	int t = r.choose(4);
	static const std::vector<size_t> VALUES = {0, 1, 2, 3, 4, 5, 7, 13};
	size_t i = t == 3 ? 0 : r.pick(VALUES);
	V v = t == 3 ? vmap({{"x", V::flt(THIRD)}, {"l", vlist({V::flt(THIRD), vs("t")})}}) : values()[i];
	bool together = r.choose(2);
	std::vector<std::pair<std::string, std::vector<V>>> space;
	if (t == 0) space = {{"pretty", flags}, {"indent", indents}, {"precision", precs}, {"strict", flags}};
	if (t == 1) space = {{"scalar_style", scalars}, {"map_style", styles}, {"list_style", styles}, {"implicit_document_begin", flags}, {"implicit_document_end", flags}, {"indent", indents}, {"width", widths}, {"precision", precs}};
	if (t == 2) space = {{"pretty", flags}, {"indent", indents}, {"precision", precs}};
	if (t == 3) space = {{"precision", precs}};
	r.note("%s %s; first", TN[t], ref::show(v).c_str());
	r.budget = t == 1 ? r.thorough ? 3 : 2 : 4;
	Params first = choose_params(r, space);
	r.note("then"); r.budget = t == 1 ? 2 : 4;
	Params then = choose_params(r, space);
	// an indent or width of YAML once given cannot be taken back, only changed
	if (t == 1) for (auto k : {"indent", "width"}) if (find(first, k) && !find(then, k)) return;
	if (!r.fresh()) return;
	try {
		std::stringbuf a, b, c;
		Variant fp = Variant::MapType, tp = Variant::MapType;
		for (auto &x : first) fp[x.first] = ref::to(x.second);
		for (auto &x : then) tp[x.first] = ref::to(x.second);
		Emitter plain = CreateEmitter(CreateEmitterOutput(&a), T[t]);
		Variant all = plain.GetParams();
		for (auto &x : then) all[x.first] = ref::to(x.second);
		Emitter e = CreateEmitter(CreateEmitterOutput(&b), T[t], fp), f = CreateEmitter(CreateEmitterOutput(&c), T[t], tp);
		if (together) e.SetParams(all);
		else for (auto &x : space) e.SetParam(x.first, all[x.first]);
		for (auto &x : space) { V g = ref::from(e.GetParam(x.first)), w = ref::from(all[x.first]); r.check(ref::same(g, w), "read back", "parameter %s set to %s, GetParam says %s", x.first.c_str(), ref::show(w).c_str(), ref::show(g).c_str()); }
		for (Emitter *x : {&e, &f}) { x->BeginDocument(); *x << ref::to(v); x->EndDocument(); x->Close(); }
		r.check(b.str() == c.str(), "changed", "parameters %s, changed to %s: %s, set only so: %s", shown(first).c_str(), shown(then).c_str(), mc::q(b.str()).c_str(), mc::q(c.str()).c_str());
		r.state(b.str()); r.outcome(TN[t]); r.step(1);
	} catch (const std::exception &x) { r.fail("error", "%s", x.what()); }
}

int main(int argc, char **argv) {
	mc::Check c;
	c.prop = "P30"; c.level = "model_checking";
	c.rule = "Emitter parameters read back as set, act the same however they are given, have the documented effect on layout, digits, styles and strictness, and otherwise never change the value written.";
	c.assumptions = {"YAML styles are read off the output by libyaml's own parser; YAML widths are 20 and more and indents 2 to 9, the range libyaml accepts.", "XML indent is at least 1."};
	c.spaces.push_back({"JSON", "14 values x 5 ways to give parameters x every combination of pretty (unset, off, on), indent (unset, 8 values), precision (unset, 8 values), strict (unset, off, on)", json, 2, true});
	c.spaces.push_back({"XML", "14 values x 5 ways x every combination of pretty, indent (unset, 5 values), precision (unset, 8 values)", xml, 2, true});
	c.spaces.push_back({"YAML", "14 values x 5 ways x every combination of up to N of the 8 parameters (quick 3, thorough 5) with all their styles, 3 indents, 3 widths, 3 precisions", yaml, 2, true});
	c.spaces.push_back({"bundle header", "6 doubles x 5 ways x precision (unset, 8 values)", bundle, 1, true});
	c.spaces.push_back({"midway", "every sequence of up to N writes and parameter changes in a list (quick 5, thorough 6), JSON, YAML and XML", midway, 2, true});
	c.spaces.push_back({"changed", "4 formats x 8 values x up to 4 parameters (YAML 2, thorough 3) set at creation and all set anew with up to 4 (YAML 2) away from the defaults, together or one by one", changed, 3, true});
	return mc::run(argc, argv, c);
}
