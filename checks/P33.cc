// P33: validation errors name the data and the part of the schema that disagree.
#include "schemaset.hpp"
#include <Variant/Schema.h>
#include <Variant/Path.h>
using namespace libvariant;

static V DEFS;      // what "#/definitions/..." names
static const V *resolve(const std::string &u) {
	static const std::string P = "#/definitions/";
	if (u == "#") return 0;
	size_t p = u.find(P);
	if (p == std::string::npos) return 0;
	auto it = DEFS.m.find(u.substr(p + P.size()));
	return it == DEFS.m.end() ? 0 : &it->second;
}
static const ref::Schema &REF() { static ref::Schema s; s.resolve = resolve; return s; }

static V only(const V &s, std::vector<std::string> keys) { V o = V::map(); for (auto &k : keys) if (s.m.count(k)) o.m[k] = s.m.at(k); return o; }

// Walks along a schema path and a data path together.  Returns "" if the place the two name is one
// where the schema refuses the data.
static std::string walk(const V &schema, const V &data, const Path &sp, const Path &dp) {
	const V *s = &schema, *d = &data;
	size_t i = 0, j = 0;
	auto more = [&] { return i < sp.size(); };
	auto refuses = [&](const V &part) { return REF().valid(part, *d) ? std::string("the data named fulfils the keyword named") : std::string(); };
	auto step = [&](const PathElement &e) -> bool {
		if (e.IsString()) { if (d->k != V::Map || !d->m.count(e.AsString())) return false; d = &d->m.at(e.AsString()); return true; }
		if (d->k != V::List || e.AsUnsigned() >= d->l.size()) return false;
		d = &d->l[e.AsUnsigned()]; return true;
	};
	for (;;) {
		while (s->k == V::Map && s->m.count("$ref")) { s = resolve(s->m.at("$ref").s); if (!s) return "a reference leads nowhere"; }
		if (!more()) return "the schema path ends at a schema, not at a keyword";
		if (s->k != V::Map || !sp[i].IsString() || !s->m.count(sp[i].AsString())) return "the schema path leads to something that is not there";
		std::string k = sp[i++].AsString();
		const V &v = s->m.at(k);
		if (k == "properties" || k == "patternProperties") {
			if (!more() || !sp[i].IsString() || !v.m.count(sp[i].AsString())) return "the schema path names a property that is not there";
			std::string n = sp[i++].AsString();
			if (j >= dp.size() || !dp[j].IsString()) return "the data path does not follow into the property";
			std::string key = dp[j].AsString();
			if (k == "properties" ? key != n : !ref::sc_match(n, key)) return "the data path goes to another property";
			if (!step(dp[j++])) return "the data path leads to something that is not there";
			s = &v.m.at(n);
		} else if (k == "additionalProperties") {
			if (j >= dp.size() || !dp[j].IsString()) return "the data path does not follow into the additional property";
			std::string key = dp[j].AsString();
			if (s->m.count("properties") && s->m.at("properties").m.count(key)) return "a declared property is named as additional";
			if (s->m.count("patternProperties")) for (auto &p : s->m.at("patternProperties").m) if (ref::sc_match(p.first, key)) return "a property with a matching pattern is named as additional";
			if (!step(dp[j++])) return "the data path leads to something that is not there";
			if (v.k == V::Bool) return more() || j != dp.size() ? "the paths go on after the end" : v.b ? "additional properties are allowed" : "";
			s = &v;
		} else if (k == "items" || k == "additionalItems") {
			if (j >= dp.size() || !dp[j].IsNumber()) return "the data path does not follow into the list";
			size_t n = dp[j].AsUnsigned();
			if (!step(dp[j++])) return "the data path leads to something that is not there";
			if (k == "items" && v.k == V::List) {
				if (!more() || !sp[i].IsNumber() || sp[i].AsUnsigned() != n || n >= v.l.size()) return "the schema path names another element than the data path";
				++i; s = &v.l[n];
			} else if (k == "additionalItems") {
				if (!s->m.count("items") || s->m.at("items").k != V::List || n < s->m.at("items").l.size()) return "a declared element is named as additional";
				if (v.k == V::Bool) return more() || j != dp.size() ? "the paths go on after the end" : v.b ? "additional items are allowed" : "";
				s = &v;
			} else s = &v;
		} else if ((k == "allOf" || k == "anyOf" || k == "oneOf") && more()) {
			if (!sp[i].IsNumber() || sp[i].AsUnsigned() >= v.l.size()) return "the schema path names an alternative that is not there";
			s = &v.l[sp[i++].AsUnsigned()];
		} else if (k == "not" && more()) {
			s = &v;
		} else if (k == "dependencies") {
			if (!more() || !sp[i].IsString() || !v.m.count(sp[i].AsString())) return "the schema path names a dependency that is not there";
			std::string n = sp[i++].AsString();
			if (d->k != V::Map || !d->m.count(n)) return "the schema path names a dependency that does not apply";
			const V &x = v.m.at(n);
			if (x.k == V::Map) { s = &x; continue; }
			if (!more() || !sp[i].IsNumber() || sp[i].AsUnsigned() >= x.l.size()) return "the schema path names a dependency that is not there";
			const V &e = x.l[sp[i++].AsUnsigned()];
			return more() || j != dp.size() ? "the paths go on after the end" : d->m.count(e.s) ? "the dependency named is met" : "";
		} else if (k == "required") {
			if (!more() || !sp[i].IsNumber() || sp[i].AsUnsigned() >= v.l.size()) return "the schema path does not say which property is required";
			const V &e = v.l[sp[i++].AsUnsigned()];
			return more() || j != dp.size() ? "the paths go on after the end" : d->k != V::Map || d->m.count(e.s) ? "the property named as missing is there" : "";
		} else {
			if (more() || j != dp.size()) return "the paths go on after the end";
			if (k == "exclusiveMinimum") return refuses(only(*s, {k, "minimum"}));
			if (k == "exclusiveMaximum") return refuses(only(*s, {k, "maximum"}));
			return refuses(only(*s, {k}));
		}
	}
}

static size_t errors(mc::Run &r, const V &s, const V &d, const SchemaResult &res, const Path &under, const std::string &all) {
	size_t n = 0;
	r.check(!res.SchemaErrors(), "schema-error", "the schema is reported as wrong: %s", all.c_str());
	for (auto &e : res.GetErrors()) {
		const Path &sp = e.GetSchemaPath(), &dp = e.GetDataPath();
		++n; r.step(1);
		bool below = sp.size() > under.size();
		for (size_t i = 0; below && i < under.size(); ++i) below = sp[i].IsString() == under[i].IsString() && (sp[i].IsString() ? sp[i].AsString() == under[i].AsString() : sp[i].AsUnsigned() == under[i].AsUnsigned());
		std::string why = walk(s, d, sp, dp);
		if (!why.empty() || !below) r.note("schema %s data %s: error at data %s, schema %s", ref::show(s).c_str(), ref::show(d).c_str(), e.GetDataPathStr().c_str(), e.GetSchemaPathStr().c_str());
		r.check(why.empty(), "place", "%s", why.c_str());
		r.check(below, "below", "an error of an alternative is not below that alternative");
		r.check(!e.GetMessage().empty() && all.find(e.GetMessage()) != std::string::npos, "message", "the printed report leaves out an error");
		r.check(e.GetDataPathStr() == PathString(dp) && e.GetSchemaPathStr() == PathString(sp) && all.find(e.GetDataPathStr()) != std::string::npos && all.find(e.GetSchemaPathStr()) != std::string::npos, "path", "the printed report leaves out where an error is");
		std::string own = e.PrettyPrintMessage();
		r.check(own.find(e.GetMessage()) != std::string::npos && own.find(e.GetDataPathStr()) != std::string::npos && own.find(e.GetSchemaPathStr()) != std::string::npos, "own", "an error printed on its own leaves out what or where it is");
		// alternatives: one report for each
		std::string last = !sp.empty() && sp.back().IsString() ? sp.back().AsString() : "";
		size_t sub = e.GetSubErrors().size();
		if (sub) {
			const V *w = &s;
			for (auto &p : sp) {
				while (w->k == V::Map && w->m.count("$ref")) w = resolve(w->m.at("$ref").s);
				w = p.IsString() ? &w->m.at(p.AsString()) : &w->l[p.AsUnsigned()];
			}
			r.check((last == "anyOf" || last == "oneOf") && w->k == V::List && sub == w->l.size(), "alternatives", "%zu reports for %zu alternatives", sub, w->l.size());
			for (size_t i = 0; i < sub; ++i) {
				Path u = sp; u.push_back(unsigned(i));
				size_t m = errors(r, s, d, e.GetSubErrors()[i], u, all);
				r.check(m > 0, "empty", "alternative %zu has no error in its report", i);
				n += m;
			}
		} else if (last == "anyOf") r.fail("alternatives", "a failed anyOf does not say why its alternatives failed");
	}
	return n;
}

static void judge(mc::Run &r, const V &s, const std::vector<V> &ds) {
	V full = s;
	if (!DEFS.m.empty()) full.m["definitions"] = DEFS;
	Variant ls = ref::to(full);
	size_t n = 0;
	for (auto &d : ds) {
		if (REF().valid(s, d)) continue;
		Variant ld = ref::to(d);
		SchemaResult res = SchemaValidate(ls, ld);
		if (!res.Error()) continue;       // P20
		size_t m = errors(r, s, d, res, Path(), res.PrettyPrintMessage());
		if (!m) r.note("schema %s data %s", ref::show(s).c_str(), ref::show(d).c_str());
		r.check(m > 0, "none", "refused without an error");
		n += m;
	}
	r.state(mc::hash(ref::show(full))); r.outcome(mc::fmt("%zu", n));
}
static bool fraction(const KV &k) { return k.first == "multipleOf" && k.second.k == V::Flt; }
static std::vector<V> small() { std::vector<V> o; for (auto &d : DATA) if (!d.isnum() || std::abs(ref::sc_num(d)) < 1e15L) o.push_back(d); return o; }
static const std::vector<V> SMALL = small();

int main(int argc, char **argv) {
	mc::Check c;
	c.prop = "P33"; c.level = "model_checking";
	c.rule = "every error, and every error of every alternative of a failed anyOf or oneOf, is at a keyword that refuses the data it is at, both found by following the two paths together; every alternative is accounted for; the printed report has every message and path";
	c.assumptions = {"the verdict itself is decided by P20 and P21", "a reference takes no place in the schema path, its target is passed through", "which of several failing keywords is reported is not claimed"};
	c.spaces.push_back({"one-keyword", mc::fmt("each of %zu keyword settings x %zu data", KW.size(), DATA.size()), [](mc::Run &r) {
		const KV &k = r.pick(KW);
		judge(r, M({{k.first, k.second}}), fraction(k) ? SMALL : DATA);
	}, 1, true});
	c.spaces.push_back({"two-keywords", "every pair of settings of different keywords x the data", [](mc::Run &r) {
		const KV &a = r.pick(KW);
		const KV &b = r.pick(KW);
		if (a.first >= b.first) return;
		judge(r, M({{a.first, a.second}, {b.first, b.second}}), fraction(a) || fraction(b) ? SMALL : DATA);
	}, 1, true});
	c.spaces.push_back({"limits", "minimum and maximum settings, each exclusive or not", [](mc::Run &r) {
		static const std::vector<V> N = {I(0), I(1), V::flt(0.5), V::uinteger(1), I(-3)};
		V s = V::map();
		int a = r.choose(N.size() + 1), b = r.choose(N.size() + 1);
		if (a) { s.m["minimum"] = N[a - 1]; int e = r.choose(3); if (e) s.m["exclusiveMinimum"] = B(e == 1); }
		if (b) { s.m["maximum"] = N[b - 1]; int e = r.choose(3); if (e) s.m["exclusiveMaximum"] = B(e == 1); }
		judge(r, s, DATA);
	}, 1, true});
	c.spaces.push_back({"nested", mc::fmt("%d ways to combine two schemas, applied twice, over %zu schemas (thorough %zu), the inner one in place or by reference, the outer one third level (thorough) too", NWRAP, POOL.size(), POOLB.size()), [](mc::Run &r) {
		const std::vector<V> &p = r.thorough ? POOLB : POOL;
		int w = r.choose(NWRAP), u = r.choose(NWRAP);
		const V &a = r.pick(p);
		const V &b = r.pick(p);
		V in = wrap(w, a, b);
		const V &o = POOL[1 + (w + u) % 3];
		DEFS = V::map();
		if (r.thorough ? r.flip() : (w + u) % 2) { DEFS.m["in"] = in; in = M({{"$ref", S("#/definitions/in")}}); }
		V s = wrap(u, in, o);
		if (r.thorough && r.flip()) s = M({{"properties", M({{"a", s}})}, {"items", s}});
		judge(r, s, r.thorough ? SMALL : NDATA);
		DEFS = V::map();
	}, 2, true});
	c.spaces.push_back({"alternatives", "anyOf, oneOf and allOf of 3 schemas out of the pool, and of 4 to 12 by rotation, alone or below a property, x the data", [](mc::Run &r) {
		static const char *K[] = {"anyOf", "oneOf", "allOf"};
		int k = r.choose(3), below = r.choose(2), n = r.choose(10);
		size_t a = r.choose(POOL.size());
		std::vector<V> l;
		if (n == 0) { l.push_back(POOL[a]); l.push_back(r.pick(POOL)); l.push_back(r.pick(POOL)); }
		else for (int i = 0; i < n + 3; ++i) l.push_back(POOL[(a + i * n) % POOL.size()]);
		V s = M({{K[k], V::list(l)}});
		if (below) s = M({{"properties", M({{"a", s}})}, {"items", s}});
		judge(r, s, r.thorough ? SMALL : NDATA);
	}, 3, true});
	c.spaces.push_back({"keys", "errors below keys of every one byte and of 40 texts with characters of the path syntax, as property, pattern, additional property, dependency and required key", [](mc::Run &r) {
		static const std::vector<std::string> K = {"", "a/b", "/", "//", "a/", "[0]", "[", "]", "a[1]", "\\", "\\\\", "\\/", "\\[", "~", "~0", "~1", "#", "$ref", "id", "0", "1", "-", "not", "items", "properties", "a b", " ", "\t", ".", "..", "enum", "default", "definitions", "\xc3\xa9", "\xf0\x9f\x98\x80", "%41", "%", "?", "\"", "'"};
		int k = r.choose(K.size() + 256), kind = r.choose(5), below = r.choose(2);
		std::string key = k < (int)K.size() ? K[k] : std::string(1, char(k - K.size()));
		V bad = below ? M({{key, I(1)}}) : I(1), want = below ? M({{"properties", M({{key, STR}})}}) : STR;
		V d = M({{key, bad}}), s;
		if (kind == 0) s = M({{"properties", M({{key, want}})}});
		if (kind == 1) s = M({{"patternProperties", M({{"^", want}})}});
		if (kind == 2) s = M({{"additionalProperties", want}});
		if (kind == 3) s = M({{"dependencies", M({{key, below ? M({{"properties", M({{key, M({{"properties", M({{key, STR}})}})}})}}) : L({S(key + "x")})}})}});
		if (kind == 4) { s = below ? M({{"additionalProperties", M({{"required", L({S(key + "x")})}})}}) : M({{"required", L({S(key), S(key + "x")})}}); }
		r.note("key %s", mc::q(key).c_str());
		judge(r, s, {d});
	}, 1, true});
	c.spaces.push_back({"lists", "errors at each element of lists of up to 14 elements, in lists of lists, under items, items by position and additionalItems", [](mc::Run &r) {
		int n = 1 + r.choose(14), at = r.choose(n), kind = r.choose(4), in = r.choose(3);
		V d = V::list();
		for (int i = 0; i < n; ++i) d.l.push_back(i == at ? S("x") : I(i));
		V s;
		if (kind == 0) s = M({{"items", INT}});
		if (kind == 1) { V t = V::list(); for (int i = 0; i < n; ++i) t.l.push_back(i % 2 ? INT : M({{"not", STR}})); s = M({{"items", t}}); }
		if (kind == 2) { V t = V::list(); for (int i = 0; i < at; ++i) t.l.push_back(INT); s = M({{"items", t}, {"additionalItems", INT}}); }
		if (kind == 3) { V t = V::list(); for (int i = 0; i < at; ++i) t.l.push_back(INT); s = M({{"items", t}, {"additionalItems", B(false)}}); }
		if (in == 1) { V o = V::list(); for (int i = 0; i < 3; ++i) o.l.push_back(i == at % 3 ? d : V::list()); d = o; s = M({{"items", s}}); }
		if (in == 2) { d = M({{"a", I(0)}, {"l", d}}); s = M({{"additionalProperties", M({{"anyOf", L({s, STR})}})}}); }
		judge(r, s, {d});
	}, 1, true});
	c.spaces.push_back({"wrong-schemas", mc::fmt("%zu wrong keyword settings, at the top, below a property or in an alternative, x the data: where the schema is said to be wrong, that is at the wrong keyword", INVALID.size() + 7), [](mc::Run &r) {
		static const std::vector<KV> WRONG = [] { std::vector<KV> w = INVALID; w.push_back({"maxProperties", S("a")}); w.push_back({"maxProperties", V::null()}); w.push_back({"minProperties", L({})}); w.push_back({"maxItems", S("1")}); w.push_back({"maxLength", S("1")}); w.push_back({"maximum", S("1")}); w.push_back({"minimum", B(true)}); return w; }();
		const KV &k = r.pick(WRONG);
		int in = r.choose(3);
		V s = M({{k.first, k.second}});
		if (in == 1) s = M({{"properties", M({{"a", s}})}});
		if (in == 2) s = M({{"allOf", L({ANY, s})}});
		Variant ls = ref::to(s);
		size_t n = 0;
		for (auto &x : DATA) {
			V d = in == 1 ? M({{"a", x}}) : x;
			Variant ld = ref::to(d);
			SchemaResult res = SchemaValidate(ls, ld);
			r.step(1);
			for (auto &e : res.GetSchemaErrors()) {
				const Path &p = e.GetSchemaPath();
				size_t at = in ? 2 : 0;
				bool right = p.size() > at && p[at].IsString() && (p[at].AsString() == k.first || k.first.compare(0, 9, "exclusive") == 0);
				if (in == 1) right = right && p[0].AsString() == "properties" && p[1].AsString() == "a";
				if (in == 2) right = right && p[0].AsString() == "allOf" && p[1].AsUnsigned() == 1;
				if (!right) r.note("schema %s data %s: wrong at %s", ref::show(s).c_str(), ref::show(d).c_str(), e.GetSchemaPathStr().c_str());
				r.check(right, "schema-place", "the schema is said to be wrong somewhere else");
				std::string all = res.PrettyPrintMessage();
				r.check(!e.GetMessage().empty() && all.find(e.GetMessage()) != std::string::npos && all.find(e.GetSchemaPathStr()) != std::string::npos, "schema-message", "the printed report leaves out what is wrong with the schema");
				std::string own = e.PrettyPrintMessage();
				r.check(own.find(e.GetMessage()) != std::string::npos && own.find(e.GetSchemaPathStr()) != std::string::npos, "own", "an error printed on its own leaves out what or where it is");
				for (auto &o : WRONG) if (o.first != k.first && e.GetMessage().find("\"" + o.first + "\"") != std::string::npos && e.GetMessage().find("\"" + k.first + "\"") == std::string::npos && k.first.compare(0, 9, "exclusive")) {
					r.note("schema %s data %s", ref::show(s).c_str(), ref::show(d).c_str());
					r.fail("schema-keyword", "the message about \"%s\" names \"%s\": %s", k.first.c_str(), o.first.c_str(), e.GetMessage().c_str());
				}
				++n;
			}
		}
		r.state(mc::hash(ref::show(s))); r.outcome(mc::fmt("%zu", n));
	}, 1, true});
	return mc::run(argc, argv, c);
}
