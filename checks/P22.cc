// P22: adding schema defaults fills in exactly what is missing.
#include "ref.hpp"
#include <Variant/Schema.h>
#include <Variant/SchemaLoader.h>
#include <set>
using namespace libvariant;
using ref::V;

static V L(std::vector<V> v) { return V::list(v); }
static V M(std::map<std::string, V> m) { return V::map(m); }
static V I(int i) { return V::integer(i); }
static V S(const std::string &s) { return V::str(s); }
static V D(const V &v) { return M({{"default", v}}); }
static V R(const std::string &s) { return M({{"$ref", S(s)}}); }

// ---- the model: a place in a document, which need not be there yet
struct Step { bool key; std::string k; size_t i; };
struct Place {
	V *root; std::vector<Step> path;
	V *get() const {
		V *v = root;
		for (auto &s : path) {
			if (s.key) { if (v->k != V::Map || !v->m.count(s.k)) return 0; v = &v->m[s.k]; }
			else { if (v->k != V::List || v->l.size() <= s.i) return 0; v = &v->l[s.i]; }
		}
		return v;
	}
	void set(const V &x) const {
		V *v = root;
		bool made = false;
		for (auto &s : path) {
			if (made) *v = s.key ? M({}) : L({});
			if (s.key) { made = !v->m.count(s.k); v = &v->m[s.k]; }
			else { made = v->l.size() <= s.i; if (made) v->l.resize(s.i + 1); v = &v->l[s.i]; }
		}
		*v = x;
	}
	Place at(const std::string &k) const { Place p = *this; p.path.push_back({true, k, 0}); return p; }
	Place at(size_t i) const { Place p = *this; p.path.push_back({false, "", i}); return p; }
};
typedef std::map<std::string, V> Docs;
struct Fill {
	const Docs &docs; std::string doc;
	const V *member(const V &v, const char *k) { auto f = v.m.find(k); return f == v.m.end() ? 0 : &f->second; }
	// "doc#/a/b", "#/a/b"; names here need no escaping
	const V *resolve(const std::string &ref, std::string &in) {
		size_t h = ref.find('#');
		std::string d = ref.substr(0, h), f = h == std::string::npos ? "" : ref.substr(h + 1);
		if (!d.empty()) in = d;
		const V *v = &docs.at(in);
		for (size_t i = 1; i < f.size();) {
			size_t e = std::min(f.size(), f.find('/', i));
			std::string n = f.substr(i, e - i);
			v = v->k == V::List ? &v->l.at(atoi(n.c_str())) : &v->m.at(n);
			i = e + 1;
		}
		return v;
	}
	void below(const V &s, const Place &p, const std::string &in, std::set<const V *> &open) {
		if (p.get()) { std::set<const V *> none; fill(s, p, in, none); } else fill(s, p, in, open);
	}
	void fill(const V &s, const Place &p, const std::string &in, std::set<const V *> &open) {
		if (s.k != V::Map) return;
		const V *x = p.get(), *k;
		if ((k = member(s, "default")) && (!x || x->k == V::Null)) { p.set(*k); return; }
		if (!open.insert(&s).second) return;
		if ((k = member(s, "$ref"))) { std::string to = in; const V *t = resolve(k->s, to); fill(*t, p, to, open); }
		x = p.get();
		if ((k = member(s, "properties")) && (!x || x->k == V::Map)) for (auto &e : k->m) below(e.second, p.at(e.first), in, open);
		x = p.get();
		if ((k = member(s, "items")) && (!x || x->k == V::List)) {
			size_t n = k->k == V::List ? k->l.size() : x && x->l.size() ? x->l.size() : 1;
			for (size_t i = 0; i < n; ++i) below(k->k == V::List ? k->l[i] : *k, p.at(i), in, open);
		}
		for (const char *c : {"allOf", "oneOf", "anyOf"}) if ((k = member(s, c))) for (auto &e : k->l) fill(e, p, in, open);
		open.erase(&s);
	}
	void run(const V &s, const Place &p) { std::set<const V *> none; below(s, p, doc, none); }
};

static const V DEFS = M({{"d", D(I(3))}, {"o", M({{"properties", M({{"a", D(I(4))}})}})}});
static std::vector<V> LEAF, FEW, ONE, SOME, DATA;
static V with(V a, const V &b) { for (auto &e : b.m) a.m[e.first] = e.second; return a; }
static V props(std::map<std::string, V> m) { return M({{"properties", M(m)}}); }
static V combo(const char *k, const V &x, const V &y) { return M({{k, L({x, y})}}); }
enum { NFORM = 14 };
static V form(int f, const V &x, const V &y) {
	switch (f) {
	case 0: return props({{"a", x}, {"b", y}});
	case 1: return M({{"items", L({x, y})}});
	case 2: return combo("allOf", x, y);
	case 3: return combo("oneOf", x, y);
	case 4: return combo("anyOf", x, y);
	case 5: return with(props({{"a", x}}), M({{"allOf", L({y})}}));
	case 6: return with(M({{"items", x}}), M({{"anyOf", L({y})}}));
	case 7: return props({{"a", y}, {"b", x}});
	case 8: return M({{"items", L({y, x})}});
	case 9: return combo("allOf", y, x);
	case 10: return with(props({{"a", y}}), M({{"oneOf", L({x})}}));
	case 11: return M({{"anyOf", L({y})}, {"oneOf", L({x})}});
	case 12: return M({{"items", x}});
	default: return with(D(M({})), props({{"a", x}}));
	}
}
static void build() {
	V ignored = M({{"not", D(I(1))}, {"additionalProperties", D(I(1))}, {"additionalItems", D(I(1))}, {"patternProperties", M({{".", D(I(1))}})}, {"dependencies", M({{"a", D(I(1))}})}, {"definitions", M({{"a", D(I(1))}})}});
	LEAF = {M({}), D(I(1)), D(M({{"a", I(9)}})), R("#/definitions/o"), D(L({I(7)})), D(V()), R("#/definitions/d"), ignored, D(M({{"id", S("x")}, {"$ref", S("y#/z")}, {"enum", L({M({{"id", S("x")}})})}})), D(V::boolean(false)), D(S(""))};
	FEW = {LEAF[0], LEAF[1], LEAF[3]};
	for (int f = 0; f < NFORM; ++f) for (auto &x : LEAF) {
		if (f >= 12) { ONE.push_back(form(f, x, x)); SOME.push_back(ONE.back()); continue; }
		if (f >= 7) continue;
		for (auto &y : LEAF) ONE.push_back(form(f, x, y));
		for (auto &y : FEW) SOME.push_back(form(f, x, y));
	}
	V n, e = M({}), l = L({});
	DATA = {n, e, l, I(1), S(""), M({{"a", n}}), M({{"a", I(1)}}), M({{"a", e}}), M({{"a", l}}), M({{"a", L({e, e})}}), M({{"a", M({{"a", n}, {"b", I(0)}})}}), M({{"a", M({{"a", e}, {"b", l}})}}),
		M({{"b", e}, {"c", I(5)}}), M({{"a", I(2)}, {"b", n}}), M({{"b", L({n})}}), L({n}), L({I(1)}), L({e}), L({e, M({{"a", I(1)}})}), L({n, n, n}), L({l, l}), L({M({{"a", e}}), M({{"b", l}})}), M({{"default", I(1)}, {"properties", e}})};
}

// where the data lies: 0 a document of its own, otherwise below another document
static const int NWHERE = 4;
static void apply(mc::Run &r, const V &schema, const V &data, int where, Docs docs, const std::string &doc, const std::function<void(VariantRef, Variant &)> &call) {
	V root, before;
	Place p{&root, {}};
	Variant v;
	if (where == 0) { root = data; v = ref::to(root); }
	else if (where == 1) { root = M({{"k", data}, {"q", I(1)}}); v = ref::to(root); p = p.at("k"); }
	else if (where == 2) { root = M({{"q", I(1)}}); v = ref::to(root); p = p.at("k").at(size_t(1)); }
	else { root = L({I(0), data}); v = ref::to(root); p = p.at(size_t(1)); }
	before = root;
	Fill f{docs, doc};
	Variant s = ref::to(schema);
	for (int round = 0; round < 2; ++round) {
		f.run(docs.at(doc), p);
		try {
			if (where == 0) call(v, s);
			else if (where == 1) call(v.At("k"), s);
			else if (where == 2) call(v.At("k").At(1u), s);
			else call(v.At(1u), s);
		} catch (const std::exception &e) { r.fail("error", "round %d: %s", round + 1, e.what()); }
		r.step(1);
		V got = ref::from(v);
		r.check(ref::same(got, root), round ? "again" : "filled", "round %d gives %s, not %s", round + 1, ref::show(got).c_str(), ref::show(root).c_str());
	}
	r.check(ref::same(ref::from(s), schema), "schema-changed", "the schema has become %s", ref::show(ref::from(s)).c_str());
	// what was filled in belongs to the data alone
	std::function<void(Variant)> spoil = [&](Variant x) {
		if (x.IsMap()) { for (Variant::MapIterator i = x.MapBegin(); i != x.MapEnd(); ++i) spoil(i->second); x["spoilt"] = 1; }
		else if (x.IsList()) { for (Variant::ListIterator i = x.ListBegin(); i != x.ListEnd(); ++i) spoil(*i); x.Append("spoilt"); }
	};
	spoil(v);
	r.check(ref::same(ref::from(s), schema), "shared", "changing the data changes the schema to %s", ref::show(ref::from(s)).c_str());
	V root2 = before;
	Variant v2 = ref::to(root2);
	Place p2 = p; p2.root = &root2;
	f.run(docs.at(doc), p2);
	if (where == 0) call(v2, s); else if (where == 1) call(v2.At("k"), s); else if (where == 2) call(v2.At("k").At(1u), s); else call(v2.At(1u), s);
	r.check(ref::same(ref::from(v2), root2), "shared-loader", "after the data was changed a fresh run gives %s, not %s", ref::show(ref::from(v2)).c_str(), ref::show(root2).c_str());
	r.state(mc::hash(ref::show(root)));
	r.outcome(mc::fmt("%d", int(ref::same(before, root))));
}

static void schemas(mc::Run &r) {
	int f = r.choose(NFORM + 1);
	V s;
	if (f == NFORM) s = r.choose(2) ? r.pick(ONE) : r.pick(LEAF);
	else {
		const V &x = r.pick(r.thorough ? ONE : SOME);
		s = form(f, x, f >= 12 ? x : r.pick(r.thorough ? LEAF : FEW));
	}
	s.m["definitions"] = DEFS;
	const V &d = DATA[r.choose(r.thorough ? DATA.size() : 14)];
	if (!r.fresh()) return;
	r.note("schema %s data %s", ref::show(s).c_str(), ref::show(d).c_str());
	apply(r, s, d, 0, {{"", s}}, "", [](VariantRef v, Variant &s) { AddSchemaDefaults(s, v); });
}

static void places(mc::Run &r) {
	V s = r.choose(2) ? r.pick(r.thorough ? ONE : SOME) : r.pick(LEAF);
	s.m["definitions"] = DEFS;
	const V &d = r.pick(DATA);
	int where = r.choose(NWHERE);
	if (!r.fresh()) return;
	r.note("schema %s data %s at place %d", ref::show(s).c_str(), ref::show(d).c_str(), where);
	apply(r, s, d, where, {{"", s}}, "", [](VariantRef v, Variant &s) { AddSchemaDefaults(s, v); });
}

static void recursion(mc::Run &r) {
	static const char *TO[] = {"#", "#/definitions/x", "#/definitions/y"};
	static const std::vector<V> DATA = {M({}), L({}), M({{"n", M({})}}), L({M({}), M({{"n", M({})}})}), V(), M({{"n", L({M({})})}}), M({{"n", M({{"n", M({{"v", I(5)}})}})}}), I(1)};
	V s[3];
	for (int i = 0; i < 3; ++i) {
		int k = r.choose(r.thorough ? 7 : 5), t = r.choose(3), e = r.choose(i == 2 && !r.thorough ? 1 : 3);
		V to = R(TO[t]);
		s[i] = k == 0 ? props({{"n", to}}) : k == 1 ? M({{"items", to}}) : k == 2 ? M({{"allOf", L({to})}}) : k == 3 ? props({{"n", M({{"anyOf", L({to})}})}}) : k == 4 ? M({}) : k == 5 ? M({{"items", L({to, to})}}) : M({{"oneOf", L({to, R(TO[(t + 1) % 3])})}});
		if (k == 4 && t) { r.step(0); return; }
		if (e == 1) s[i].m["default"] = M({});
		if (e == 2) { if (s[i].m.count("properties")) s[i].m["properties"].m["v"] = D(I(1)); else s[i].m["properties"] = M({{"v", D(I(1))}}); }
	}
	const V &d = DATA[r.choose(r.thorough ? DATA.size() : 4)];
	if (!r.fresh()) return;
	V all = s[0];
	all.m["definitions"] = M({{"x", s[1]}, {"y", s[2]}});
	r.note("schema %s data %s", ref::show(all).c_str(), ref::show(d).c_str());
	apply(r, all, d, 0, {{"", all}}, "", [](VariantRef v, Variant &s) { AddSchemaDefaults(s, v); });
}

// ---- where the schema comes from
static const std::string A = "http://h/d/a", B = "http://h/d/b";
static Variant *theA, *theB;
static bool handler(SchemaLoader *l, const std::string &uri, SchemaLoader::LoaderError &, void *) {
	if (uri == A) l->AddSchema(A, *theA); else if (uri == B) l->AddSchema(B, *theB); else return false;
	return true;
}
static void given(mc::Run &r) {
	V x = r.choose(2) ? r.pick(r.thorough ? ONE : SOME) : r.pick(LEAF);
	int f = r.choose(3), way = r.choose(6), id = r.choose(2);
	const V &d = DATA[r.choose(r.thorough ? DATA.size() : 14)];
	if (!r.fresh()) return;
	V b = props({{"a", x}}), a = f == 0 ? R("b#/properties/a") : f == 1 ? props({{"a", R("b#/properties/a")}, {"b", R(B + "#/definitions/d")}}) : M({{"allOf", L({R("b")})}});
	b.m["definitions"] = DEFS;
	if (id) { a.m["id"] = S(A); b.m["id"] = S(B); }
	if (way == 0 && !id) { r.step(0); return; }
	V data = d;
	if (way == 4) { if (d.k != V::Map) return; data.m["$schema"] = S(A); }
	r.note("schema %s with %s data %s given as %d", ref::show(a).c_str(), ref::show(b).c_str(), ref::show(data).c_str(), way);
	// as the model resolves references: b is named in two ways
	Docs docs = {{A, a}, {B, b}, {"b", b}};
	Variant va = ref::to(a), vb = ref::to(b);
	theA = &va; theB = &vb;
	SchemaLoader base, mid(&base), *l = way == 2 ? &mid : &base;
	if (way == 0) base.AddSchema(B, vb.Copy());
	if (way == 1 || way == 2 || way == 4) { base.AddSchema(A, va.Copy()); base.AddSchema(B, vb.Copy()); }
	if (way == 3) base.SetMissingHandler(handler, 0);
	if (way == 5) { base.AddSchema(A, va.Copy()); base.AddSchema(B, vb.Copy()); }
	apply(r, a, data, way == 5 ? 2 : 0, docs, A, [&](VariantRef v, Variant &s) {
		if (way == 0) AddSchemaDefaults(s, v, l);
		else if (way == 4) AddSchemaDefaults(Variant(), v, l);
		else AddSchemaDefaults(A, v, l);
	});
}

// ---- a schema that is none: what the data holds stays
static bool kept(const V &a, const V &b) {
	if (a.k == V::Null) return true;
	if (a.k == V::Map) { if (b.k != V::Map) return false; for (auto &e : a.m) { auto i = b.m.find(e.first); if (i == b.m.end() || !kept(e.second, i->second)) return false; } return true; }
	if (a.k == V::List) { if (b.k != V::List || b.l.size() < a.l.size()) return false; for (size_t i = 0; i < a.l.size(); ++i) if (!kept(a.l[i], b.l[i])) return false; return true; }
	return ref::same(a, b);
}
static void wrong(mc::Run &r) {
	static const char *KEY[] = {"properties", "patternProperties", "additionalProperties", "items", "additionalItems", "allOf", "anyOf", "oneOf", "not", "dependencies", "definitions", "$ref", "id", "extends", "type", "required", "enum", "$schema"};
	static const std::vector<V> ODD = {V::null(), V::boolean(true), I(1), S("s"), S(""), S("#/x"), L({}), L({I(1)}), L({V::null(), D(I(7))}), L({L({})}), M({}), M({{"a", I(1)}}), M({{"a", V::null()}}), M({{"a", L({D(I(7))})}}), M({{"a", S("a")}}), V::blob("b"), V::flt(2.5)};
	std::string k = KEY[r.choose(18)];
	int where = r.choose(5);
	V s = M({{k, r.pick(ODD)}});
	if (r.flip()) s.m["default"] = I(5);
	if (r.thorough) { int beside = r.choose(4); if (beside) s.m[beside == 1 ? "properties" : beside == 2 ? "items" : "allOf"] = r.pick(ODD); }
	V all = where == 0 ? s : where == 1 ? M({{"properties", M({{"a", s}, {"b", D(I(3))}})}}) : where == 2 ? M({{"items", s}}) : where == 3 ? M({{"items", L({D(I(3)), s})}}) : M({{"allOf", L({s, D(I(3))})}});
	const V &d = r.pick(DATA);
	r.note("schema %s data %s", ref::show(all).c_str(), ref::show(d).c_str());
	Variant given = ref::to(all), data = ref::to(d);
	bool threw = false;
	try { AddSchemaDefaults(given, data); } catch (std::exception &) { threw = true; }
	V after = ref::from(data);
	r.step(1); r.state(mc::hash(ref::show(all) + ref::show(d))); r.outcome(ref::show(after) + (threw ? "!" : ""));
	r.check(kept(d, after), "kept", "the data becomes %s", ref::show(after).c_str());
	r.check(ref::same(ref::from(given), all), "schema", "the schema becomes %s", ref::show(ref::from(given)).c_str());
}

int main(int argc, char **argv) {
	build();
	mc::Check c;
	c.prop = "P22"; c.level = "model_checking";
	c.rule = "the data afterwards equals the model's, at the first and the second run; the schema is unchanged and shares nothing with the data";
	c.assumptions = {"valid schemas, except in the space wrong", "a reference stands alone in its object", "null counts as missing where a default is given"};
	c.spaces.push_back({"schemas", mc::fmt("%d forms over %zu schemas of depth 1 and %zu leaves x 14 documents (thorough %zu, %zu, %zu)", NFORM, SOME.size(), FEW.size(), ONE.size(), LEAF.size(), DATA.size()), schemas, 2, true});
	c.spaces.push_back({"places", mc::fmt("%zu schemas (thorough %zu) x %zu documents x %d places", SOME.size() + LEAF.size(), ONE.size() + LEAF.size(), DATA.size(), NWHERE), places, 2, true});
	c.spaces.push_back({"recursion", "three schemas referring to one another, 5 forms (thorough 7) x 3 targets x 3 extras each, x 4 documents (thorough 8)", recursion, 3, true});
	c.spaces.push_back({"given", mc::fmt("%zu schemas in a second document x 3 forms of reference x 6 ways to give the schema x with and without id x 14 documents (thorough %zu schemas, %zu documents)", SOME.size() + LEAF.size(), ONE.size() + LEAF.size(), DATA.size()), given, 2, true});
	c.spaces.push_back({"wrong", "18 keywords with one of 17 values, most of them wrong, alone or (thorough) beside one of 3 others with one of them, with and without default, at 5 places x the documents: ends or is refused, what the data holds stays, the schema is unchanged", wrong, 2, true});
	return mc::run(argc, argv, c);
}
