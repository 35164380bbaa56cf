// P19: flatten/expand and recursive difference/update.
#include "vpath.hpp"
#include <Variant/Extensions.h>
using namespace libvariant;
using ref::V;

static V L(std::vector<V> v) { return V::list(v); }
static V M(std::map<std::string, V> m) { return V::map(m); }
static V I(int i) { return V::integer(i); }
static V S(const std::string &s) { return V::str(s); }
static void add(std::vector<V> &a, const std::vector<V> &b) { a.insert(a.end(), b.begin(), b.end()); }

static std::vector<V> lists(const std::vector<V> &e, int n) {
	std::vector<V> out = {V::list()};
	for (size_t i = 0; i < out.size(); ++i) { if ((int)out[i].l.size() == n) continue; for (auto &x : e) { V v = out[i]; v.l.push_back(x); out.push_back(v); } }
	return out;
}
static std::vector<V> maps(const std::vector<std::string> &k, const std::vector<V> &e) {
	std::vector<V> out = {V::map()};
	for (auto &s : k) { size_t n = out.size(); for (size_t i = 0; i < n; ++i) for (auto &x : e) { V v = out[i]; v.m[s] = x; out.push_back(v); } }
	return out;
}
static std::vector<V> leaves() { return {V::null(), V::boolean(true), I(0), I(-1), V::uinteger(7), V::flt(1.5), S(""), S("a b"), V::blob("x")}; }
static V longlist(int n) { V v = V::list(); for (int i = 0; i < n; ++i) v.l.push_back(i % 3 ? I(i) : L({I(i)})); return v; }

// ---- flatten
struct Style { bool nosimple; std::string prefix, delim, ipre, isuf; };
static std::vector<Style> styles() {
	std::vector<Style> o;
	for (bool n : {true, false}) for (auto &d : {"/", ".", ":"}) for (auto &p : {std::string(), std::string(d)}) { o.push_back({n, p, d, "[", "]"}); o.push_back({n, p, d, ".", ""}); o.push_back({n, p, d, "/", ""}); }
	return o;
}
static const std::vector<Style> STYLES = styles();
static Variant params(const Style &s) {
	Variant p;
	p["noSimpleLists"] = s.nosimple; p["pathPrefix"] = s.prefix; p["pathDelimiter"] = s.delim; p["indexPrefix"] = s.ipre; p["indexSuffix"] = s.isuf;
	ExtensionParams(p);
	return p;
}
static bool simple(const V &v) { if (v.k != V::List) return false; for (auto &e : v.l) if (e.k == V::List || e.k == V::Map) return false; return true; }
// Leaves by path; false if two leaves have the same path
static bool flatten(const V &v, const Style &s, const std::string &at, std::map<std::string, V> &out) {
	bool ok = true;
	if (v.k == V::Map) { for (auto &e : v.m) ok &= flatten(e.second, s, (at.empty() ? s.prefix : at + s.delim) + e.first, out); return ok; }
	if (v.k == V::List && (s.nosimple || !simple(v))) { for (size_t i = 0; i < v.l.size(); ++i) ok &= flatten(v.l[i], s, at + s.ipre + std::to_string(i) + s.isuf, out); return ok; }
	return out.emplace(at, v).second;
}
static bool hollow(const V &v, const Style &s) {     // contains an empty container that flattening does not list
	if (v.k == V::Map) { if (v.m.empty()) return true; for (auto &e : v.m) if (hollow(e.second, s)) return true; }
	if (v.k == V::List) { if (v.l.empty() && s.nosimple) return true; for (auto &e : v.l) if (hollow(e, s)) return true; }
	return false;
}
static bool listy(const V &v, const Style &s) { if (v.k == V::List && (s.nosimple || !simple(v))) return true; for (auto &e : v.l) if (listy(e, s)) return true; for (auto &e : v.m) if (listy(e.second, s)) return true; return false; }

static std::vector<V> documents(bool big) {
	std::vector<V> d = leaves();
	d.push_back(V::list()); d.push_back(V::map()); d.push_back(longlist(12)); d.push_back(M({{"a", longlist(12)}, {"b", longlist(3)}}));
	add(d, lists({I(1), S("x"), L({I(1)}), M({{"a", I(1)}}), L({}), M({})}, big ? 4 : 3));
	add(d, maps({"a", "b c", "0"}, {I(1), V::null(), L({I(1), S("x")}), L({I(1), L({I(2)})}), M({{"a", I(1)}}), M({{"a", L({M({{"a", I(1)}})})}}), M({}), L({})}));
	for (auto &x : leaves()) { d.push_back(L({x})); d.push_back(M({{"a", x}})); d.push_back(M({{"a", M({{"b", x}, {"c", L({x, x})}})}, {"ab", x}})); d.push_back(L({L({x}), M({{"b", x}})})); }
	return d;
}
static const std::vector<V> DOCS = documents(false), BIG = documents(true);

static bool identical(const V &a, const V &b) {
	if (a.k == V::List && b.k == V::List) { if (a.l.size() != b.l.size()) return false; for (size_t i = 0; i < a.l.size(); ++i) if (!identical(a.l[i], b.l[i])) return false; return true; }
	if (a.k == V::Map && b.k == V::Map) { if (a.m.size() != b.m.size()) return false; for (auto &e : a.m) { auto it = b.m.find(e.first); if (it == b.m.end() || !identical(e.second, it->second)) return false; } return true; }
	return a.k == b.k && ref::same(a, b);
}
static void spoil(VariantRef v) {
	if (v.IsList()) { for (unsigned i = 0, n = v.Size(); i < n; ++i) spoil(v[i]); v.Append("spoiled"); }
	else if (v.IsMap()) { std::vector<std::string> k; for (auto i = v.MapBegin(); i != v.MapEnd(); ++i) k.push_back(i->first); for (auto &s : k) spoil(v[s]); v.Set("spoiled", true); }
}

static void flat(mc::Run &r, const V &d, const Style &s) {
	r.note("document %s, simple lists %s, prefix %s delimiter %s index %s %s", ref::show(d).c_str(), s.nosimple ? "flattened" : "kept", mc::q(s.prefix).c_str(), mc::q(s.delim).c_str(), mc::q(s.ipre).c_str(), mc::q(s.isuf).c_str());
	std::map<std::string, V> want;
	if (!flatten(d, s, "", want)) return;           // ambiguous in this style
	Variant x = ref::to(d), p = params(s);
	V pv = ref::from(p);
	Variant f = FlattenPath(x, p);
	V vf = ref::from(f), vw = want.empty() ? V::null() : want.size() == 1 && want.begin()->first.empty() ? want.begin()->second : V::map(want);
	r.step(1); r.state(mc::hash(ref::show(vf))); r.outcome(ref::show(vf));
	r.check(identical(vf, vw), "flat", "flattens to %s, expected %s", ref::show(vf).c_str(), ref::show(vw).c_str());
	V now = ref::from(x), np = ref::from(p);
	r.check(identical(now, d) && identical(np, pv), "inputs", "the inputs become %s and %s", ref::show(now).c_str(), ref::show(np).c_str());
	// as strings
	if (vf.k == V::Map) {
		std::map<std::string, std::string> sm, ws;
		bool blob = false, threw = false;
		for (auto &e : want) {
			if (e.second.k == V::Blob) blob = true;
			else if (e.second.k == V::List) { std::string t; for (auto &i : e.second.l) { if (i.k == V::Blob) blob = true; else t += (&i == &e.second.l[0] ? "" : ",") + ref::to(i).AsString(); } ws[e.first] = t; }
			else ws[e.first] = ref::to(e.second).AsString();
		}
		try { sm = FlattenPathToStrStrMap(x, p); } catch (std::exception &) { threw = true; }
		r.step(1);
		r.check(threw == blob, "blobs", "conversion to strings %s", threw ? "is refused" : "is accepted");
		r.check(threw || sm == ws, "strings", "the string map is wrong");
	}
	// the flat form shares nothing with the document, and expands to it
	bool back = true;
	if (vf.k == V::Map && (hollow(d, s) || (listy(d, s) && s.ipre != "["))) back = false;
	if (vf.k != V::Map && !identical(vf, d)) back = false;
	if (back) {
		Variant e = ExpandPath(f, p);
		V ve = ref::from(e), f2 = ref::from(f);
		r.step(1);
		r.check(identical(ve, d), "expand", "%s expands to %s", ref::show(vf).c_str(), ref::show(ve).c_str());
		r.check(identical(f2, vf), "expand-input", "expanding changes its input to %s", ref::show(f2).c_str());
		// and into something that is there already
		Variant into = Variant().Set("zz", 1);
		if (d.k == V::Map) {
			ExpandPathTo(into, f, p);
			V vi = ref::from(into), wi = d;
			wi.m["zz"] = I(1);
			r.check(identical(vi, wi), "expand-into", "expands into {\"zz\":1} as %s", ref::show(vi).c_str());
		}
	}
	f = FlattenPath(x, p);
	spoil(f);
	now = ref::from(x);
	r.check(identical(now, d), "shared", "changing the flat form changes the document to %s", ref::show(now).c_str());
}

// ---- options
static void options(mc::Run &r) {
	static const std::vector<std::string> K = {"noSimpleLists", "pathPrefix", "pathDelimiter", "indexPrefix", "indexSuffix", "listDelimiter"};
	static const std::vector<V> X = {V::null(), V::boolean(false), V::boolean(true), I(1), S(""), S("x"), S("xy"), L({}), L({S("x")}), M({})};
	static const std::vector<V> DEF = {V::boolean(true), S(""), S("/"), S("["), S("]"), S(",")};
	V m = V::map(), want = V::map();
	bool ok = true;
	int a = r.choose(K.size()), b = r.choose(K.size());
	for (size_t i = 0; i < K.size(); ++i) {
		want.m[K[i]] = DEF[i];
		if ((int)i != a && (int)i != b) continue;
		int c = r.choose(X.size() + 1);
		if (!c) continue;
		const V &x = X[c - 1];
		m.m[K[i]] = x;
		if (i == 0) { if (x.k == V::Bool) want.m[K[i]] = x; }
		else { want.m[K[i]] = x; ok &= x.k == V::Str && x.s.size() <= 1 && (i == 1 || i == 4 || x.s.size() == 1); }
	}
	r.note("parameters %s", ref::show(m).c_str());
	Variant p = ref::to(m);
	bool threw = false;
	try { ExtensionParams(p); } catch (std::exception &) { threw = true; }
	V vp = ref::from(p);
	r.step(1); r.state(mc::hash(ref::show(vp))); r.outcome(ref::show(vp) + (threw ? "-" : "+"));
	r.check(threw == !ok, "params", "the parameters are %s", threw ? "refused" : "accepted");
	r.check(threw || identical(vp, want), "defaults", "completed to %s, expected %s", ref::show(vp).c_str(), ref::show(want).c_str());
}

// ---- recursive difference and update
static double num(const V &v) { return v.k == V::Flt ? v.f : v.k == V::Int ? (double)v.i : (double)v.u; }
static bool equal(const V &a, const V &b) {
	if (a.isnum() && b.isnum()) return num(a) == num(b);
	if (a.k != b.k) return false;
	if (a.k == V::List) { if (a.l.size() != b.l.size()) return false; for (size_t i = 0; i < a.l.size(); ++i) if (!equal(a.l[i], b.l[i])) return false; return true; }
	if (a.k == V::Map) { if (a.m.size() != b.m.size()) return false; for (auto &e : a.m) { auto it = b.m.find(e.first); if (it == b.m.end() || !equal(e.second, it->second)) return false; } return true; }
	return ref::same(a, b);
}
static V rdiff(const V &b, const V &c) {          // both maps
	V d = V::map();
	for (auto &e : c.m) {
		auto it = b.m.find(e.first);
		if (it == b.m.end()) { d.m[e.first] = e.second; continue; }
		if (equal(it->second, e.second)) continue;
		V x = it->second.k == V::Map && e.second.k == V::Map ? rdiff(it->second, e.second) : e.second;
		if (x.k == V::Null || (x.k == V::Map && x.m.empty())) continue;
		d.m[e.first] = x;
	}
	return d;
}
static void rupdate(V &b, const V &u) {
	if (u.k == V::Null) return;
	if (u.k == V::Map && b.k == V::Map) { for (auto &e : u.m) { auto it = b.m.find(e.first); if (it == b.m.end()) b.m[e.first] = e.second; else rupdate(it->second, e.second); } return; }
	b = u;
}
// every element of c is in b, apart from nulls and empty maps that replaced something
static bool covers(const V &b, const V &c) {
	if (c.k == V::Null) return true;
	if (c.k != V::Map) return equal(b, c);
	if (c.m.empty()) return true;
	if (b.k != V::Map) return false;
	for (auto &e : c.m) { auto it = b.m.find(e.first); if (it == b.m.end() || !covers(it->second, e.second)) return false; }
	return true;
}
// members of b that c does not name are as before
static bool keeps(const V &b, const V &c, const V &n) {
	if (b.k != V::Map || c.k != V::Map) return true;
	if (n.k != V::Map) return false;
	for (auto &e : b.m) { auto it = n.m.find(e.first); if (it == n.m.end()) return false; auto u = c.m.find(e.first); if (u == c.m.end() ? !identical(e.second, it->second) : !keeps(e.second, u->second, it->second)) return false; }
	return true;
}
static std::vector<V> tops(bool big) {
	std::vector<V> vals = {I(1), I(2), V::flt(1), V::null(), S("1"), V::boolean(true), V::blob("x"), L({}), L({I(1)}), L({I(1), M({{"a", I(1)}})}), M({}), M({{"a", I(1)}}), M({{"a", I(2)}}), M({{"b", I(1)}}), M({{"a", V::null()}}), M({{"a", M({})}}), M({{"a", M({{"a", I(1)}})}}), M({{"a", M({{"a", I(2)}, {"b", L({I(1)})}})}})};
	std::vector<V> o = maps({"a", "b"}, vals);
	if (big) add(o, maps({"a", "b", "c"}, {I(1), I(2), V::null(), M({}), M({{"a", I(1)}}), M({{"b", L({})}})}));
	return o;
}
static const std::vector<V> TOPS = tops(false), TOPB = tops(true);

static void rd(mc::Run &r, const V &a, const V &b) {
	r.note("base %s, compare %s", ref::show(a).c_str(), ref::show(b).c_str());
	Variant x = ref::to(a), y = ref::to(b);
	Variant d = RDiff(x, y);
	V vd = ref::from(d), want = rdiff(a, b), vx = ref::from(x), vy = ref::from(y);
	r.step(1); r.state(mc::hash(ref::show(vd))); r.outcome(ref::show(vd));
	r.check(identical(vx, a) && identical(vy, b), "inputs", "the inputs become %s and %s", ref::show(vx).c_str(), ref::show(vy).c_str());
	r.check(identical(vd, want), "rdiff", "the difference is %s, expected %s", ref::show(vd).c_str(), ref::show(want).c_str());
	RUpdate(x, d);
	vx = ref::from(x);
	r.step(1);
	r.check(covers(vx, b), "covers", "updating with the difference %s gives %s, which lacks elements", ref::show(vd).c_str(), ref::show(vx).c_str());
	r.check(keeps(a, b, vx), "keeps", "updating with the difference %s gives %s, which lost elements", ref::show(vd).c_str(), ref::show(vx).c_str());
	// update by the other document itself
	Variant z = ref::to(a);
	V wz = a;
	RUpdate(z, y);
	rupdate(wz, b);
	V vz = ref::from(z), y2 = ref::from(y), d2 = ref::from(d);
	r.step(1);
	r.check(identical(vz, wz), "rupdate", "updating gives %s, expected %s", ref::show(vz).c_str(), ref::show(wz).c_str());
	r.check(identical(y2, b) && identical(d2, vd), "update-input", "updating changes the update to %s / %s", ref::show(y2).c_str(), ref::show(d2).c_str());
	spoil(z); spoil(x); spoil(d);
	y2 = ref::from(y);
	r.check(identical(y2, b), "shared", "changing the results changes the input to %s", ref::show(y2).c_str());
}

int main(int argc, char **argv) {
	mc::Check c;
	c.prop = "P19"; c.level = "model_checking";
	c.rule = "the flat form, its string form, the expansion, the difference and the update are those of independent recursive definitions; inputs are unchanged and results independent";
	c.assumptions = {"keys are not empty and hold no character of the path syntax", "empty containers have no flat form", "a difference leaves out nulls and empty maps that replace something"};
	c.spaces.push_back({"flatten", mc::fmt("%zu documents (thorough %zu) x %zu styles", DOCS.size(), BIG.size(), STYLES.size()), [](mc::Run &r) {
		const V &d = r.pick(r.thorough ? BIG : DOCS);
		flat(r, d, r.pick(STYLES));
	}, 1, true});
	c.spaces.push_back({"options", "every pair of settings x 11 values each", options, 2, true});
	c.spaces.push_back({"difference", mc::fmt("every ordered pair of %zu maps (thorough %zu)", TOPS.size(), TOPB.size()), [](mc::Run &r) {
		const std::vector<V> &t = r.thorough ? TOPB : TOPS;
		const V &a = r.pick(t);
		const V &b = r.pick(t);
		rd(r, a, b);
	}, 1, true});
	return mc::run(argc, argv, c);
}
