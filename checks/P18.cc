// P18: a computed JSON difference, applied as a patch, produces the target.
#include "jptr.hpp"
#include <Variant/Extensions.h>
using namespace libvariant;
using ref::V;

static V L(std::vector<V> v) { return V::list(v); }
static V M(std::map<std::string, V> m) { return V::map(m); }
static V I(int i) { return V::integer(i); }
static V S(const std::string &s) { return V::str(s); }

static std::vector<V> lists(const std::vector<V> &e, int n) {
	std::vector<V> out = {V::list()};
	for (size_t i = 0; i < out.size(); ++i) { if ((int)out[i].l.size() == n) continue; for (auto &x : e) { V v = out[i]; v.l.push_back(x); out.push_back(v); } }
	return out;
}
static std::vector<V> maps(const std::vector<std::string> &k, const std::vector<V> &e) {
	std::vector<V> out = {V::map()};
	for (auto &s : k) { size_t n = out.size(); for (size_t i = 0; i < n; ++i) for (auto &x : e) { V v = out[i]; v.m[s] = x; out.push_back(v); } }
	return out;
}
static void add(std::vector<V> &a, const std::vector<V> &b) { a.insert(a.end(), b.begin(), b.end()); }

static std::vector<V> leaves() { return {V::null(), V::boolean(false), V::boolean(true), I(0), I(1), V::uinteger(1), V::flt(1), V::flt(1.5), S(""), S("1"), V::blob("x"), V::blob(""), V::list(), V::map()}; }
static std::vector<V> documents(bool big) {
	std::vector<V> d = leaves();
	add(d, lists({I(1), I(2), L({I(1)}), M({})}, 3));
	add(d, lists({I(1), V::null()}, big ? 6 : 5));
	add(d, maps({"a", "b"}, {I(1), I(2), V::null(), L({I(1)}), L({I(1), I(2)}), M({{"a", I(1)}}), M({})}));
	if (big) add(d, maps({"", "/", "~", "~1", "0", "-"}, {I(1), L({})}));
	else { add(d, maps({"", "/", "~", "~1"}, {I(1), L({})})); add(d, maps({"~", "0", "-"}, {I(1), L({})})); }
	std::vector<V> inner = lists({I(1), I(2)}, 2); add(inner, maps({"a", "/"}, {I(1)}));
	for (auto &x : inner) for (auto &y : inner) { d.push_back(L({x, y})); d.push_back(M({{"~/", x}, {"0", y}})); d.push_back(M({{"a", L({x, M({{"b", y}})})}})); }
	for (auto &x : leaves()) { d.push_back(L({x})); d.push_back(M({{"a", x}})); d.push_back(L({I(0), x})); }
	return d;
}

static bool identical(const V &a, const V &b) {
	if (a.k != b.k) return false;
	if (a.k == V::List) { if (a.l.size() != b.l.size()) return false; for (size_t i = 0; i < a.l.size(); ++i) if (!identical(a.l[i], b.l[i])) return false; return true; }
	if (a.k == V::Map) { if (a.m.size() != b.m.size()) return false; for (auto &e : a.m) { auto it = b.m.find(e.first); if (it == b.m.end() || !identical(e.second, it->second)) return false; } return true; }
	return ref::same(a, b);
}

// As identical, but numbers of different types are equal when their values are
static double num(const V &v) { return v.k == V::Flt ? v.f : v.k == V::Int ? (double)v.i : (double)v.u; }
static bool equal(const V &a, const V &b) {
	if (a.isnum() && b.isnum()) return num(a) == num(b);
	if (a.k != b.k) return false;
	if (a.k == V::List) { if (a.l.size() != b.l.size()) return false; for (size_t i = 0; i < a.l.size(); ++i) if (!equal(a.l[i], b.l[i])) return false; return true; }
	if (a.k == V::Map) { if (a.m.size() != b.m.size()) return false; for (auto &e : a.m) { auto it = b.m.find(e.first); if (it == b.m.end() || !equal(e.second, it->second)) return false; } return true; }
	return ref::same(a, b);
}

static void judge(mc::Run &r, const V &a, const V &b) {
	r.note("from %s to %s", ref::show(a).c_str(), ref::show(b).c_str());
	Variant x = ref::to(a), y = ref::to(b), d;
	d = JSONDiff(x, y);
	V va = ref::from(x), vb = ref::from(y), vd = ref::from(d);
	r.note("difference %s", ref::show(vd).c_str());
	r.step(1); r.state(mc::hash(ref::show(vd))); r.outcome(ref::show(vd));
	r.check(identical(va, a) && identical(vb, b), "inputs", "the inputs become %s and %s", ref::show(va).c_str(), ref::show(vb).c_str());
	r.check(vd.k == V::List, "list", "the difference is not a list");
	r.check(!identical(a, b) || vd.l.empty(), "nonempty", "the difference of identical documents is not empty");
	bool ok = JSONPatch(x, d).first;
	V now = ref::from(x);
	r.check(ok, "refused", "patching fails");
	r.check(equal(now, b), "result", "patching gives %s", ref::show(now).c_str());
	// and by the independent implementation
	V m = a;
	for (auto &op : vd.l) {
		ref::Toks t; V out;
		const std::string &o = op.m["op"].s;
		bool fine = op.k == V::Map && ref::jp_parse(op.m["path"].s, t);
		if (fine) fine = o == "add" ? ref::jp_add(m, t, op.m["value"]) : o == "remove" ? ref::jp_remove(m, t, out) : o == "replace" ? ref::jp_replace(m, t, op.m["value"]) : false;
		if (!fine && o != "add" && o != "remove" && o != "replace") return;    // a difference may use other operations
		r.check(fine, "invalid", "the operation %s does not apply to %s", ref::show(op).c_str(), ref::show(m).c_str());
	}
	r.check(equal(m, b), "meaning", "by RFC 6902 patching gives %s", ref::show(m).c_str());
	// the target is not touched through the patched document
	V want = ref::from(y);
	if (x.IsList()) x.Append(7); else if (x.IsMap()) x.Set("new", 7);
	V after = ref::from(y);
	r.check(ref::same(after, want), "shared", "changing the patched document changes the target to %s", ref::show(after).c_str());
}

int main(int argc, char **argv) {
	mc::Check c;
	c.prop = "P18"; c.level = "model_checking";
	c.rule = "the difference is a list, empty for identical documents; applying it succeeds and gives the target, both in the library and in an independent implementation of RFC 6902; inputs are unchanged";
	c.assumptions = {"documents hold no NaN and no cycles"};
	static const std::vector<V> D = documents(false), B = documents(true);
	c.spaces.push_back({"pairs", mc::fmt("every ordered pair of %zu documents (thorough %zu)", D.size(), B.size()), [](mc::Run &r) {
		const std::vector<V> &d = r.thorough ? B : D;
		const V &a = r.pick(d);
		const V &b = r.pick(d);
		judge(r, a, b);
	}, 1, true});
	return mc::run(argc, argv, c);
}
