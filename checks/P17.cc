// P17: a JSON Patch applies completely or not at all.
#include "jptr.hpp"
#include <Variant/Extensions.h>
using namespace libvariant;
using ref::V;
using ref::Toks;

static V L(std::vector<V> v) { return V::list(v); }
static V M(std::map<std::string, V> m) { return V::map(m); }
static V I(int i) { return V::integer(i); }
static V S(const std::string &s) { return V::str(s); }

// ---- reference patch
static bool str(const V &op, const char *k, std::string &s) { auto it = op.m.find(k); if (it == op.m.end() || it->second.k != V::Str) return false; s = it->second.s; return true; }
static bool apply1(V &d, const V &op) {
	std::string name, p, f;
	Toks t, u;
	if (op.k != V::Map || !str(op, "op", name) || !str(op, "path", p) || !ref::jp_parse(p, t)) return false;
	auto val = op.m.find("value");
	bool hv = val != op.m.end();
	V out;
	if (name == "add") return hv && ref::jp_add(d, t, val->second);
	if (name == "remove") return ref::jp_remove(d, t, out);
	if (name == "replace") return hv && ref::jp_replace(d, t, val->second);
	if (name == "test") { V *x = ref::jp_find(d, t); return hv && x && ref::same(*x, val->second); }
	if (name != "move" && name != "copy") return false;
	if (!str(op, "from", f) || !ref::jp_parse(f, u)) return false;
	return name == "move" ? ref::jp_move(d, u, t) : ref::jp_copy(d, u, t);
}
static bool apply(V &d, const V &patch) {
	V c = d;
	if (patch.k == V::List) { for (auto &op : patch.l) if (!apply1(c, op)) return false; }
	else if (!apply1(c, patch)) return false;
	d = c;
	return true;
}

static const std::vector<V> DOCS = {
	M({{"a", L({I(1), I(2)})}, {"b", M({{"a", I(3)}})}}), L({I(1), L({I(2)}), I(3)}), V::map(), M({{"a", I(1)}}), L({M({{"a", L({})}}), M({{"a", I(1)}})}), V::list(), V::null(), M({{"a", M({{"a", M({{"a", I(1)}})}})}}), L({I(1), I(2), I(3), I(4)}), I(5)};

static V op(const std::string &o, const std::string &p) { return M({{"op", S(o)}, {"path", S(p)}}); }
static V with(V o, const std::string &k, const V &v) { o.m[k] = v; return o; }

static std::vector<V> full() {
	std::vector<V> o;
	std::vector<std::string> P = {"", "/a", "/b", "/a/0", "/a/-", "/a/1", "/0", "/1", "/-", "/0/a", "/1/0", "/a/a", "/b/a", "/9"};
	for (auto &p : P) {
		o.push_back(with(op("add", p), "value", I(9)));
		o.push_back(with(op("add", p), "value", L({M({})})));
		o.push_back(op("remove", p));
		o.push_back(with(op("replace", p), "value", M({{"a", L({})}})));
		o.push_back(with(op("test", p), "value", I(1)));
		for (auto &f : {"", "/a", "/b", "/0", "/1", "/a/0"}) { o.push_back(with(op("move", p), "from", S(f))); o.push_back(with(op("copy", p), "from", S(f))); }
	}
	for (auto &p : P) o.push_back(with(op("test", p), "value", V::null()));
	o.push_back(with(op("test", ""), "value", DOCS[0])); o.push_back(with(op("test", "/a"), "value", L({I(1), I(2)}))); o.push_back(with(op("test", "/1"), "value", L({I(2)})));
	return o;
}
static std::vector<V> malformed() {
	return {I(1), S("add"), V::null(), V::list(), V::map(), M({{"op", S("add")}}), op("add", "/a"), op("replace", "/a"), op("test", "/a"), op("move", "/a"), op("copy", "/a"), op("nonsense", "/a"), op("", "/a"), op("Add", "/a"), op("remove", "a"), op("remove", "/~"), op("remove", "~"),
		M({{"op", S("remove")}, {"path", V::null()}}), M({{"op", S("remove")}, {"path", I(0)}}), M({{"op", S("remove")}, {"path", L({})}}), M({{"op", V::null()}, {"path", S("/a")}}), M({{"op", I(1)}, {"path", S("/a")}}), M({{"path", S("/a")}, {"value", I(1)}}),
		with(op("move", "/a"), "from", V::null()), with(op("copy", "/a"), "from", I(0)), with(op("copy", "/a"), "from", S("b")), with(op("move", "~"), "from", S("/a")), with(op("move", "/a~"), "from", S("/a")), with(op("copy", "a"), "from", S("/a"))};
}
static std::vector<V> few() {
	std::vector<V> o;
	for (auto &p : {"", "/a", "/a/0", "/a/-", "/0", "/1", "/b"}) {
		o.push_back(with(op("add", p), "value", L({M({})})));
		o.push_back(op("remove", p));
		if (*p) o.push_back(with(op("replace", p), "value", M({{"a", L({})}})));
	}
	for (auto &f : {"/a", "/b", "/0"}) for (auto &p : {"/b", "/a/0", "/1", "/a/-", "/-"}) { o.push_back(with(op("move", p), "from", S(f))); o.push_back(with(op("copy", p), "from", S(f))); }
	return o;
}
static const std::vector<V> OPS = full(), BAD = malformed(), FEW = few(), FAIL = {with(op("test", ""), "value", S("no")), op("remove", "/none/x"), op("nonsense", ""), with(op("add", "/9/9"), "value", I(1))};

// Change every container of the document
static void spoil(VariantRef v, int depth = 0) {
	if (depth > 8) return;
	if (v.IsList()) { for (unsigned i = 0, n = v.Size(); i < n; ++i) spoil(v[i], depth + 1); v.Append("spoiled"); }
	else if (v.IsMap()) { std::vector<std::string> k; for (auto i = v.MapBegin(); i != v.MapEnd(); ++i) k.push_back(i->first); for (auto &s : k) spoil(v[s], depth + 1); v.Set("spoiled", true); }
}

static void spoil(V &v) {
	if (v.k == V::List) { for (auto &e : v.l) spoil(e); v.l.push_back(S("spoiled")); }
	else if (v.k == V::Map) { for (auto &e : v.m) spoil(e.second); v.m["spoiled"] = V::boolean(true); }
}

static void judge(mc::Run &r, const V &doc, const V &patch) {
	r.note("%s patched with %s", ref::show(doc).c_str(), ref::show(patch).c_str());
	V want = doc;
	bool ok = apply(want, patch);
	Variant x = ref::to(doc), p = ref::to(patch);
	bool done = false, threw = false;
	try { done = JSONPatch(x, p).first; } catch (std::exception &) { threw = true; }
	V now = ref::from(x);
	r.step(1); r.state(mc::hash(ref::show(now))); r.outcome(ref::show(now) + (done ? "+" : "-"));
	r.check(done == ok, ok ? "refused" : "accepted", ok ? "reports failure; the document is then %s" : "reports success; the document is then %s", ref::show(now).c_str());
	r.check(ref::same(now, want) && now.k == want.k, ok ? "result" : "partial", "the document becomes %s, expected %s", ref::show(now).c_str(), ref::show(want).c_str());
	V q = ref::from(p);
	r.check(ref::same(q, patch), "patch", "the patch becomes %s", ref::show(q).c_str());
	r.check(!threw, "throws", "throws instead of reporting the failure");
	spoil(x);
	spoil(want);
	now = ref::from(x);
	r.check(ref::same(now, want), "aliased", "changing each container of the result once gives %s, expected %s", ref::show(now).c_str(), ref::show(want).c_str());
	q = ref::from(p);
	r.check(ref::same(q, patch), "shared", "changing the result changes the patch to %s", ref::show(q).c_str());
}

int main(int argc, char **argv) {
	mc::Check c;
	c.prop = "P17"; c.level = "model_checking";
	c.rule = "success or failure and the resulting document are those of an independent implementation of RFC 6902; after a failure the document is as before; the patch is unchanged and shares nothing with the document; no two places of the document share a container";
	c.assumptions = {"removing the whole document leaves null"};
	c.spaces.push_back({"two-operations", mc::fmt("every patch of 0, 1 and 2 operations of %zu on %zu documents", OPS.size(), DOCS.size()), [](mc::Run &r) {
		const V &d = r.pick(DOCS);
		V p = V::list();
		for (int i = 0; i < 2; ++i) { int k = r.choose(OPS.size() + 1); if (!k) break; p.l.push_back(OPS[k - 1]); }
		judge(r, d, p);
	}, 2, true});
	c.spaces.push_back({"failing", mc::fmt("every 2 (thorough 3) operations of %zu on 4 documents followed by each of %zu failing operations", FEW.size(), FAIL.size()), [](mc::Run &r) {
		static const std::vector<int> D = {0, 1, 4, 8};
		const V &d = DOCS[r.pick(D)];
		V p = V::list();
		int n = r.thorough ? 3 : 2;
		V m = d;
		for (int i = 0; i < n; ++i) { p.l.push_back(r.pick(FEW)); if (!apply1(m, p.l.back())) break; }
		p.l.push_back(r.pick(FAIL));
		judge(r, d, p);
	}, 2, true});
	c.spaces.push_back({"three-operations", mc::fmt("every patch of 3 operations of %zu on 2 documents (thorough: 4 operations)", FEW.size()), [](mc::Run &r) {
		const V &d = DOCS[r.choose(2)];
		V p = V::list(), m = d;
		int n = r.thorough ? 4 : 3;
		for (int i = 0; i < n; ++i) { p.l.push_back(r.pick(FEW)); if (!apply1(m, p.l.back())) break; }
		judge(r, d, p);
	}, 2, true});
	c.spaces.push_back({"malformed", mc::fmt("each of %zu malformed operations alone, after and before each of %zu operations, as a list and as a single operation", BAD.size(), OPS.size()), [](mc::Run &r) {
		const V &d = r.pick(DOCS);
		const V &b = r.pick(BAD);
		int k = r.choose(2 * (int)OPS.size() + 2);
		if (k == 0) judge(r, d, V::list({b}));
		else if (k == 1) { if (b.k != V::List) judge(r, d, b); }
		else if (k % 2) judge(r, d, V::list({b, OPS[k / 2 - 1]}));
		else judge(r, d, V::list({OPS[k / 2 - 1], b}));
	}, 2, true});
	return mc::run(argc, argv, c);
}
