// P16: JSON Pointer operations follow RFC 6901 and RFC 6902.
#include "jptr.hpp"
#include <Variant/Extensions.h>
#include <Variant/Path.h>
using namespace libvariant;
using ref::V;
using ref::Toks;

static V L(std::vector<V> v) { return V::list(v); }
static V M(std::map<std::string, V> m) { return V::map(m); }
static V I(int i) { return V::integer(i); }
static const std::vector<V> DOCS = {
	V::null(), I(5), V::str("s"), V::list(), V::map(), L({I(1)}), L({I(1), I(2), I(3)}), L({V::null(), V::list(), V::map()}), M({{"a", I(1)}}), M({{"a", V::null()}}),
	M({{"", I(1)}, {"a", M({{"", I(2)}})}}), M({{"a", L({I(1), I(2)})}, {"b", M({{"a", I(3)}})}}), M({{"a", M({{"a", M({{"a", I(1)}})}})}}), L({L({L({I(1), I(2)})}), M({{"a", L({I(3)})}})}),
	M({{"~", I(1)}, {"/", I(2)}, {"a/b", I(3)}, {"m~n", I(4)}, {"~1", I(5)}, {"0", I(6)}, {"-", I(7)}, {"01", I(8)}}), M({{"a", L({M({{"b", L({I(1)})}}), I(2)})}, {"b", V::str("x")}}), L({M({{"a", I(1)}}), M({{"a", I(2)}})}), M({{"0", L({I(1), I(2), I(3), I(4)})}, {"1", V::list()}}),
	L({I(0), I(1), I(2), I(3), I(4), I(5), I(6), I(7), I(8), I(9), I(10)}), M({{" ", I(1)}, {"%20", I(2)}, {"\"", I(3)}, {"\\", I(4)}, {std::string("\0", 1), I(5)}})};

static std::vector<std::string> pointers(const std::vector<std::string> &t, int max) {
	std::vector<std::string> o = {""};
	for (size_t b = 0, n = 0; (int)n < max; ++n) { size_t e = o.size(); for (; b < e; ++b) for (auto &s : t) o.push_back(o[b] + "/" + s); }
	return o;
}
static std::vector<std::string> wide() {
	std::vector<std::string> o = pointers({"a", "b", "", "0", "1", "2", "3", "-", "00", "01", "-1", "-0", "+1", " 1", "1 ", "1a", "0x1", "10", "11", "1e0", "4294967295", "4294967296", "4294967297", "18446744073709551615", "18446744073709551616", "18446744073709551617", "~0", "~1", "a~1b", "m~0n", "~01", "~", "~2", "a~", "~~", "~0~", " ", "%20", "\"", "\\"}, 2);
	for (auto &s : {"a", "#", "~", "a/b", "#/a", "0", "-", " /a", "\\", "a/"}) o.push_back(s);
	for (auto &s : pointers({"a", "b", "0", "1", "2", "-", "", "~", "3"}, 3)) if (std::count(s.begin(), s.end(), '/') == 3) o.push_back(s);
	o.push_back(std::string("/\0", 2)); o.push_back(std::string("/1\0", 3)); o.push_back(std::string("/a\0b", 4));
	return o;
}
static const std::vector<std::string> WIDE = wide(), PAIR = pointers({"a", "b", "0", "1", "2", "-", "3", "~"}, 2), FEW = pointers({"a", "0", "1", "-"}, 2), ENDS = {"", "/a", "/b", "/0", "/1", "/a/0", "/a/-", "/0/a", "/a/b"};

enum { LOOKUP, ADD, ADDC, REMOVE, REPLACE, REPLACEC, NSINGLE, MOVE = NSINGLE, COPY };
static const char *names[] = {"lookup", "add 9", "add [8]", "remove", "replace 9", "replace [8]", "move", "copy"};

static bool alike(const V &a, const V &b) { return ref::same(a, b) && a.k == b.k; }

static void step(mc::Run &r, Variant &x, V &m, int op, const std::string &p, const std::string &q = "") {
	if (op >= NSINGLE) r.note("%s %s to %s", names[op], mc::q(p).c_str(), mc::q(q).c_str()); else r.note("%s %s", names[op], mc::q(p).c_str());
	Toks t, u;
	bool ok = ref::jp_parse(p, t) && (op < NSINGLE || ref::jp_parse(q, u));
	V before = m, val, out, nine = I(9), eight = L({I(8)});
	if (ok) switch (op) {
	case LOOKUP: { V *f = ref::jp_find(m, t); ok = f; if (f) val = *f; break; }
	case ADD: ok = ref::jp_add(m, t, nine); break;
	case ADDC: ok = ref::jp_add(m, t, eight); break;
	case REMOVE: ok = ref::jp_remove(m, t, out); break;
	case REPLACE: ok = ref::jp_replace(m, t, nine); break;
	case REPLACEC: ok = ref::jp_replace(m, t, eight); break;
	case MOVE: ok = ref::jp_move(m, t, u); break;
	case COPY: ok = ref::jp_copy(m, t, u); break;
	}
	if (!ok) m = before;
	bool threw = false;
	std::string what;
	Variant got, e8; e8.Append(8);
	try {
		switch (op) {
		case LOOKUP: got = JSONPointerLookup(p, x); break;
		case ADD: JSONPointerAdd(p, x, 9); break;
		case ADDC: JSONPointerAdd(p, x, e8); break;
		case REMOVE: JSONPointerRemove(p, x); break;
		case REPLACE: JSONPointerReplace(p, x, 9); break;
		case REPLACEC: JSONPointerReplace(p, x, e8); break;
		case MOVE: JSONPointerMove(p, q, x); break;
		case COPY: JSONPointerCopy(p, q, x); break;
		}
	} catch (std::exception &e) { threw = true; what = e.what(); }
	V now = ref::from(x);
	r.check(ok || threw, "no-error", "raises no error on %s, which becomes %s", ref::show(before).c_str(), ref::show(now).c_str());
	r.check(!ok || !threw, "error", "raises %s on %s", what.c_str(), ref::show(before).c_str());
	if (ok && op == LOOKUP) { V g = ref::from(got); r.check(alike(g, val), "lookup", "finds %s in %s, expected %s", ref::show(g).c_str(), ref::show(before).c_str(), ref::show(val).c_str()); }
	r.check(alike(now, m), ok ? "document" : "changed", "%s becomes %s, expected %s", ref::show(before).c_str(), ref::show(now).c_str(), ref::show(m).c_str());
	r.step(1);
}

int main(int argc, char **argv) {
	mc::Check c;
	c.prop = "P16"; c.level = "model_checking";
	c.rule = "each operation succeeds or raises an error as an independent implementation of RFC 6901 and RFC 6902 says, with the same result, and leaves the document unchanged on error; changing a copied value never changes its source";
	c.assumptions = {"removing the whole document leaves null", "values given to add and replace are shared with the document, as everywhere in the library"};
	c.spaces.push_back({"single", mc::fmt("lookup, add, remove and replace with every pointer of %zu on %zu documents", WIDE.size(), DOCS.size()), [](mc::Run &r) {
		V m = r.pick(DOCS);
		int op = r.choose(NSINGLE);
		const std::string &p = r.pick(WIDE);
		r.note("%s", ref::show(m).c_str());
		Variant x = ref::to(m);
		step(r, x, m, op, p);
		r.state(mc::hash(ref::show(m))); r.outcome(ref::show(m));
	}, 2, true});
	c.spaces.push_back({"pairs", mc::fmt("move and copy with every pair of %zu pointers on %zu documents", PAIR.size(), DOCS.size()), [](mc::Run &r) {
		V m = r.pick(DOCS);
		int op = MOVE + r.choose(2);
		const std::string &p = r.pick(PAIR), &q = r.pick(PAIR);
		r.note("%s", ref::show(m).c_str());
		Variant x = ref::to(m);
		step(r, x, m, op, p, q);
		r.state(mc::hash(ref::show(m))); r.outcome(ref::show(m));
	}, 2, true});
	c.spaces.push_back({"histories", mc::fmt("every 2 operations (thorough 3) with pointers of %zu on 2 documents (thorough 4), through the document and through a reference to it", FEW.size()), [](mc::Run &r) {
		static const std::vector<int> D = {11, 15, 4, 13};
		V m = DOCS[D[r.choose(r.thorough ? 2 : 4)]];
		r.note("%s", ref::show(m).c_str());
		Variant x = ref::to(m);
		int n = r.thorough ? 3 : 2;
		for (int i = 0; i < n; ++i) {
			int op = ADD + r.choose(COPY);         // lookups are not needed between changes
			if (op < NSINGLE) step(r, x, m, op, r.pick(FEW)); else { const std::string &p = r.pick(ENDS), &q = r.pick(ENDS); step(r, x, m, op, p, q); }
		}
		r.state(mc::hash(ref::show(m))); r.outcome(ref::show(m));
	}, 2, true});
	c.spaces.push_back({"forming", "every path of up to 3 elements of 10 keys and 3 indices written as a pointer", [](mc::Run &r) {
		static const std::vector<std::string> K = {"a", "", "~", "/", "a/b", "m~n", "~1", "~0", "0", "-"};
		Path p; Toks t;
		int n = r.choose(4);
		for (int i = 0; i < n; ++i) {
			int k = r.choose(13);
			if (k < 10) { p.push_back(PathElement(K[k])); t.push_back(K[k]); }
			else { unsigned v[] = {0, 10, 4294967295u}; p.push_back(PathElement(v[k - 10])); t.push_back(mc::fmt("%u", v[k - 10])); }
		}
		std::string got = FormJSONPointer(p), want = ref::jp_text(t);
		r.note("%s", want.c_str());
		r.check(got == want, "form", "written as %s, expected %s", mc::q(got).c_str(), mc::q(want).c_str());
		r.step(1); r.state(mc::hash(want)); r.outcome(got);
	}, 1, false});
	return mc::run(argc, argv, c);
}
