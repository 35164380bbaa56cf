// P04: bundle headers.
#include "values.hpp"
#include "guess.hpp"
using namespace libvariant;
using ref::V;

// What a scalar reads back as: bundle headers are untyped text.
static V expected(const V &v) {
	switch (v.k) {
	case V::Null: return V::str("");
	case V::Bool: return V::integer(v.b);
	case V::Str: return ref::guess(v.s);
	case V::List: { V o = V::list(); for (auto &x : v.l) o.l.push_back(expected(x)); return o; }
	case V::Map: { V o = V::map(); for (auto &x : v.m) o.m[x.first] = expected(x.second); return o; }
	default: return v;
	}
}

static void round(mc::Run &r, const V &v) {
	r.note("%s", ref::show(v).substr(0, 500).c_str());
	std::string text = Serialize(ref::to(v), SERIALIZE_BUNDLEHDR);
	V want = expected(v);
	V back = ref::from(Deserialize(text, SERIALIZE_BUNDLEHDR));
	r.check(ref::same(back, want), "round-trip", "came back as %s, not %s (text %s)", ref::show(back).c_str(), ref::show(want).c_str(), mc::q(text).c_str());
	V say = ref::bundle(text);
	r.check(ref::same(say, want), "text", "the text says %s, not %s (text %s)", ref::show(say).c_str(), ref::show(want).c_str(), mc::q(text).c_str());
	r.step(2); r.state(text); r.outcome(ref::show(back));
}

int main(int argc, char **argv) {
	mc::Check c;
	c.prop = "P04"; c.level = "model_checking";
	c.rule = "every map enumerated is written by the real emitter; the text is read by the real parser and by an independent reader of the format, and both must give the expected map. Every text enumerated is read by the real parser and compared with the independent reader.";
	c.assumptions = {"keys and strings avoid the delimiters: no blank, ':', '#' in keys; no '|', '#', line break, null character or surrounding blanks in values", "a list holding one empty element is written like the empty list"};

	c.spaces.push_back({"strings", "all values of up to 5 (thorough 6) symbols over 11 non-delimiter symbols, as scalar and inside lists", [](mc::Run &r) {
		static const std::vector<std::string> A = {"a", "0", "7", "-", ".", "e", ":", " ", "x", "\xc3\xa9", "\"", };
		std::string s = gen::word(r, A, r.thorough ? 6 : 5);
		if (!s.empty() && (s[0] == ' ' || s.back() == ' ')) return;
		round(r, V::map({{"k", V::str(s)}, {"l", V::list({V::str("x"), V::str(s), V::str("y")})}, {"m", V::list({V::integer(1), V::str(s)})}, {"z", V::integer(2)}}));
	}, 2, false});
	c.spaces.push_back({"keys", "all keys of up to 3 symbols over 12 symbols, with scalar and list values", [](mc::Run &r) {
		static const std::vector<std::string> A = {"a", "0", ".", "|", "/", "-", "\"", "\xc3\xa9", "{", "[", "b", "\x01"};
		std::string s = gen::word(r, A, 3);
		static const V vals[] = {V::str("v"), V::integer(3), V::list({V::str("a"), V::str("b")}), V::list(), V::null()};
		V v = V::map({{"0first", V::integer(1)}, {"zlast", V::integer(2)}});
		v.m[s] = vals[r.choose(5)];
		round(r, v);
	}, 2, false});
	c.spaces.push_back({"maps", "all maps of up to 3 (thorough 4) keys over 13 scalars and lists", [](mc::Run &r) {
		static const std::vector<V> X = {V::null(), V::boolean(true), V::boolean(false), V::integer(-7), V::uinteger(UINTMAX_MAX), V::flt(2.5), V::str("word"), V::str("two words"), V::list(), V::list({V::integer(1)}), V::list({V::str(""), V::str("b")}), V::list({V::str("a"), V::null(), V::str("c")}), V::list({V::flt(0.5), V::null()})};
		static const char *K[] = {"a", "b.c", "d", "zz"};
		int n = r.choose(r.thorough ? 5 : 4);
		V v = V::map();
		for (int i = 0; i < n; ++i) v.m[K[i]] = r.pick(X);
		round(r, v);
	}, 2, true});
	c.spaces.push_back({"lists", "all lists of up to 4 (thorough 5) elements over 6 scalars including empty ones", [](mc::Run &r) {
		static const std::vector<V> X = {V::str(""), V::null(), V::str("a"), V::integer(1), V::flt(-1.5), V::boolean(true)};
		int n = r.choose(r.thorough ? 6 : 5);
		V v = V::list();
		for (int i = 0; i < n; ++i) v.l.push_back(r.pick(X));
		if (n == 1 && (v.l[0].k == V::Null || (v.l[0].k == V::Str && v.l[0].s.empty()))) return;
		round(r, V::map({{"l", v}, {"m", V::str("next")}}));
	}, 2, false});
	c.spaces.push_back({"integers", "+-(2^k + d), +-(10^k + d)", [](mc::Run &r) { V x = gen::integer(r); round(r, V::map({{"k", x}, {"l", V::list({x, x})}})); }, 1, false});
	c.spaces.push_back({"doubles", "every binary exponent incl. infinities and NaN x sign x 12 mantissas; d*10^e", [](mc::Run &r) { V x = gen::doubles(r); round(r, V::map({{"k", x.l[0]}, {"l", x}})); }, 1, false});
	c.spaces.push_back({"texts", "all texts of up to 6 (thorough 7) symbols over 10 symbols of the format", [](mc::Run &r) {
		static const std::vector<std::string> A = {"a", "1", ":", " ", "|", "#", "\n", "\t", "bundle.version", "\r"};
		std::string t = gen::word(r, A, r.thorough ? 7 : 6);
		if (t.empty()) return;
		r.note("%s", mc::q(t).c_str());
		V back = ref::from(Deserialize(t, SERIALIZE_BUNDLEHDR)), want = ref::bundle(t);
		r.check(ref::same(back, want), "text", "%s read as %s, not %s", mc::q(t).c_str(), ref::show(back).c_str(), ref::show(want).c_str());
		r.step(1); r.state(t); r.outcome(ref::show(back));
	}, 3, false});
	c.spaces.push_back({"lines", "texts of two and three lines over 24 line forms, with and without a final line break, from memory and from a stream", [](mc::Run &r) {
		static const std::vector<std::string> L = {"a: 1", "a:1", " a : 1", "b: x y", "b: x # c", "#c: 1", "c#: 1", "c", "c :", "d: |", "d: a|", "d: a|b", "d: a||b", "d: |b", "d: ||", "d: a|b| # t", "e: 1 2:3", "bundle.version: 0.0", "", "  ", ": v", "a: 0x1f", "a: \ttab\t", "f: ~|true|1.5|0o7"};
		int n = 2 + r.choose(r.thorough ? 2 : 2);
		std::string t;
		for (int i = 0; i < n; ++i) { if (i) t += "\n"; t += r.pick(L); }
		if (r.choose(2)) t += "\n";
		if (t.empty()) return;
		r.note("%s", mc::q(t).c_str());
		V want = ref::bundle(t), back;
		if (r.choose(2)) { std::istringstream ss(t); back = ref::from(DeserializeFile(ss.rdbuf(), SERIALIZE_BUNDLEHDR)); }
		else back = ref::from(Deserialize(t, SERIALIZE_BUNDLEHDR));
		r.check(ref::same(back, want), "text", "%s read as %s, not %s", mc::q(t).c_str(), ref::show(back).c_str(), ref::show(want).c_str());
		r.step(1); r.state(t); r.outcome(ref::show(back));
	}, 2, false});
	c.spaces.push_back({"long", "values and keys of lengths around 4096, 8192 and 16384, from memory, stream and file reads", [](mc::Run &r) {
		static const int S[] = {64, 4096, 8192, 16384};
		int len = S[r.choose(4)] - 24 + r.choose(48), where = r.choose(2), src = r.choose(2), extra = r.choose(3);
		std::string big(len, 'q');
		V v = V::map({{where ? big : "k", V::str(where ? "v" : big)}});
		for (int i = 0; i < extra; ++i) v.m[mc::fmt("z%d", i)] = V::integer(i);
		r.note("len %d where %d src %d", len, where, src);
		std::string text = Serialize(ref::to(v), SERIALIZE_BUNDLEHDR);
		V back;
		if (src) { std::istringstream ss(text); back = ref::from(DeserializeFile(ss.rdbuf(), SERIALIZE_BUNDLEHDR)); }
		else back = ref::from(Deserialize(text, SERIALIZE_BUNDLEHDR));
		r.check(ref::same(back, v), "round-trip", "came back as %s", ref::show(back).c_str());
		r.step(2); r.state(text);
	}, 2, false});
	c.spaces.push_back({"refused", "all trees of at most 4 (thorough 5) nodes that are not a flat map must be refused, flat ones must not", [](mc::Run &r) {
		ref::TreeGen g; g.leaves = {V::null(), V::integer(1), V::str("s"), V::blob("b")}; g.keys = {"a", "b"};
		int n = r.thorough ? 5 : 4;
		V v = g.gen(r, n, 3);
		r.note("%s", ref::show(v).c_str());
		bool flat = v.k == V::Map;
		bool lone = false;
		if (flat) for (auto &x : v.m) {
			if (x.second.k == V::Map || x.second.k == V::Blob) flat = false;
			if (x.second.k == V::List) { for (auto &y : x.second.l) if (y.k == V::List || y.k == V::Map || y.k == V::Blob) flat = false; if (x.second.l.size() == 1 && x.second.l[0].k == V::Null) lone = true; }
		}
		if (flat) { if (!lone) round(r, v); return; }
		bool threw = false;
		std::string t;
		try { t = Serialize(ref::to(v), SERIALIZE_BUNDLEHDR); } catch (std::exception &) { threw = true; }
		r.check(threw, "not-refused", "%s was written as %s", ref::show(v).c_str(), mc::q(t).c_str());
		r.step(1); r.state(ref::show(v));
	}, 2, true});
	return mc::run(argc, argv, c);
}
