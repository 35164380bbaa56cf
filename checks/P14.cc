// P14: comparison is exact, symmetric and consistent with equality.
#include "values.hpp"
#include <Variant/Blob.h>
using namespace libvariant;
using ref::V;

struct Val { V v; Variant x; bool nan; long double f; };

// A blob of the bytes in the given pieces
static Variant blob(const std::vector<std::string> &pieces) {
	struct iovec *iov = new iovec[pieces.size() + 1];
	static std::vector<std::string *> keep;
	for (size_t i = 0; i < pieces.size(); ++i) { keep.push_back(new std::string(pieces[i])); iov[i].iov_base = (void *)keep.back()->data(); iov[i].iov_len = pieces[i].size(); }
	BlobPtr b = Blob::CreateReferenced(iov, pieces.size());
	delete[] iov;
	return Variant(b);
}

static std::vector<Val> VALS;
static size_t QUICK;
static void add(const V &v, const Variant &x, long double f = 0) { VALS.push_back({v, x, v.k == V::Flt && std::isnan(v.f), f}); }
static void add(const V &v) { add(v, ref::to(v)); }
static void number(long double f) {
	add(V::flt(f), Variant((long double)f), f);
	if (f == truncl(f) && f >= -9223372036854775808.0L && f < 9223372036854775808.0L) add(V::integer((intmax_t)f), Variant((long long)f), f);
	if (f == truncl(f) && f >= 0 && f < 18446744073709551616.0L) add(V::uinteger((uintmax_t)f), Variant((unsigned long long)f), f);
}
static void fill() {
	add(V::null());
	add(V::boolean(false)); add(V::boolean(true));
	for (long double f : {0.0L, 1.0L, -1.0L, 0.5L, -0.5L, 1.5L, 2.0L, 255.0L, 4294967295.0L, 4294967296.0L, 9007199254740991.0L, 9007199254740992.0L, 9007199254740993.0L,
			9223372036854775806.0L, 9223372036854775807.0L, 9223372036854775808.0L, -9223372036854775807.0L, -9223372036854775808.0L, 18446744073709551614.0L, 18446744073709551615.0L, 18446744073709551616.0L, -18446744073709551615.0L,
			0.1L, (long double)0.1, 1e300L, -1e300L, 1e-300L, 4503599627370495.5L}) number(f);
	number(-0.0L); number(INFINITY); number(-INFINITY); number(NAN);
	static const char S[] = {'a', 'b', 0, (char)0xff, 'A'};
	for (int n = 0; n <= 2; ++n) for (int i = 0; i < (n == 0 ? 1 : n == 1 ? 5 : 25); ++i) { std::string t; for (int j = 0, k = i; j < n; ++j, k /= 5) t += S[k % 5]; add(V::str(t)); }
	add(V::str("1")); add(V::str("true")); add(V::str("null"));
	static const std::vector<std::vector<std::string>> B = {{}, {""}, {"a"}, {"a", "b"}, {"ab"}, {"ab", ""}, {"", "ab"}, {"b"}, {"abc"}, {"a", "b", "c"}, {"a", "bc"}, {"ab", "d"}, {std::string("\0", 1)}, {"\xff"}, {"\xff", "a"}, {"a", "\xff"}, {std::string("a\0", 2)}, {"abcdef"}, {"abc", "def"}, {"abcd", "eg"}};
	for (auto &b : B) { std::string t; for (auto &p : b) t += p; add(V::blob(t), blob(b)); }
	add(V::blob(""), Variant(Variant::BlobType));
	// containers
	std::vector<V> leaf = {V::null(), V::integer(1), V::uinteger(1), V::flt(1), V::flt(1.5), V::str("a"), V::boolean(true), V::list(), V::map(), V::list({V::integer(1)}), V::map({{"a", V::integer(1)}}), V::blob("a")};
	add(V::list()); add(V::map());
	for (auto &a : leaf) { add(V::list({a})); add(V::map({{"a", a}})); add(V::map({{"b", a}})); }
	std::vector<V> few = {V::null(), V::integer(1), V::flt(1), V::integer(2), V::str("a"), V::list(), V::map()};
	for (auto &a : few) for (auto &b : few) { add(V::list({a, b})); add(V::map({{"a", a}, {"b", b}})); add(V::list({V::list({a, b})})); }
	QUICK = VALS.size();
	for (auto &a : few) for (auto &b : few) for (auto &c : few) { add(V::list({a, b, c})); add(V::map({{"a", a}, {"b", b}, {"c", c}})); add(V::map({{"a", V::list({a, b})}, {"b", c}})); }
	for (int k = 0; k < 66; ++k) for (int d = -2; d <= 2; ++d) { number(ldexpl(1, k) + d); number(-ldexpl(1, k) + d); }
}

// Exact order; 2: no order, different; 3: not settled
static int order(long double x, long double y) {
	if (std::isnan(x) && std::isnan(y)) return 0;
	if (std::isnan(x) || std::isnan(y)) return 2;
	return x < y ? -1 : x > y ? 1 : 0;
}
static int order(const V &a, const V &b) {
	auto f = [](const V &v) { return v.k == V::Flt ? v.f : v.k == V::Int ? (long double)v.i : (long double)v.u; };
	if (a.isnum() && b.isnum()) return order(f(a), f(b));
	if (a.k != b.k) return 2;
	switch (a.k) {
	case V::Null: return 0;
	case V::Bool: return a.b == b.b ? 0 : a.b ? 1 : -1;
	case V::Str: case V::Blob: { int c = memcmp(a.s.data(), b.s.data(), std::min(a.s.size(), b.s.size())); return c < 0 ? -1 : c > 0 ? 1 : a.s.size() < b.s.size() ? -1 : a.s.size() > b.s.size(); }
	case V::List:
		if (a.l.size() != b.l.size()) return 2;
		for (size_t i = 0; i < a.l.size(); ++i) if (order(a.l[i], b.l[i])) return 2;
		return 0;
	case V::Map:
		if (a.m.size() != b.m.size()) return 2;
		for (auto i = a.m.begin(), j = b.m.begin(); i != a.m.end(); ++i, ++j) if (i->first != j->first || order(i->second, j->second)) return 2;
		return 0;
	default: return 3;
	}
}
static int order(const Val &a, const Val &b) { return a.v.isnum() && b.v.isnum() ? order(a.f, b.f) : order(a.v, b.v); }

int main(int argc, char **argv) {
	fill();
	mc::Check c;
	c.prop = "P14"; c.level = "model_checking";
	c.rule = "Compare, the six operators and Comparable give, for every ordered pair in every form of operand, what the exact mathematical comparison of the two values says";
	c.assumptions = {"NaN equals only NaN and has no order", "the order of unequal lists and maps is documented as arbitrary; only their equality is claimed"};
	c.spaces.push_back({"pairs", mc::fmt("every ordered pair of %zu values (thorough %zu), each operand a value, a reference, a list element or a map element", QUICK, VALS.size()), [](mc::Run &r) {
		size_t n = r.thorough ? VALS.size() : QUICK;
		Val &a = VALS[r.choose(n)];
		r.note("%s", ref::show(a.v).c_str());
		int fa = r.choose(3);
		for (size_t j = 0; j < n; ++j) for (int fb = 0; fb < 3; ++fb) {
			Val &b = VALS[j];
			Variant x = a.x, y = b.x, xl, ym;
			xl.Append(a.x); xl.Append(1); ym["k"] = b.x;
			VariantRef xr = fa == 2 ? xl[0u] : x.Ref(), yr = fb == 2 ? ym["k"] : y.Ref();
			const Variant &p = fa ? (const Variant &)xr : x, &q = fb ? (const Variant &)yr : y;
			int w = order(a, b);
			if (w == 3) continue;
			int got = p.Compare(q);
			std::string t = mc::fmt("%s and %s (forms %d, %d)", ref::show(a.v).c_str(), ref::show(b.v).c_str(), fa, fb);
			r.check((got == 0) == (w == 0), "equality", "Compare gives %d for %s", got, t.c_str());
			if (w != 2) r.check(got < 0 ? w < 0 : got > 0 ? w > 0 : w == 0, "order", "Compare gives %d for %s, expected %d", got, t.c_str(), w);
			bool cmp = p.Comparable(q), wc = a.v.k == b.v.k || (a.v.isnum() && b.v.isnum());
			r.check(cmp == wc, "comparable", "Comparable gives %d for %s", cmp, t.c_str());
			if (!wc) r.check(got == 1, "incomparable", "Compare gives %d for incomparable %s", got, t.c_str());
			r.check((p == q) == (got == 0) && (p != q) == (got != 0) && (p < q) == (got < 0) && (p > q) == (got > 0) && (p <= q) == (got <= 0) && (p >= q) == (got >= 0), "operators", "operators disagree with Compare = %d for %s", got, t.c_str());
			r.step(1);
			r.outcome(mc::fmt("%d%d %d", (int)a.v.k, (int)b.v.k, got));
		}
		r.state(mc::hash(ref::show(a.v) + mc::fmt("%d", fa)));
	}, 1, false});
	c.spaces.push_back({"copies", "every value against its copies, and found in a list", [](mc::Run &r) {
		size_t n = r.thorough ? VALS.size() : QUICK, i = r.choose(n);
		Val &a = VALS[i];
		r.note("%s", ref::show(a.v).c_str());
		Variant x = a.x, y = a.x.Copy(), l = Variant::ListType;
		r.check(x == a.x && y == a.x && a.x == y, "copy", "copy differs from the original");
		size_t want = n;
		for (size_t j = 0; j < n; ++j) { l.Append(VALS[j].x); if (want == n && order(VALS[j], a) == 0) want = j; }
		unsigned got = l.Index(a.x);
		r.check(got == want, "index", "found at %u, first equal element at %zu", got, want);
		Variant none = Variant::ListType;
		for (size_t j = 0; j < n; ++j) if (order(VALS[j], a) != 0) none.Append(VALS[j].x);
		r.check(none.Index(a.x) == none.Size(), "index", "found at %u in a list without it", none.Index(a.x));
		r.step(3); r.outcome(ref::show(a.v)); r.state(mc::hash(ref::show(a.v)));
	}, 1, false});
	return mc::run(argc, argv, c);
}
