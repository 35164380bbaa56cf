// P15: numeric conversion and arithmetic give the mathematical result.
#include "values.hpp"
#include <complex>
using namespace libvariant;
using ref::V;
typedef __int128 W;

enum Kind { INT, UNS, FLT };
struct Num { Kind k; W i; long double f; };          // i for INT and UNS
static const W IMIN = (W)INTMAX_MIN, IMAX = (W)INTMAX_MAX, UMAX = (W)UINTMAX_MAX;

static Variant make(const Num &n) {
	switch (n.k) { case INT: return Variant((long long)n.i); case UNS: return Variant((unsigned long long)n.i); default: return Variant(n.f); }
}
static std::string dec(W v) {
	if (v < 0) return "-" + dec(-v);
	std::string s;
	do { s.insert(0, 1, (char)('0' + (int)(v % 10))); v /= 10; } while (v);
	return s;
}
static std::string show(const Num &n) { return n.k == FLT ? mc::fmt("%.21Lg", n.f) : dec(n.i) + (n.k == UNS ? "u" : ""); }
static long double ld(const Num &n) { return n.k == FLT ? n.f : (long double)n.i; }
static bool fits(Kind k, W v) { return k == INT ? v >= IMIN && v <= IMAX : v >= 0 && v <= UMAX; }

static std::vector<Num> NUMS;
static size_t QUICK;
static void number(long double f) {
	NUMS.push_back({FLT, 0, f});
	if (f == truncl(f) && f >= -9223372036854775808.0L && f < 9223372036854775808.0L) NUMS.push_back({INT, (W)f, 0});
	if (f == truncl(f) && f >= 0 && f < 18446744073709551616.0L) NUMS.push_back({UNS, (W)f, 0});
}
static void fill() {
	for (long double f : {0.0L, 1.0L, -1.0L, 2.0L, -2.0L, 3.0L, 7.0L, -7.0L, 0.5L, -0.5L, 1.5L, 2.75L, -3.25L, 10.0L, 127.0L, 128.0L, -128.0L, -129.0L, 255.0L, 256.0L, 32767.0L, 32768.0L, -32768.0L, 65535.0L, 65536.0L, 2147483647.0L, 2147483648.0L, -2147483648.0L, -2147483649.0L,
			4294967295.0L, 4294967296.0L, 4294967297.0L, 9007199254740991.0L, 9007199254740993.0L, 4611686018427387904.0L, 9223372036854775806.0L, 9223372036854775807.0L, 9223372036854775808.0L, -9223372036854775807.0L, -9223372036854775808.0L,
			18446744073709551614.0L, 18446744073709551615.0L, 0.1L, (long double)0.1, 1e10L, 1e-10L, 1e300L, -1e300L, 1e4000L, 4503599627370495.5L, 3037000499.0L, 3037000500.0L, 1000000.0L, 123456789.0L}) number(f);
	QUICK = NUMS.size();
	for (int k = 1; k < 64; ++k) for (int d = -1; d <= 1; ++d) { number(ldexpl(1, k) + d); number(-ldexpl(1, k) + d); }
}

// The value a result should be: same kind, same number
static void expect(mc::Run &r, const Variant &got, const Num &want, const char *what) {
	bool kind = want.k == INT ? got.IsInt() : want.k == UNS ? got.IsUnsigned() : got.IsFloat();
	r.check(kind, "kind", "%s gives type %d, expected %s", what, (int)got.GetType(), show(want).c_str());
	bool same;
	if (want.k == INT) same = (W)got.AsInt() == want.i;
	else if (want.k == UNS) same = (W)got.AsUnsigned() == want.i;
	else { long double g = got.AsLongDouble(); same = std::isnan(want.f) ? std::isnan(g) : g == want.f && std::signbit(g) == std::signbit(want.f); }
	r.check(same, "value", "%s gives %s, expected %s", what, want.k == INT ? dec(got.AsInt()).c_str() : want.k == UNS ? dec((W)got.AsUnsigned()).c_str() : mc::fmt("%.21Lg", got.AsLongDouble()).c_str(), show(want).c_str());
}

// 1: result in out; 0: must be an error; -1: not settled
static int compute(char op, const Num &a, const Num &b, Num &o) {
	o.k = std::max(a.k, b.k);
	if (o.k == FLT) {
		long double x = ld(a), y = ld(b);
		switch (op) { case '+': o.f = x + y; break; case '-': o.f = x - y; break; case '*': o.f = x * y; break; case '/': o.f = x / y; break; default: o.f = fmodl(x, y); }
		return 1;
	}
	if (op == '/' || op == '%') {
		if (b.i == 0) return 0;
		if (!fits(o.k, a.i) || !fits(o.k, b.i)) return -1;
		o.i = op == '/' ? a.i / b.i : a.i % b.i;
	} else if (op == '*') { if (__builtin_mul_overflow(a.i, b.i, &o.i)) return -1; }
	else o.i = op == '+' ? a.i + b.i : a.i - b.i;
	return fits(o.k, o.i) ? 1 : -1;
}
static void apply(char op, Variant &x, const Variant &y) {
	switch (op) { case '+': x += y; break; case '-': x -= y; break; case '*': x *= y; break; case '/': x /= y; break; default: x %= y; }
}
static Variant binary(char op, const Variant &x, const Variant &y) {
	switch (op) { case '+': return x + y; case '-': return x - y; case '*': return x * y; case '/': return x / y; default: return x % y; }
}
// A signed overflow has no defined result in the language; leave it out.
static bool undefined(char op, const Num &a, const Num &b) {
	if (a.k != INT || b.k != INT || op == '/' || op == '%') return false;
	W v = op == '+' ? a.i + b.i : op == '-' ? a.i - b.i : a.i * b.i;
	return !fits(INT, v);
}

template<class T> static void as(mc::Run &r, const Variant &x, const Num &n, const char *name) {
	W t = n.k == FLT ? 0 : n.i;
	if (n.k == FLT) { if (!(fabsl(n.f) < 1e25L)) return; t = (W)n.f; }
	if (t < (W)std::numeric_limits<T>::min() || t > (W)std::numeric_limits<T>::max()) return;
	T g = x.As<T>();
	r.check((W)g == t, "as", "As<%s> of %s gives %s", name, show(n).c_str(), dec((W)g).c_str());
	T h = variant_cast<T>(x);
	r.check((W)h == t, "as", "variant_cast<%s> of %s gives %s", name, show(n).c_str(), dec((W)h).c_str());
}

static bool ref_bool(const std::string &s) {
	size_t b = s.find_first_not_of(" \t\n\v\f\r"), e = s.find_last_not_of(" \t\n\v\f\r");
	if (b == std::string::npos) return true;
	std::string t = s.substr(b, e - b + 1);
	for (auto &c : t) c = tolower((unsigned char)c);
	if (t.find_first_not_of('0') == std::string::npos) return false;
	return !(std::string("no").compare(0, t.size(), t) == 0 || std::string("false").compare(0, t.size(), t) == 0);
}

static std::vector<Variant> others() {
	Variant l, m; l.Append(1); m["a"] = 1;
	return {Variant(), Variant(true), Variant("1"), Variant("x"), Variant(""), Variant(Variant::ListType), Variant(Variant::MapType), l, m, Variant(Blob::CreateCopy("1", 1))};
}
template<class F> static bool throws(F f) { try { f(); } catch (std::exception &) { return true; } return false; }

int main(int argc, char **argv) {
	fill();
	mc::Check c;
	c.prop = "P15"; c.level = "model_checking";
	c.rule = "results have the kind and exact value computed with 128 bit integers or long double, errors occur exactly where claimed and change nothing, nothing crashes";
	c.assumptions = {"results that the wider kind cannot hold, and operands of division that it cannot hold, are not claimed", "signed overflow of +, -, *, ++, -- and negation is left out as undefined in the language",
		"conversions of values the target cannot represent are not claimed", "text after a leading number is not claimed to be refused"};
	c.spaces.push_back({"arithmetic", mc::fmt("every ordered pair of %zu numbers (thorough %zu), five operators, as operator, as assignment, through references, on elements", QUICK, NUMS.size()), [](mc::Run &r) {
		size_t n = r.thorough ? NUMS.size() : QUICK;
		const Num &a = NUMS[r.choose(n)];
		char op = "+-*/%"[r.choose(5)];
		for (size_t j = 0; j < n; ++j) {
			const Num &b = NUMS[j];
			if (undefined(op, a, b)) continue;
			r.note("%s %c %s", show(a).c_str(), op, show(b).c_str());
			Num want;
			int w = compute(op, a, b, want);
			for (int form = 0; form < 5; ++form) {
				Variant x = make(a), y = make(b), l, res;
				bool threw = false;
				try {
					if (form == 0) res = binary(op, x, y);
					else if (form == 1) { Variant z = x; apply(op, z, y); res = z; }
					else if (form == 2) { l.Append(x); l.Append(y); VariantRef p = l[0u]; apply(op, p, l[1u]); res = l[0u]; }
					else if (form == 3) { l["k"] = y; VariantRef q = l["k"]; res = binary(op, x, q); }
					else { if (!(a.k == b.k && a.i == b.i && (a.k != FLT || a.f == b.f))) continue; Variant z = x; apply(op, z, z); res = z; }
				} catch (std::exception &) { threw = true; }
				if (w == 0) r.check(threw, "no-error", "form %d raises no error", form);
				else if (w == 1) r.check(!threw, "error", "form %d raises an error", form);
				if (w == 1) expect(r, res, want, mc::fmt("form %d", form).c_str());
				expect(r, x, a, "left operand afterwards");
				expect(r, y, b, "right operand afterwards");
				r.step(1);
			}
			r.outcome(mc::fmt("%c%d%d%d", op, (int)a.k, (int)b.k, w));
		}
		r.state(mc::hash(show(a) + op));
	}, 2, false});
	c.spaces.push_back({"unary", "increment, decrement, negation, plus and assignment of every number", [](mc::Run &r) {
		const Num &a = NUMS[r.choose(NUMS.size())];
		r.note("%s", show(a).c_str());
		auto to = [&](W d, long double f) { Num o = a; o.i = d; o.f = f; return o; };
		Variant x = make(a);
		expect(r, x, a, "the value");
		expect(r, +x, a, "unary plus");
		Variant cp = x.Copy(); expect(r, cp, a, "a copy");
		if (a.k == FLT) {
			expect(r, -x, to(0, -a.f), "negation");
			Variant y = x; expect(r, ++y, to(0, a.f + 1), "pre-increment"); y = x; expect(r, --y, to(0, a.f - 1), "pre-decrement");
			y = x; expect(r, y++, a, "post-increment"); expect(r, y, to(0, a.f + 1), "post-incremented"); y = x; expect(r, y--, a, "post-decrement"); expect(r, y, to(0, a.f - 1), "post-decremented");
		} else {
			if (fits(a.k, -a.i)) expect(r, -x, to(-a.i, 0), "negation");
			if (fits(a.k, a.i + 1)) { Variant y = x; expect(r, ++y, to(a.i + 1, 0), "pre-increment"); y = x; expect(r, y++, a, "post-increment"); expect(r, y, to(a.i + 1, 0), "post-incremented"); }
			if (fits(a.k, a.i - 1)) { Variant y = x; expect(r, --y, to(a.i - 1, 0), "pre-decrement"); y = x; expect(r, y--, a, "post-decrement"); expect(r, y, to(a.i - 1, 0), "post-decremented"); }
			Variant l; l.Append(x);
			VariantRef q = l[0u];
			if (fits(a.k, a.i + 1)) { ++q; expect(r, l[0u], to(a.i + 1, 0), "increment through a reference"); }
		}
		expect(r, x, a, "the operand afterwards");
		r.step(8); r.state(mc::hash(show(a))); r.outcome(show(a));
	}, 1, false});
	c.spaces.push_back({"conversions", "every number read as every type", [](mc::Run &r) {
		const Num &a = NUMS[r.choose(NUMS.size())];
		r.note("%s", show(a).c_str());
		Variant x = make(a), l; l.Append(x);
		VariantRef q = l[0u];
		for (int form = 0; form < 2; ++form) {
			const Variant &p = form ? (const Variant &)q : x;
			as<char>(r, p, a, "char"); as<signed char>(r, p, a, "signed char"); as<unsigned char>(r, p, a, "unsigned char");
			as<short>(r, p, a, "short"); as<unsigned short>(r, p, a, "unsigned short"); as<int>(r, p, a, "int"); as<unsigned>(r, p, a, "unsigned");
			as<long>(r, p, a, "long"); as<unsigned long>(r, p, a, "unsigned long"); as<long long>(r, p, a, "long long"); as<unsigned long long>(r, p, a, "unsigned long long");
			W t = a.k == FLT ? (fabsl(a.f) < 1e25L ? (W)a.f : (W)1 << 100) : a.i;
			if (fits(INT, t)) r.check((W)p.AsInt() == t, "int", "AsInt gives %s", dec(p.AsInt()).c_str());
			if (fits(UNS, t)) r.check((W)p.AsUnsigned() == t, "unsigned", "AsUnsigned gives %s", dec((W)p.AsUnsigned()).c_str());
			r.check(p.AsLongDouble() == ld(a) && p.As<long double>() == ld(a), "float", "AsLongDouble gives %.21Lg", p.AsLongDouble());
			r.check(p.AsDouble() == (double)ld(a) && p.As<double>() == (double)ld(a), "float", "AsDouble gives %.17g", p.AsDouble());
			if ((long double)(float)ld(a) == ld(a)) r.check(p.As<float>() == (float)ld(a), "float", "As<float> gives %.9g", p.As<float>());
			r.check(p.AsBool() == (ld(a) != 0) && p.As<bool>() == (ld(a) != 0), "bool", "AsBool gives %d", p.AsBool());
			if (t >= INT32_MIN && t <= INT32_MAX) r.check(p.AsNumber<int>() == (int)t, "number", "AsNumber<int> gives %d", p.AsNumber<int>());
			std::string s = p.AsString();
			if (a.k != FLT) r.check(s == dec(a.i), "text", "AsString gives %s", s.c_str());
			else if (std::isfinite(a.f) && fabsl(a.f) < 1e4900L) {
				char *e;
				long double v = strtold(s.c_str(), &e);
				r.check(!*e && fabsl(v - a.f) <= fabsl(a.f) * 5.0001e-6L, "text", "AsString gives %s", s.c_str());
			}
			std::complex<double> z = p.As<std::complex<double>>();
			r.check(z.real() == (double)ld(a) && z.imag() == 0, "complex", "As<complex> gives (%g,%g)", z.real(), z.imag());
			if (fits(INT, t)) {
				std::vector<long> v = l.As<std::vector<long>>();
				r.check(v.size() == 1 && v[0] == (long)t, "vector", "As<vector<long>> gives %zu elements", v.size());
			}
			// text of the number read back
			if (a.k != FLT) {
				Variant y(dec(a.i));
				if (fits(INT, a.i)) r.check((W)y.AsInt() == a.i, "read", "the text read with AsInt gives %s", dec(y.AsInt()).c_str());
				if (fits(UNS, a.i)) r.check((W)y.AsUnsigned() == a.i, "read", "the text read with AsUnsigned gives %s", dec((W)y.AsUnsigned()).c_str());
				else if (a.i > 0) r.check(throws([&] { y.AsUnsigned(); }), "read", "the text read with AsUnsigned raises no error");
				if (!fits(INT, a.i)) r.check(throws([&] { y.AsInt(); }), "read", "the text read with AsInt raises no error");
				r.check(y.AsLongDouble() == ld(a), "read", "the text read with AsLongDouble gives %.21Lg", y.AsLongDouble());
			} else if (std::isfinite(a.f)) {
				std::string t = mc::fmt("%.21Lg", a.f);
				r.check(Variant(t).AsLongDouble() == a.f, "read", "the text %s gives %.21Lg", t.c_str(), Variant(t).AsLongDouble());
			}
		}
		r.step(40); r.state(mc::hash(show(a))); r.outcome(show(a));
	}, 1, false});
	c.spaces.push_back({"texts", "every text up to 5 characters (thorough 7) over letters of no and false, digits and blanks, read as a boolean", [](mc::Run &r) {
		static const std::vector<std::string> A = {"n", "o", "f", "a", "l", "s", "e", "0", "1", " ", "F", "O", "\t"};
		std::string t;
		int max = r.thorough ? 7 : 5;
		for (int i = 0; i < max; ++i) { int k = r.choose(A.size() + 1); if (!k) break; t += A[k - 1]; }
		r.note("%s", mc::q(t).c_str());
		bool got = Variant(t).AsBool(), want = ref_bool(t);
		r.step(1); r.state(mc::hash(t)); r.outcome(got ? "true" : "false");
		r.check(got == want, "bool", "read as %d", got);
	}, 2, false});
	c.spaces.push_back({"number-texts", "every text up to 5 characters (thorough 6) over digits, sign, point, exponent, letters and blanks, read as a number", [](mc::Run &r) {
		static const std::vector<std::string> A = {"1", "0", "9", "-", "+", ".", "e", "x", " ", "a"};
		std::string t;
		int max = r.thorough ? 6 : 5;
		for (int i = 0; i < max; ++i) { int k = r.choose(A.size() + 1); if (!k) break; t += A[k - 1]; }
		r.note("%s", mc::q(t).c_str());
		Variant v(t);
		// plain decimal integer, plain decimal float, or nothing numeric at the start
		size_t b = t.find_first_not_of(" "), i = b == std::string::npos ? t.size() : b;
		size_t d = i; if (d < t.size() && (t[d] == '-' || t[d] == '+')) ++d;
		size_t e = t.find_first_not_of("0123456789", d); if (e == std::string::npos) e = t.size();
		bool integer = e == t.size() && e > d && (t.size() < d + 2 || t[d] != '0');
		bool none = d == t.size() || !(isdigit(t[d]) || t[d] == '.' || t[d] == 'e');
		bool ti, tu, tf; long long gi = 0; unsigned long long gu = 0; long double gf = 0;
		ti = throws([&] { gi = v.AsInt(); }); tu = throws([&] { gu = v.AsUnsigned(); }); tf = throws([&] { gf = v.AsLongDouble(); });
		r.step(3); r.state(mc::hash(t)); r.outcome(mc::fmt("%d%d%d", ti, tu, tf));
		if (integer) {
			long long w = strtoll(t.c_str(), 0, 10);
			r.check(!ti && gi == w, "int", "AsInt gives %lld%s", gi, ti ? " (error)" : "");
			if (t[i] != '-') r.check(!tu && gu == (unsigned long long)w, "unsigned", "AsUnsigned gives %llu%s", gu, tu ? " (error)" : "");
			r.check(!tf && gf == (long double)w, "float", "AsLongDouble gives %Lg%s", gf, tf ? " (error)" : "");
		} else if (none) r.check(ti && tu && tf, "accepted", "read as a number: %lld %llu %Lg", gi, gu, gf);
		else { char *end; long double w = strtold(t.c_str(), &end); if (!*end && t.find('x') == std::string::npos) r.check(!tf && gf == w, "float", "AsLongDouble gives %.21Lg%s, expected %.21Lg", gf, tf ? " (error)" : "", w); }
	}, 2, false});
	c.spaces.push_back({"kinds", "every operation and conversion on values that are not numbers, alone and mixed with numbers", [](mc::Run &r) {
		std::vector<Variant> O = others();
		int i = r.choose(O.size()), j = r.choose(O.size() + 3), op = r.choose(6);
		Variant x = O[i], n = j < (int)O.size() ? O[j] : j == (int)O.size() ? Variant(1) : j == (int)O.size() + 1 ? Variant(1u) : Variant(1.5);
		Variant x0 = x, n0 = n;
		r.note("value %d, value %d, operation %d", i, j, op);
		if (op < 5) {
			char o = "+-*/%"[op];
			r.check(throws([&] { apply(o, x, n); }), "no-error", "value %d %c value %d raises no error", i, o, j);
			r.check(throws([&] { apply(o, n, x); }), "no-error", "value %d %c value %d raises no error", j, o, i);
			r.check(throws([&] { binary(o, x, n); }), "no-error", "value %d %c value %d raises no error", i, o, j);
		} else {
			r.check(throws([&] { ++x; }) && throws([&] { --x; }) && throws([&] { -x; }), "no-error", "increment, decrement or negation of value %d raises no error", i);
			bool scalar = i < 5;
			r.check(throws([&] { x.AsString(); }) == !scalar, "convert", "AsString of value %d", i);
			r.check(throws([&] { x.AsBool(); }) == !scalar, "convert", "AsBool of value %d", i);
			r.check(throws([&] { x.AsInt(); }) == !(i < 3), "convert", "AsInt of value %d", i);
			r.check(throws([&] { x.AsUnsigned(); }) == !(i < 3), "convert", "AsUnsigned of value %d", i);
			r.check(throws([&] { x.AsLongDouble(); }) == !(i < 3), "convert", "AsLongDouble of value %d", i);
			if (i == 0) r.check(!x.AsBool() && x.AsInt() == 0 && x.AsUnsigned() == 0 && x.AsLongDouble() == 0 && x.AsString() == "", "null", "null converts to something");
			if (i == 1) { Variant f(false); r.check(x.AsBool() && x.AsInt() == 1 && x.AsUnsigned() == 1 && x.AsLongDouble() == 1 && x.AsString() == "true" && !f.AsBool() && f.AsInt() == 0 && f.AsUnsigned() == 0 && f.AsLongDouble() == 0 && f.AsString() == "false", "bool", "boolean converts wrongly"); }
			const Variant &cx = x;
			r.check(throws([&] { cx.AsList(); }) == !x.IsList() && throws([&] { cx.AsMap(); }) == !x.IsMap() && throws([&] { cx.AsBlob(); }) == !x.IsBlob(), "container", "wrong container access on value %d", i);
		}
		r.check(x == x0 && x.GetType() == x0.GetType() && n == n0 && n.GetType() == n0.GetType(), "changed", "a failed operation changed its operand");
		r.step(1); r.state(i * 1000 + j * 10 + op); r.outcome(mc::fmt("%d", i));
	}, 1, true});
	return mc::run(argc, argv, c);
}
