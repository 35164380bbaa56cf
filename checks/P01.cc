// P01: JSON output is valid RFC 8259 text and reading it gives the value back.
#include "ref.hpp"
using namespace libvariant;
using ref::V;

static const char *STYLES[] = {"compact", "pretty", "pretty indent 0", "pretty indent 1", "pretty indent 50", "strict"};
static Variant params(int s) {
	Variant p = Variant::MapType;
	if (s == 5) { p.Set("strict", true); return p; }
	p.Set("pretty", s > 0);
	if (s >= 2) p.Set("indent", s == 2 ? 0 : s == 3 ? 1 : 50);
	return p;
}

// What the text must say, as plain JSON.
static V as_json(const V &v) {
	V r = v;
	if (v.k == V::Blob) return V::str(std::string("\0BLOB", 5) + ref::b64(v.s));
	if (v.k == V::Flt && !std::isfinite(v.f)) return V::null();
	for (auto &x : r.l) x = as_json(x);
	for (auto &x : r.m) x.second = as_json(x.second);
	return r;
}
// What reading it back must give.
static V readback(const V &v) {
	V r = v;
	if (v.k == V::Flt && !std::isfinite(v.f)) return V::null();
	for (auto &x : r.l) x = readback(x);
	for (auto &x : r.m) x.second = readback(x.second);
	return r;
}
static bool all_utf8(const V &v) {
	if (v.k == V::Str && !ref::utf8(v.s)) return false;
	for (auto &x : v.l) if (!all_utf8(x)) return false;
	for (auto &x : v.m) if (!ref::utf8(x.first) || !all_utf8(x.second)) return false;
	return true;
}

static void round(mc::Run &r, const V &v, int style) {
	r.note("%s %s", STYLES[style], ref::show(v).substr(0, 300).c_str());
	std::string text = Serialize(ref::to(v), SERIALIZE_JSON, params(style));
	r.step();
	if (all_utf8(v)) {
		V t;
		ref::Json j(text);
		bool ok = j.document(t);
		r.check(ok, "not-json", "output is not RFC 8259 JSON (at byte %zu): %s", j.p, mc::q(text.substr(0, 600)).c_str());
		r.check(ref::same(t, as_json(v)), "text-says-other", "output %s says %s", mc::q(text.substr(0, 400)).c_str(), ref::show(t).substr(0, 400).c_str());
	}
	V back;
	try { back = ref::from(Deserialize(text, SERIALIZE_JSON)); }
	catch (std::exception &e) { r.fail("not-readable", "own output %s not accepted: %s", mc::q(text.substr(0, 600)).c_str(), e.what()); }
	r.step();
	r.check(ref::same(back, readback(v)), "round-trip", "%s came back as %s (text %s)", ref::show(v).substr(0, 500).c_str(), ref::show(back).substr(0, 500).c_str(), mc::q(text.substr(0, 500)).c_str());
	r.state(mc::hash(text));
	r.outcome(ref::show(back));
}

static V wrap(int form, const V &x) {
	switch (form) {
	case 0: return V::list({x});
	case 1: return V::map({{"k", x}});
	case 2: return V::list({V::integer(1), x, V::list({x}), V::null()});
	default: return V::map({{"a", x}, {"b", V::map({{"c", x}})}});
	}
}

int main(int argc, char **argv) {
	mc::Check c;
	c.prop = "P01"; c.level = "model_checking";
	c.rule = "every value enumerated is serialized by the real emitter, the text is read by an independent RFC 8259 reader and by the real parser, and both readings are compared with the value";
	c.assumptions = {"strings that start with the reserved blob marker (NUL 'BLOB') are outside the property", "RFC 8259 validity is only required when every string is valid UTF-8; the round trip is required for all byte strings"};

	c.spaces.push_back({"bytes", "all byte strings of length 0, 1 and 2, as list element and as map key, in a compact document", [](mc::Run &r) {
		int b0 = r.choose(257);
		std::string s;
		if (b0) { s += (char)(b0 - 1); int b1 = r.choose(257); if (b1) s += (char)(b1 - 1); }
		bool key = r.flip();
		round(r, key ? V::map({{s, V::str(s)}}) : V::list({V::str(s)}), 0);
	}, 1, false});
	c.spaces.push_back({"words", "all strings of length up to 4 (thorough 5) over the characters that the syntax treats specially, as value and key", [](mc::Run &r) {
		static const std::string A("\"\\/\n\x00u01 ,:{\xc3\xa9\x7f", 16);
		std::string s;
		int n = r.choose(r.thorough ? 6 : 5);
		for (int i = 0; i < n; ++i) s += A[r.choose((int)A.size())];
		round(r, V::map({{s, V::list({V::str(s)})}}), 0);
	}, 3, false});
	c.spaces.push_back({"codepoints", "every Unicode scalar value U+0000..U+10FFFF, alone between two letters, in batches of 128 values per document", [](mc::Run &r) {
		int b = r.choose(0x110000 / 128);
		V v = V::list();
		for (int i = 0; i < 128; ++i) {
			unsigned cp = b * 128 + i;
			if (cp >= 0xd800 && cp <= 0xdfff) continue;
			std::string s = "a"; ref::put_utf8(s, cp); s += "b";
			v.l.push_back(V::str(s));
		}
		round(r, v, 0);
	}, 1, false});
	c.spaces.push_back({"integers", "+-(2^k + d) for k in 0..64, d in -2..2, and +-10^k + d, as signed and as unsigned integers, in four surroundings", [](mc::Run &r) {
		int form = r.choose(4);
		int k = r.choose(84);
		unsigned __int128 base = 1;
		if (k < 64) base <<= k; else for (int i = 0; i < k - 64; ++i) base *= 10;
		uintmax_t u = (uintmax_t)base + (uintmax_t)(r.choose(5) - 2);
		V v;
		switch (r.choose(3)) {
		case 0: v = V::uinteger(u); break;
		case 1: v = V::integer((intmax_t)u); break;
		default: v = V::integer((intmax_t)(0 - u)); break;
		}
		round(r, wrap(form, v), 0);
	}, 2, false});
	c.spaces.push_back({"doubles", "every binary exponent (0..2047) x both signs x 12 mantissa patterns, and d*10^e for d in 1..99, e in -30..30; 8 values per document", [](mc::Run &r) {
		static const uint64_t M[] = {0, 1, 2, 0xfffffffffffffull, 0xffffffffffffeull, 0x8000000000000ull, 0x8000000000001ull, 0x7ffffffffffffull, 0x5555555555555ull, 0xaaaaaaaaaaaaaull, 0x123456789abcdull, 0x4000000000000ull};
		V v = V::list();
		int e = r.choose(2048 + 61);
		if (e < 2048) {
			int m = r.choose(3), neg = r.choose(2);
			for (int i = 0; i < 4; ++i) {
				uint64_t x = (uint64_t)neg << 63 | (uint64_t)e << 52 | M[m * 4 + i];
				double d; memcpy(&d, &x, 8);
				v.l.push_back(V::flt(d));
			}
		} else {
			int d = r.choose(13);
			for (int i = 0; i < 8; ++i) {
				double x = strtod(mc::fmt("%de%d", d * 8 + i, e - 2048 - 30).c_str(), 0);
				v.l.push_back(V::flt(x)); v.l.push_back(V::flt(-x));
			}
		}
		round(r, v, 0);
	}, 1, false});
	c.spaces.push_back({"trees", "all trees of at most 5 (thorough 6) nodes, depth 3, over 8 leaves and 3 keys, in 6 output styles; each execution must not leak", [](mc::Run &r) {
		ref::TreeGen g;
		g.leaves = {V::null(), V::boolean(true), V::boolean(false), V::integer(-7), V::uinteger(UINTMAX_MAX), V::flt(2.5), V::str("x\"\n"), V::blob("bl")};
		g.keys = {"", "a", "b\\"};
		int style = r.choose(6), n = r.thorough ? 6 : 4;
		if (style == 5) g.leaves.pop_back();      // no blobs in strict mode
		V v = g.gen(r, n, 3, true);
		round(r, v, style);
	}, 4, true});
	c.spaces.push_back({"emit-buffer", "element of 120..136, 250..262, 380..390 or 505..520 bytes after 0..530 buffered bytes, with the special character first, last or absent, compact and pretty", [](mc::Run &r) {
		static const int L[] = {120, 124, 125, 126, 127, 128, 129, 130, 131, 250, 256, 380, 384, 505, 510, 511, 512, 513, 514, 520};
		int pre = r.choose(r.thorough ? 1060 : 532);
		int len = L[r.choose(20)];
		int kind = r.choose(4);
		std::string s(len, 'x');
		if (kind == 1) s[0] = '\n'; else if (kind == 2) s[len - 1] = '\x01'; else if (kind == 3) s[len / 2] = '"';
		int style = pre % 3;
		round(r, V::list({V::str(std::string(pre, 'p')), kind == 3 ? V::blob(s) : V::str(s), V::str("t")}), style);
	}, 1, false});
	c.spaces.push_back({"long-tokens", "strings, keys and digit-heavy lists around the sizes where the reader's buffers grow (3500, 7000, 8192, 14000, 65536), ending in plain, escaped and multi-byte characters", [](mc::Run &r) {
		static const int S[] = {3500, 7000, 8192, 14000, 28000, 65536};
		static const char *T[] = {"z", "\n", "\xc3\xa9", "\xf0\x9f\x98\x80", "\x02", "\\"};
		int base = S[r.choose(r.thorough ? 6 : 4)];
		int d = r.choose(r.thorough ? 64 : 28);
		std::string s(base - (r.thorough ? 40 : 20) + d, 'q');
		s += T[r.choose(6)];
		int form = r.choose(3);
		V v = form == 0 ? V::list({V::str(s)}) : form == 1 ? V::map({{s, V::integer(1)}}) : V::list({V::str(s), V::flt(1.5), V::str(s.substr(s.size() / 2))});
		round(r, v, form);
	}, 3, false});
	c.spaces.push_back({"depth", "nesting depth 1..200 (thorough 1..600) of lists, maps and alternations, compact and pretty", [](mc::Run &r) {
		int d = 1 + r.choose(r.thorough ? 600 : 200);
		int kind = r.choose(3), style = r.choose(2);
		V v = V::integer(d);
		for (int i = 0; i < d; ++i) v = (kind == 0 || (kind == 2 && i % 2)) ? V::list({v}) : V::map({{"k", v}});
		round(r, v, style ? 3 : 0);
	}, 1, false});
	c.spaces.push_back({"wide", "lists and maps of 0..300 (thorough 0..1200) elements", [](mc::Run &r) {
		int n = r.choose(r.thorough ? 1201 : 301), map = r.choose(2), style = r.choose(2);
		V v = map ? V::map() : V::list();
		for (int i = 0; i < n; ++i) { V x = i % 3 == 0 ? V::integer(i) : i % 3 == 1 ? V::str(mc::fmt("s%d", i)) : V::flt(i + .5); if (map) v.m[mc::fmt("k%03d", i)] = x; else v.l.push_back(x); }
		round(r, v, style);
	}, 1, false});
	c.spaces.push_back({"blobs", "blobs of 0..130 (thorough 0..700) bytes, cut into one to three buffers at every position mod 4, contents covering all byte values", [](mc::Run &r) {
		int n = r.choose(r.thorough ? 701 : 131);
		int cut1 = r.choose(4), cut2 = r.choose(4), start = r.choose(4) * 64;
		std::string s; for (int i = 0; i < n; ++i) s += (char)(start + i * 3);
		int a = std::min(n, cut1), b = std::min(n, a + cut2);
		std::string p0 = s.substr(0, a), p1 = s.substr(a, b - a), p2 = s.substr(b);
		iovec iov[3] = {{&p0[0], p0.size()}, {&p1[0], p1.size()}, {&p2[0], p2.size()}};
		Variant x = Variant::ListType;
		x.Append(Variant(Blob::CreateReferenced(iov, 3)));
		r.note("blob of %d bytes cut at %d, %d", n, a, b);
		std::string text = Serialize(x, SERIALIZE_JSON);
		V t;
		r.check(ref::json(text, t) && ref::same(t, as_json(V::list({V::blob(s)}))), "blob-text", "text is %s", mc::q(text).c_str());
		V back = ref::from(Deserialize(text, SERIALIZE_JSON));
		r.check(ref::same(back, V::list({V::blob(s)})), "blob-round-trip", "came back as %s", ref::show(back).c_str());
		r.step(2); r.state(text); r.outcome(ref::show(back));
	}, 1, true});
	return mc::run(argc, argv, c);
}
