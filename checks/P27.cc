// P27: plain text is typed, and the format of a document guessed, by the stated rules.
#include "argdecl.hpp"
#include "guess.hpp"
#include "values.hpp"
#include <Variant/GuessFormat.h>
#include <Variant/Parser.h>
#include <Variant/ParserInput.h>
#include <sstream>
using namespace libvariant;
using ref::V;

enum { BUNDLE, BUNDLE_LIST, YAML_VALUE, YAML_FLOW, YAML_ROOT, ARGUMENT, OPTION, CONTEXTS };
static const char *CTX[] = {"bundle header value", "bundle header list", "YAML value", "YAML flow sequence", "YAML document", "argument", "option"};
static bool fits(int c, const std::string &t) {
	if (t.find('\0') != std::string::npos) return c == BUNDLE || c == BUNDLE_LIST;
	if (c == BUNDLE || c == BUNDLE_LIST) return t.find_first_of("\n#|") == std::string::npos;
	if (c == ARGUMENT) return true;
	if (c == OPTION) return true;
	// what YAML takes for a plain scalar on one line
	std::string s = ref::trim(t);
	if (s.empty() || t.find_first_of("\n\t\r\v\f") != std::string::npos || s.find_first_of(":#,[]{}&*!|>'\"%@`?") != std::string::npos) return false;
	if (s[0] == '-' && (s.size() == 1 || s[1] == ' ')) return false;
	return c != YAML_ROOT || (s.compare(0, 3, "---") && s.compare(0, 3, "..."));
}
static V read_as(mc::Run &r, int c, const std::string &t) {
	try {
		Variant v;
		switch (c) {
		case BUNDLE: v = Deserialize("k: " + t + "\n", SERIALIZE_BUNDLEHDR); break;
		case BUNDLE_LIST: v = Deserialize("k: x|" + t + "|y\n", SERIALIZE_BUNDLEHDR); break;
		case YAML_VALUE: v = Deserialize("k: " + t + "\n", SERIALIZE_YAML); break;
		case YAML_FLOW: v = Deserialize("[ " + t + " ]", SERIALIZE_YAML); break;
		case YAML_ROOT: return ref::from(Deserialize(t, SERIALIZE_YAML));
		default: {
			static std::unique_ptr<ArgParse> a;
			if (!a) { a.reset(new ArgParse("prog")); a->AddOption("o", 'o', "opt"); a->AddArgument("k").MinArgs(0).MaxArgs(1); }
			Outcome o = c == OPTION ? parse(*a, {"--opt=" + t}, Env(), 0) : parse(*a, {"--", t}, Env(), 0);
			if (o.kind != Outcome::RESULT) r.fail("error", "the command line is refused");
			return o.v.m[c == OPTION ? "o" : "k"];
		}
		}
		V x = ref::from(v);
		if (c == BUNDLE_LIST) return x.m["k"].l.size() == 3 ? x.m["k"].l[1] : x;
		return c == YAML_FLOW ? (x.l.size() == 1 ? x.l[0] : x) : x.m["k"];
	} catch (const mc::Violation &) { throw; }
	catch (const std::exception &e) { r.fail("error", "%s: %s", CTX[c], e.what()); }
	return V();
}
static void judge(mc::Run &r, int c, const std::string &t) {
	if (!fits(c, t) || !r.fresh()) return;
	r.note("%s %s", CTX[c], mc::q(t).c_str());
	// blanks around the text do not belong to it, except where the text is delivered whole
	bool whole = c == ARGUMENT || c == OPTION || c == BUNDLE_LIST;
	V want = ref::guess(whole ? t : ref::trim(t)), got = read_as(r, c, t);
	r.step(1);
	r.check(ref::same(got, want) && (got.k == V::Str) == (want.k == V::Str) && (got.k == V::Flt) == (want.k == V::Flt), "scalar", "%s reads as %s, not %s", mc::q(t).c_str(), ref::show(got).c_str(), ref::show(want).c_str());
	r.state(mc::hash(ref::show(got))); r.outcome(mc::fmt("%d", got.k));
}

// every short text over the characters of numbers
static void numbers(mc::Run &r) {
	static const char A[] = "0179+-.eExoaf ";
	int c = r.choose(4), n = r.choose(r.thorough ? 7 : 6);
	std::string t;
	for (int i = 0; i < n; ++i) t += A[r.choose(14)];
	judge(r, c, t);
}
static void arguments(mc::Run &r) {
	static const char A[] = "019+-.eExof~\n\t \xc3";
	int c = ARGUMENT + r.choose(2), n = r.choose(r.thorough ? 6 : 5);
	std::string t;
	for (int i = 0; i < n; ++i) t += A[r.choose(16)];
	judge(r, c, t);
}
// words in every case, with something before, after or between
static void words(mc::Run &r) {
	static const char *W[] = {"null", "~", "true", "false", ".inf", ".nan", "yes", "no", "on", "off", "y", "n", "nil", "none", "inf", "nan", "infinity", "0o", "0x", "0b1"};
	static const std::vector<std::string> X = {"", " ", "x", "+", "-", ".", "\t", "0", "\xc2\xa0", "\n", "~", "null"};
	int c = r.choose(CONTEXTS);
	std::string t = W[r.choose(20)];
	for (char &ch : t) if (isalpha(ch) && t.size() <= 5) { if (r.choose(2)) ch = toupper(ch); }
	int at = r.choose(3);
	const std::string &x = r.pick(X);
	if (at == 1) t += x; else if (at == 0) t = x + t; else t.insert(t.size() / 2, x);
	if (at != 0 && x.empty()) return;
	judge(r, c, t);
}
static void integers(mc::Run &r) {
	int c = r.choose(CONTEXTS), base = r.choose(3), k = r.choose(68), d = r.choose(7), zeros = r.choose(4), sign = r.choose(3), upper = r.choose(2);
	if (base != 2 && upper) return;
	if (base != 0 && sign) return;          // signs are for decimal numbers; see numbers
	unsigned __int128 v = (unsigned __int128)1 << k;
	if (d - 3 < 0 && v < 3) return;
	v += d - 3;
	std::string s;
	static const unsigned BASE[] = {10, 8, 16};
	const char *digits = upper ? "0123456789ABCDEF" : "0123456789abcdef";
	unsigned __int128 x = v, b = BASE[base];
	do { unsigned n = (unsigned)(x % b); s.insert(s.begin(), digits[n]); x /= b; } while (x);
	static const int Z[] = {0, 1, 8, 40};
	s = std::string(base == 0 ? "" : base == 1 ? "0o" : "0x") + std::string(Z[zeros], '0') + s;
	judge(r, c, (sign == 1 ? "-" : sign == 2 ? "+" : "") + s);
}
// a double written with enough digits is read exactly
static void doubles(mc::Run &r) {
	int c = r.choose(2) ? YAML_VALUE : BUNDLE, form = r.choose(3);
	V l = gen::doubles(r, true);
	if (!r.fresh()) return;
	for (auto &x : l.l) {
		static const char *FM[] = {"%.17g", "%.16e", "%.20E"};
		std::string t = mc::fmt(FM[form], x.f);
		if (t.find_first_of(".eE") == std::string::npos) t += ".";
		r.note("%s %s", CTX[c], t.c_str());
		V got = read_as(r, c, t);
		r.step(1);
		r.check(got.k == V::Flt && got.f == x.f && std::signbit(got.f) == std::signbit(x.f), "double", "%s reads as %s", t.c_str(), ref::show(got).c_str());
		r.state(mc::hash(t));
	}
}
// the type of one scalar does not depend on those before it
static void sequences(mc::Run &r) {
	static const std::vector<std::string> T = {"1", "-1", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "0xffffffffffffffff", "0x10000000000000000", "0o7", "1e400", "-1e400", "1e-400", "0.5", ".inf", "-.inf", ".nan", "null", "true", "x", "1x", "08"};
	int c = r.choose(2), n = r.thorough ? 4 : 3;
	std::string s;
	std::vector<V> want;
	for (int i = 0; i < n; ++i) { const std::string &t = r.pick(T); want.push_back(ref::guess(t)); s += c ? "- " + t + "\n" : mc::fmt("%d: ", i) + t + "\n"; }
	if (!r.fresh()) return;
	r.note("%s", mc::q(s).c_str());
	V got = ref::from(Deserialize(s, c ? SERIALIZE_YAML : SERIALIZE_BUNDLEHDR));
	r.step(1);
	for (int i = 0; i < n; ++i) {
		V g = c ? got.l.at(i) : got.m[mc::fmt("%d", i)];
		r.check(ref::same(g, want[i]) && (g.k == V::Flt) == (want[i].k == V::Flt), "sequence", "scalar %d is %s, not %s", i, ref::show(g).c_str(), ref::show(want[i]).c_str());
	}
	r.state(mc::hash(s));
}
// quoted, block and tagged scalars are strings
static void quoted(mc::Run &r) {
	static const char *T[] = {"1", "-1", "null", "~", "true", "False", "0x1f", "0o7", "1.5", ".inf", ".nan", "1e3", "x", "0", " 1", "1 "};
	std::string t = T[r.choose(16)], s, x = t;
	int how = r.choose(8), at = r.choose(3);
	switch (how) {
	case 0: s = "'" + t + "'"; break;
	case 1: s = "\"" + t + "\""; break;
	case 2: s = "|2-\n   " + t; x = " " + t; break;
	case 3: s = ">-\n  " + t; break;
	case 4: s = "!!str " + t; x = ref::trim(t); break;
	case 5: s = "! " + t; x = ref::trim(t); break;
	case 6: s = "!!str '" + t + "'"; break;
	default: s = "&a \"" + t + "\""; break;
	}
	if (how == 3 && t[0] == ' ') return;
	if (at == 1 && (how == 2 || how == 3)) return;
	s = at == 0 ? "k: " + s + "\n" : at == 1 ? "{k: " + s + "}" : "- k: " + s + "\n";
	if (at == 2 && how == 2) x = t[0] == ' ' ? t.substr(0) : t;
	if (at == 2 && (how == 2 || how == 3)) return;
	if (!r.fresh()) return;
	r.note("%s", mc::q(s).c_str());
	V got;
	try { got = ref::from(Deserialize(s, SERIALIZE_YAML)); } catch (const std::exception &e) { r.fail("error", "%s", e.what()); }
	if (at == 2) { V e = got.l.at(0); got = e; }
	r.step(1);
	r.check(got.m["k"].k == V::Str && got.m["k"].s == x, "quoted", "reads as %s, not the string %s", ref::show(got.m["k"]).c_str(), mc::q(x).c_str());
	r.state(mc::hash(s)); r.outcome(mc::fmt("%d", how));
}
// ---- the format of a document
struct Bytes : ParserStreamInput {
	std::string s; size_t p = 0, step;
	Bytes(const std::string &t, unsigned buf, size_t n) : ParserStreamInput(buf), s(t), step(n) {}
	unsigned Read(void *ptr, unsigned len) override { unsigned n = (unsigned)std::min<size_t>(std::min<size_t>(len, step), s.size() - p); memcpy(ptr, s.data() + p, n); p += n; return n; }
};
static shared_ptr<ParserInput> input(const std::string &s, int how) {
	switch (how) {
	case 0: return CreateParserInput(s.data(), (unsigned)s.size());
	case 1: return shared_ptr<ParserInput>(new Bytes(s, 8, 1));
	case 2: return shared_ptr<ParserInput>(new Bytes(s, 8, 100));
	default: return shared_ptr<ParserInput>(new Bytes(s, 4096, 7));
	}
}
static void guessed(mc::Run &r, const std::string &s, int how) {
	if (!r.fresh()) return;
	r.note("input %d text %s", how, mc::q(s.substr(0, 60)).c_str());
	size_t i = 0;
	while (i < s.size() && ref::space(s[i])) ++i;
	SerializeType want = i < s.size() && s[i] == '<' ? SERIALIZE_XMLPLIST : SERIALIZE_YAML;
	if (i < s.size()) {
		shared_ptr<ParserInput> in = input(s, how);
		SerializeType t = GuessFormat(in.get());
		r.check(t == want, "format", "the format is guessed as %d", t);
		// and nothing is lost
		std::string rest;
		for (;;) { unsigned n = 0; const char *p = (const char *)in->GetPtr(n); if (!p || !n) break; rest.append(p, n); in->Release(n); }
		r.check(rest == s, "consumed", "after guessing, the input holds %s", mc::q(rest.substr(0, 60)).c_str());
	}
	auto read = [&](SerializeType t) { std::string o; try { Parser p = CreateParser(input(s, how), t); o = ref::show(ref::from(ParseVariant(p))); } catch (const std::exception &) { o = "error"; } return o; };
	auto str = [&](SerializeType t) { std::string o; try { o = ref::show(ref::from(how == 0 ? Deserialize(s, t) : Deserialize(s.data(), (unsigned)s.size(), t))); } catch (const std::exception &) { o = "error"; } return o; };
	std::string a = read(SERIALIZE_GUESS), b = i < s.size() || s.empty() ? read(want) : "error", c = str(SERIALIZE_GUESS);
	r.step(3);
	r.check(a == b && c == b, "guess", "guessed %s and %s, named %s", a.c_str(), c.c_str(), b.c_str());
	r.outcome(want == SERIALIZE_YAML ? "YAML" : "XML"); r.state(mc::hash(a));
}
static void formats(mc::Run &r) {
	static const std::vector<std::string> D = {"", "[1]", "{\"a\": 1}", "<plist><integer>1</integer></plist>", "<?xml version=\"1.0\"?>\n<plist><array/></plist>", "a: 1\n", "- <x>\n", "# <\n1\n", "--- 1\n", "\"<\"", "<", "<x", "1", "%YAML 1.1\n--- 1\n", "\xef\xbb\xbf[1]", "\xef\xbb\xbf<plist><true/></plist>", "x <plist>"};
	static const int N[] = {0, 1, 7, 8, 9, 15, 16, 17, 100, 4095, 4096, 4097};
	static const char *B[] = {" ", "\n", "\t", " \n\t\r\v\f"};
	const std::string &d = r.pick(D);
	int how = r.choose(4), n = N[r.choose(12)];
	std::string b = B[r.choose(4)], s;
	while ((int)s.size() < n) s += b;
	s.resize(n);
	guessed(r, s + d, how);
}
static void firsts(mc::Run &r) {
	std::string s(1, (char)r.choose(256));
	int how = r.choose(4), n = r.choose(3);
	if (n) s += (char)r.choose(256);
	if (n == 2) s = "\n" + s + "]";
	guessed(r, s, how);
}

int main(int argc, char **argv) {
	quiet();
	mc::Check c;
	c.prop = "P27"; c.level = "model_checking";
	c.rule = "the type and value of an unquoted scalar equal those of an independent reading of the documented pattern, in bundle headers, YAML and on command lines; doubles written with 17 digits read exactly; quoted, block and tagged scalars are strings; the guessed format is that of the first character that is not blank, guessing consumes nothing, and the outcome is that of naming the format";
	c.assumptions = {"integers out of range are replaced by the nearest", "YAML texts are those libyaml takes for plain scalars on one line"};
	c.spaces.push_back({"numbers", "every text of up to 5 (thorough 6) of 14 characters x 4 places", numbers, 3, true});
	c.spaces.push_back({"arguments", "every text of up to 4 (thorough 5) of 16 characters x 2 places on the command line", arguments, 3, true});
	c.spaces.push_back({"words", "20 words in every case, with each of 12 texts before, within or after x 7 places", words, 2, true});
	c.spaces.push_back({"integers", "2^k + d, k < 68, |d| <= 3, in 3 bases with leading zeros and signs x 7 places", integers, 2, true});
	c.spaces.push_back({"doubles", "every exponent and short decimals in 3 notations x 2 places", doubles, 3, true});
	c.spaces.push_back({"sequences", "every sequence of 3 (thorough 4) of 24 scalars in 2 formats", sequences, 2, true});
	c.spaces.push_back({"quoted", "16 texts x 8 ways to quote x 3 places", quoted, 1, true});
	c.spaces.push_back({"formats", "17 documents after 12 lengths of 4 kinds of blanks x 4 kinds of input", formats, 2, true});
	c.spaces.push_back({"firsts", "every first byte, alone, followed by every byte, or after a newline x 4 kinds of input", firsts, 1, true});
	return mc::run(argc, argv, c);
}
