// P09: the JSON reader accepts exactly JSON.
#include "values.hpp"
using namespace libvariant;
using ref::V;

// First document of the text by the reference reader.
static bool oracle(const std::string &t, V &v, bool &unfinished) {
	ref::Json j(t); j.comments = true; j.bare_point = true;
	bool ok = j.ws() && j.p < t.size() && (t[j.p] == '[' || t[j.p] == '{') && j.value(v);
	unfinished = !ok && j.unfinished();
	return ok;
}
static bool blobby(const V &v) {
	if (v.k == V::Str && v.s.compare(0, 5, std::string("\0BLOB", 5)) == 0) return true;
	for (auto &x : v.l) if (blobby(x)) return true;
	for (auto &x : v.m) if (blobby(x.second)) return true;
	return false;
}
static bool judge(mc::Run &r, const std::string &t) {
	V want; bool unf, ok = oracle(t, want, unf);
	r.note("%s", mc::q(t.size() > 400 ? t.substr(0, 400) + "..." : t).c_str());
	char *m = (char *)malloc(t.size() ? t.size() : 1); memcpy(m, t.data(), t.size());
	bool threw = false; V got; std::string what;
	try { got = ref::from(Deserialize(m, (unsigned)t.size(), SERIALIZE_JSON)); } catch (std::exception &e) { threw = true; what = e.what(); }
	free(m);
	r.step(1); r.state(mc::hash(t)); r.outcome(threw ? "refused" : ref::show(got));
	if (blobby(want)) return true;
	if (ok) {
		r.check(!threw, "refused", "valid text refused: %s", what.c_str());
		r.check(ref::same(got, want), "value", "read as %s, means %s", ref::show(got).c_str(), ref::show(want).c_str());
	} else r.check(threw, "accepted", "invalid text accepted as %s", ref::show(got).c_str());
	return unf;
}
// Every word over the alphabet between prefix and suffix; after a symbol that rules out any
// document one more symbol is tried and the branch ends.
static void words(mc::Run &r, const std::vector<std::string> &A, int max, const std::string &pre, const std::string &post) {
	std::string t = pre; bool dead = false;
	for (int i = 0; i < max; ++i) {
		int k = r.choose((int)A.size() + 1);
		if (!k) break;
		t += A[k - 1];
		V v; bool unf; bool ok = oracle(t, v, unf);
		if (dead) break;
		if (!ok && !unf) dead = true;
		if (ok) dead = true;
	}
	judge(r, t + post);
}

int main(int argc, char **argv) {
	mc::Check c;
	c.prop = "P09"; c.level = "model_checking";
	c.rule = "every text of the space is given to the real parser in an exact heap block and to an independent reader written from RFC 8259; acceptance and value must agree";
	c.assumptions = {"bytes above 0x7f inside strings are taken as they are, as the library does", "strings starting with the library's blob marker are decoded as blobs and not compared here", "of equal keys in one object the last counts"};
	c.spaces.push_back({"tokens", "every token sequence up to 7 (thorough 9), branches cut one token after becoming unsalvageable", [](mc::Run &r) {
		words(r, {"[", "]", "{", "}", ",", ":", "\"a\"", "\"b\"", "1", "null", "true", " "}, r.thorough ? 9 : 7, "", "");
	}, 3, false});
	c.spaces.push_back({"characters", "every character sequence up to 6 after '[' and 5 after '{' (thorough 7)", [](mc::Run &r) {
		bool obj = r.flip();
		words(r, {"[", "]", "}", ",", ":", "\"", "\\", "0", "1", "-", ".", "e", "n", "u", "l", "\n", "x", "+", "'"}, r.thorough ? 7 : obj ? 5 : 6, obj ? "{" : "[", "");
	}, 3, false});
	c.spaces.push_back({"numbers", "every number-like text up to 8 characters (thorough 9) in '[...]' and '{\"k\":...}'", [](mc::Run &r) {
		static const std::vector<std::string> A = {"0", "1", "9", "-", "+", ".", "e", "E"};
		bool m = r.flip();
		words(r, A, r.thorough ? 9 : 8, m ? "{\"k\":" : "[", m ? "}" : "]");
	}, 3, false});
	c.spaces.push_back({"strings", "every string body up to 4 symbols (thorough 5), as value and as key", [](mc::Run &r) {
		static const std::vector<std::string> A = {"a", "\\", "\"", "u", "0", "d", "8", "C", "n", "/", "\\u", "\\ud83d", "\\uDE00", "\\u0000", "\x01", "\x7f", "\xc3\xa9", "\xff", "\n", "\\b"};
		bool m = r.flip(); std::string t = m ? "{\"" : "[\"", b;
		int max = r.thorough ? 5 : 4;
		for (int i = 0; i < max; ++i) { int k = r.choose((int)A.size() + 1); if (!k) break; b += A[k - 1]; }
		judge(r, t + b + (m ? "\":1}" : "\"]"));
	}, 3, false});
	c.spaces.push_back({"literals", "every word over the letters of true, false and null up to 6, uppercase variants and words cut or followed by other tokens", [](mc::Run &r) {
		words(r, {"t", "r", "u", "e", "f", "a", "l", "s", "n", "N", "T", ",", "]", " ", "/**/", "1"}, r.thorough ? 8 : 7, "[", "]");
	}, 3, false});
	c.spaces.push_back({"comments", "every sequence of up to 8 symbols (thorough 9) with comment delimiters", [](mc::Run &r) {
		words(r, {"/", "*", "[", "]", "1", " ", ",", "\"a\"", "/*", "*/"}, r.thorough ? 8 : 7, "", "");
	}, 3, false});
	c.spaces.push_back({"bytes", "every text of one and two bytes, every two bytes between brackets, and every byte replaced or inserted at every position of 6 documents", [](mc::Run &r) {
		static const std::vector<std::string> D = {"[1,-2.5e3]", "{\"k\":[true,false,null]}", " [\"a\\n\\u00e9\"] ", "[[],{}]", "/*c*/[1]", "{\"a\":{\"b\":\"\"},\"c\":0}"};
		int kind = r.choose(4);
		if (kind == 0) { std::string t; t += (char)r.choose(256); int k = r.choose(257); if (k) t += (char)(k - 1); judge(r, t); }
		else if (kind == 1) { std::string t = "["; t += (char)r.choose(256); t += (char)r.choose(256); judge(r, t + "]"); }
		else { std::string t = r.pick(D); int p = r.choose((int)t.size()); char b = (char)r.choose(256); if (kind == 2) t[p] = b; else t.insert(t.begin() + p, b); judge(r, t); }
	}, 2, false});
	c.spaces.push_back({"edits", "every deletion, duplication and swap of one or two characters in 6 documents", [](mc::Run &r) {
		static const std::vector<std::string> D = {"[1,-2.5e3,\"x\"]", "{\"k\":[true,false,null],\"l\":{}}", " [\"a\\n\\ud83d\\ude00\"] ", "[[],{},[[1]]]", "/*c*/[1/**/,2]", "{\"a\":{\"b\":\"\"},\"c\":0.5}"};
		std::string t = r.pick(D);
		for (int i = 0; i < 2; ++i) {
			int op = r.choose(4), p = r.choose((int)t.size() ? (int)t.size() : 1);
			if (op == 0) break;
			if (t.empty()) break;
			if (op == 1) t.erase(p, 1); else if (op == 2) t.insert(t.begin() + p, t[p]); else if (p + 1 < (int)t.size()) std::swap(t[p], t[p + 1]);
		}
		judge(r, t);
	}, 2, false});
	c.spaces.push_back({"escapes", "every \\uXXXX, and every pair of surrogates at the edges (thorough: every 16th pair too)", [](mc::Run &r) {
		int kind = r.choose(2);
		if (kind == 0) { int hi = r.choose(256), lo = r.choose(256); judge(r, mc::fmt(r.flip() ? "[\"\\u%04x\"]" : "[\"<\\u%04X>\"]", hi << 8 | lo)); return; }
		static const int E[] = {0xd7ff, 0xd800, 0xd801, 0xd83d, 0xdabc, 0xdbfe, 0xdbff, 0xdc00, 0xdc01, 0xde00, 0xdfff, 0xe000, 0x0041};
		int a = E[r.choose(13)];
		int b = r.thorough ? r.choose(65536 / 4) * 4 + r.choose(4) : 0xd700 + r.choose(0xa00);
		judge(r, mc::fmt("[\"\\u%04x\\u%04X\"]", a, b));
	}, 2, false});
	c.spaces.push_back({"values", "integers around every power of two and ten, with leading sign and zeros, beyond the ranges; floats of every exponent in three notations", [](mc::Run &r) {
		int kind = r.choose(4);
		if (kind == 0) {
			V x = gen::integer(r); judge(r, "[" + ref::show(x) + "]");
		} else if (kind == 1) {       // around the limits and far beyond
			int digits = 18 + r.choose(8); int lead = 1 + r.choose(9), mid = r.choose(10), last = r.choose(10); bool neg = r.flip();
			judge(r, mc::fmt("[%s%d%s%d]", neg ? "-" : "", lead, std::string(digits - 2, (char)('0' + mid)).c_str(), last));
		} else if (kind == 2) {
			static const char *B[] = {"9223372036854775807", "9223372036854775808", "9223372036854775809", "18446744073709551615", "18446744073709551616", "18446744073709551614", "9223372036854775806", "184467440737095516150"};
			judge(r, mc::fmt("[%s%s%s]", r.flip() ? "-" : "", B[r.choose(8)], r.flip() ? ".0" : ""));
		} else {
			V l = gen::doubles(r, true);
			static const char *F[] = {"%.17g", "%.16e", "%.3E"};
			const char *f = F[r.choose(3)];
			std::string t = "[";
			for (auto &x : l.l) t += (t.size() > 1 ? "," : "") + mc::fmt(f, x.f);
			judge(r, t + "]");
		}
	}, 2, false});
	c.spaces.push_back({"long", "strings, numbers, keys, blanks, nesting and rows of lists and maps of every length from 1 to 300 and around 1000, 4096 and 20000 (thorough: nesting 100000)", [](mc::Run &r) {
		int kind = r.choose(10), n = 1 + r.choose(306);
		static const int X[] = {999, 1000, 1023, 4095, 4096, 20000};
		if (n > 300) n = X[n - 301];
		std::string s;
		switch (kind) {
		case 0: s = "[\"" + std::string(n, 'x') + "\"]"; break;
		case 1: s = "{\"" + std::string(n, 'k') + "\":1}"; break;
		case 2: if (n > 1023) return; s = "[" + std::string(n, '7') + "]"; break;
		case 3: if (n > 1023) return; s = "[0." + std::string(n, '7') + "]"; break;
		case 4: s = std::string(n, ' ') + "[" + std::string(n, '\n') + "1]"; break;
		case 5: s = std::string(n, '[') + std::string(n, ']'); if (n > 1023) return; break;
		case 6: if (n > 1023) return; for (int i = 0; i < n; ++i) s += "{\"a\":"; s += "1" + std::string(n, '}'); break;
		case 7: s = "["; for (int i = 0; i < n; ++i) s += "\\u0041"; s = "[\""; for (int i = 0; i < n; ++i) s += i % 3 ? "\\u00e9" : "\\ud83d\\ude00"; s += "\"]"; break;
		}
		if (kind == 8) { s = "["; for (int i = 0; i < n; ++i) s += i ? ",[]" : "[]"; s += "]"; }
		if (kind == 9) { s = "{\"r\":["; for (int i = 0; i < n; ++i) s += i ? ",{\"a\":[1]}" : "{}"; s += "]}"; }
		judge(r, s);
	}, 2, false});
	return mc::run(argc, argv, c);
}
