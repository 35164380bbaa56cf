// P25: iterating over a stream yields its documents, each once and in order.
#include "ref.hpp"
#include <Variant/Parser.h>
#include <Variant/ParserInput.h>
#include <Variant/Emitter.h>
#include <fstream>
#include <sstream>
#include <stdexcept>
#include <unistd.h>
using namespace libvariant;
using ref::V;

struct Doc { const char *text; V v; bool block; };
static const std::vector<Doc> DOCS = {
	{"1", V::integer(1), false}, {"null", V(), false}, {"", V::str(""), false}, {"text", V::str("text"), false}, {"[]", V::list({}), false}, {"{}", V::map({}), false},
	{"a: 1\nb:\n- ~\n- 2.5", V::map({{"a", V::integer(1)}, {"b", V::list({V(), V::flt(2.5)})}}), true}, {"- &x [1]\n- *x", V::list({V::list({V::integer(1)}), V::list({V::integer(1)})}), true},
	{"|\n  one\n  ---\n", V::str("one\n---\n"), false}, {"'---'", V::str("---"), false}, {"\"...\"", V::str("..."), false}, {"false", V::boolean(false), false}, {"!!binary aGk=", V::blob("hi"), false}, {"~ # c", V(), false}, {"[null, {x: }] ", V::list({V(), V::map({{"x", V::str("")}})}), false}};
static const int FEW = 8;

// What a text holds after the document `d`, started and ended in some way; false if it cannot be written so.
static bool add(std::string &s, int d, int start, int end, bool open) {
	std::string t = DOCS[d].text;
	if (start == 2 && (!s.empty() || t.empty())) return false;    // only the first document may go without a marker
	if (start == 0 && DOCS[d].block) return false;
	if (start == 3) { if (!open) return false; s += "%YAML 1.1\n"; }
	if (start == 4) s += "# before\n";
	s += start == 0 || start == 3 ? (start == 3 ? "---\n" : "--- ") : start == 2 ? "" : "---\n";
	if (start == 2 && t[0] == '|') return false;
	if (start != 0 && t[0] == '|') s.back() = ' ';
	s += t;
	if (s.back() != '\n') s += "\n";
	switch (end) { case 1: s += "...\n"; break; case 2: s += "# after\n"; break; case 3: s += "\n\n"; break; }
	return true;
}

// Gives no more than is asked for, one byte if nothing is.
struct Slow : ParserInput {
	std::string s; size_t p = 0;
	Slow(const std::string &t) : s(t) {}
	const void *GetPtr(unsigned &len) override { len = (unsigned)std::min<size_t>(len ? len : 1, s.size() - p); return len ? s.data() + p : 0; }
	void Release(unsigned n) override { p += n; }
};
struct Source {
	std::stringbuf sb; FILE *f = 0; std::string name;
	std::unique_ptr<Parser> p;
	LoadAllIterator open(const std::string &s, int how, SerializeType t) {
		switch (how) {
		case 0: return DeserializeAll(s, t);
		case 1: return DeserializeAll(s.data(), (unsigned)s.size(), t);
		case 2: sb.str(s); return DeserializeAllFile(&sb, t);
		case 3: f = s.empty() ? tmpfile() : fmemopen((void *)s.data(), s.size(), "r"); return DeserializeAllFile(f, t);
		case 4: {
			const char *d = getenv("MC_SCRATCH");
			name = mc::fmt("%s/docs.%d", d ? d : "/tmp", int(getpid()));
			std::ofstream(name.c_str()) << s;
			return DeserializeAllFile(name.c_str(), t);
		}
		default: p.reset(new Parser(CreateParser(shared_ptr<ParserInput>(new Slow(s)), t))); return LoadAllIterator(*p);
		}
	}
	~Source() { if (f) fclose(f); if (!name.empty()) unlink(name.c_str()); }
};
static void read_all(mc::Run &r, const std::string &s, const std::vector<V> &want, int how, SerializeType t) {
	if (!r.fresh()) return;
	r.note("input %d text %s", how, mc::q(s).c_str());
	Source src;
	try {
		LoadAllIterator i = src.open(s, how, t), e;
		for (size_t n = 0; n < want.size(); ++n, ++i) {
			r.check(i != e, "missing", "the stream ends after %zu documents", n);
			V got = ref::from(*i);
			r.check(ref::same(got, want[n]), "document", "document %zu is %s, not %s", n, ref::show(got).c_str(), ref::show(want[n]).c_str());
			r.step(1);
		}
		r.check(i == e && !(i != e), "extra", "there is a document after the last of %zu", want.size());
		bool threw = false;
		try { *i; } catch (const std::out_of_range &) { threw = true; }
		r.check(threw, "past-end", "reading past the end is not refused");
	} catch (const std::exception &e) { r.fail("error", "%s", e.what()); }
	r.state(mc::hash(s)); r.outcome(mc::fmt("%zu documents", want.size()));
}

static void streams(mc::Run &r) {
	int n = r.choose(4), nd = n == 3 ? (r.thorough ? (int)DOCS.size() : 5) : (int)DOCS.size();
	std::string s = r.choose(2) ? "# comment\n\n" : "";
	std::vector<V> want;
	bool open = true;
	for (int i = 0; i < n; ++i) {
		int d = r.choose(nd), start = r.choose(5), end = r.choose(n == 3 && !r.thorough ? 2 : 4);
		if (!add(s, d, start, end, open)) return;
		open = end == 1;
		want.push_back(DOCS[d].v);
	}
	read_all(r, s, want, 0, SERIALIZE_YAML);
}
static void inputs(mc::Run &r) {
	int how = r.choose(6), n = r.choose(4);
	std::string s;
	std::vector<V> want;
	for (int i = 0; i < n; ++i) { int d = r.choose(FEW + 1), end = r.choose(2); add(s, d, 1, end, true); want.push_back(DOCS[d].v); }
	read_all(r, s, want, how, SERIALIZE_YAML);
}

// ---- several iterators over one stream
static void histories(mc::Run &r) {
	int n = r.choose(4), how = r.choose(2) * 5, depth = r.thorough ? 6 : 5;
	bool alike = r.choose(2);
	if (alike && n < 2) return;
	std::string s;
	std::vector<V> want;
	for (int i = 0; i < n; ++i) { static const int D[] = {1, 2, 0, 6}; int d = D[alike ? n % 3 : (i + n) % 4]; add(s, d, 1, 0, true); want.push_back(DOCS[d].v); }
	Source src;
	LoadAllIterator it[3];
	it[0] = src.open(s, how, SERIALIZE_YAML);
	int at[3] = {0, n, n};
	r.note("%d %sdocuments input %d", n, alike ? "equal " : "", how);
	for (int step = 0; step <= depth; ++step) {
		if (step == 0 || r.fresh()) {
			for (int i = 0; i < 3; ++i) {
				r.check((it[i] == LoadAllIterator()) == (at[i] == n), "end", "iterator %d at document %d of %d %s the end", i, at[i], n, at[i] == n ? "is not" : "is");
				if (at[i] < n) {
					V a = ref::from(*it[i]), b = ref::from(it[i].Get());
					r.check(ref::same(a, want[at[i]]) && ref::same(a, b), "document", "iterator %d gives %s for document %d", i, ref::show(a).c_str(), at[i]);
					if (want[at[i]].k == V::Map) r.check(it[i]->IsMap(), "document", "-> differs");
				} else { bool t = false; try { it[i].Get(); } catch (const std::out_of_range &) { t = true; } r.check(t, "past-end", "iterator %d can be read at the end", i); }
				for (int j = 0; j < 3; ++j) r.check((it[i] == it[j]) == (at[i] == at[j]) && (it[i] != it[j]) == (at[i] != at[j]), "equal", "iterators %d at %d and %d at %d compare wrongly", i, at[i], j, at[j]);
			}
			r.state(mc::hash(mc::fmt("%d %d %d %d", n, at[0], at[1], at[2])));
		}
		if (step == depth) break;
		int op = r.choose(14);
		if (op < 3) { if (at[op] == n) return; ++it[op]; ++at[op]; r.note("++it%d", op); }
		else if (op < 6) {
			int i = op - 3;
			if (at[i] == n) return;
			LoadAllIterator old = it[i]++;
			r.note("it%d++", i);
			if (r.fresh()) r.check(ref::same(ref::from(*old), want[at[i]]), "postfix", "++ does not give the old position");
			++at[i];
		} else if (op < 12) { int i = (op - 6) / 2, j = (i + 1 + (op - 6) % 2) % 3; it[i] = it[j]; at[i] = at[j]; r.note("it%d = it%d", i, j); }
		else if (op == 12) { it[2] = LoadAllIterator(); at[2] = n; r.note("it2 = end"); }
		else {
			// what is written to a document is seen by every iterator there, and by no other
			if (at[1] == n) return;
			want[at[1]] = V::str(mc::fmt("w%d", step));
			*it[1] = ref::to(want[at[1]]);
			r.note("*it1 = ..");
		}
		r.step(1);
	}
	r.outcome(mc::fmt("%d%d%d", at[0], at[1], at[2]));
}

// ---- a document that is not well formed
static void errors(mc::Run &r) {
	static const std::vector<std::string> BAD = {"--- [1\n", "--- {a: ]\n", "--- \"x\n", "---\n- *none\n- 1\n", "---\na: *none\nb: 2\n", "---\na: b: c\n", "--- @\n", "---\na: 1\n- 2\n", "--- !<x\n", "--- &\n", "---\n\ta: 1\n", "---\n[1]: 2\n", "---\n- *none\n- [1]\n- {a: 1}\n"};
	int n = r.choose(3), bad = r.choose(BAD.size()), after = r.choose(3), again = r.choose(3), how = r.choose(2) * 5;
	std::string s;
	std::vector<V> want;
	for (int i = 0; i < n; ++i) { int d = r.choose(FEW); add(s, d, 1, 1, true); want.push_back(DOCS[d].v); }
	s += BAD[bad];
	for (int i = 0; i < after; ++i) s += "--- 7\n";
	if (!r.fresh()) return;
	r.note("input %d text %s", how, mc::q(s).c_str());
	Source src;
	LoadAllIterator e;
	if (n == 0) {
		bool threw = false;
		try { src.open(s, how, SERIALIZE_YAML); } catch (const std::exception &) { threw = true; }
		r.check(threw, "unreported", "the error in the first document is not reported");
		r.step(1);
		return;
	}
	try {
		LoadAllIterator i = src.open(s, how, SERIALIZE_YAML);
		for (int k = 0; k < n; ++k) {
			r.check(i != e, "missing", "the stream ends after %d documents", k);
			V got = ref::from(*i);
			r.check(ref::same(got, want[k]), "document", "document %d is %s", k, ref::show(got).c_str());
			r.step(1);
			if (k + 1 < n) { ++i; continue; }
			LoadAllIterator j = i, m = i;
			for (int t = 0; t <= again; ++t) {
				bool threw = false;
				LoadAllIterator &x = t == 1 ? j : i;
				try { ++x; } catch (const std::exception &) { threw = true; }
				V now;
				if (!threw && x != e) now = ref::from(*x);
				r.check(threw, "unreported", "try %d to reach the document in error gives %s", t + 1, x == e ? "the end" : ref::show(now).c_str());
				r.check(x == m && ref::same(ref::from(*x), want[k]), "moved", "the iterator moved");
				r.step(1);
			}
		}
	} catch (const std::exception &x) { r.fail("early", "an earlier document fails: %s", x.what()); }
	r.state(mc::hash(s)); r.outcome("error");
}

// ---- formats with one document
static void formats(mc::Run &r) {
	struct F { SerializeType t; const char *text; V v; int n; };
	static const std::vector<F> T = {{SERIALIZE_JSON, "[1, null]", V::list({V::integer(1), V()}), 1}, {SERIALIZE_JSON, "{}", V::map({}), 1}, {SERIALIZE_JSON, " {\"a\": []}\n[2]", V::map({{"a", V::list({})}}), 1}, {SERIALIZE_JSON, "[1", V(), -1}, {SERIALIZE_JSON, "", V(), -1},
		{SERIALIZE_BUNDLEHDR, "a: 1\nb: x|y\n", V::map({{"a", V::integer(1)}, {"b", V::list({V::str("x"), V::str("y")})}}), 1}, {SERIALIZE_BUNDLEHDR, "# nothing\n", V::map({}), 1}, {SERIALIZE_BUNDLEHDR, "", V(), 0},
		{SERIALIZE_XMLPLIST, "<plist version=\"1.0\"><array><integer>1</integer></array></plist>", V::list({V::integer(1)}), 1}, {SERIALIZE_XMLPLIST, "<plist><string>x</string></plist>", V::str("x"), 1}, {SERIALIZE_XMLPLIST, "<plist><array>", V(), -1}, {SERIALIZE_XMLPLIST, "", V(), -1},
		{SERIALIZE_YAML, "", V(), 0}, {SERIALIZE_YAML, "\n# c\n", V(), 0}, {SERIALIZE_YAML, "[1]", V::list({V::integer(1)}), 1}, {SERIALIZE_GUESS, "[1]", V::list({V::integer(1)}), 1}};
	const F &f = r.pick(T);
	int how = r.choose(6);
	std::string s = f.text;
	if (f.n >= 0) { read_all(r, s, f.n ? std::vector<V>(1, f.v) : std::vector<V>(), how, f.t); return; }
	if (!r.fresh()) return;
	r.note("format %d input %d text %s", f.t, how, mc::q(s).c_str());
	Source src;
	bool threw = false;
	try { src.open(s, how, f.t); } catch (const std::exception &) { threw = true; }
	r.step(1);
	r.check(threw, "unreported", "the error is not reported");
}

// ---- documents written one after another are read back
static void written(mc::Run &r) {
	static const std::vector<V> VALUES = {V(), V::str(""), V::str("text"), V::str("a\n\n"), V::integer(-3), V::list({}), V::map({}), V::list({V::str("b\n"), V()}), V::map({{"k", V::str("v\n\n")}}), V::str("---"), V::str("..."), V::str("# x"), V::str("a\n...\n---\nb"), V::blob("x\0y"), V::boolean(true), V::str("%x")};
	static const char *STYLES[] = {"any", "block", "flow"};
	int n = r.choose(4), how = r.choose(3), beg = r.choose(2), end = r.choose(2), style = r.choose(3);
	std::vector<V> want;
	for (int i = 0; i < n; ++i) want.push_back(VALUES[r.choose(n == 3 && !r.thorough ? 9 : VALUES.size())]);
	if (!r.fresh()) return;
	std::stringbuf sb;
	try {
		Variant params;
		params["implicit_document_begin"] = beg != 0; params["implicit_document_end"] = end != 0; params["map_style"] = STYLES[style]; params["list_style"] = STYLES[style];
		Emitter e = CreateEmitter(CreateEmitterOutput(&sb), SERIALIZE_YAML, params);
		for (auto &v : want) {
			e.BeginDocument();
			e << ref::to(v);
			e.EndDocument();
			if (how == 1) e.Flush();
		}
		if (how != 2) e.Close();
	} catch (const std::exception &x) { r.fail("emit", "%s", x.what()); }
	read_all(r, sb.str(), want, how == 1 ? 5 : 0, SERIALIZE_YAML);
}

// ---- many documents
static void many(mc::Run &r) {
	static const int N[] = {100, 4096, 300000, 1000000};
	int n = N[r.choose(r.thorough ? 4 : 3)], hold = r.choose(3);
	if (!r.fresh()) return;
	r.note("%d documents, holding %d", n, hold);
	std::string s;
	for (int i = 0; i < n; ++i) s += mc::fmt("--- %d\n", i);
	{
		LoadAllIterator i = DeserializeAll(s, SERIALIZE_YAML), e, first = hold ? i : e, mid;
		int k = 0;
		for (; i != e; ++i, ++k) { if (i->AsInt() != k) r.fail("document", "document %d is wrong", k); if (k == n / 2) mid = hold == 2 ? i : e; }
		r.check(k == n, "missing", "%d documents of %d", k, n);
		r.step(n);
		if (hold == 2) { r.check(mid->AsInt() == n / 2, "document", "wrong"); first = e; for (k = n / 2; mid != e; ++mid) ++k; r.check(k == n, "missing", "%d", k); }
	}
	r.outcome(mc::fmt("%d", n)); r.state(n + hold);
}

int main(int argc, char **argv) {
	mc::Check c;
	c.prop = "P25"; c.level = "model_checking";
	c.rule = "the documents an iterator yields equal the list the stream was composed of; several iterators agree with positions in that list; errors are reported at their document, and again on every further try";
	c.assumptions = {"an empty plain scalar reads as an empty string", "iterators are not advanced past the end"};
	c.spaces.push_back({"streams", mc::fmt("YAML streams of up to 3 documents of %zu kinds x 5 ways to start x 4 ways to end", DOCS.size()), streams, 3, true});
	c.spaces.push_back({"inputs", "6 kinds of input x up to 3 documents of 9 kinds", inputs, 3, true});
	c.spaces.push_back({"histories", "3 iterators over up to 3 documents, different or equal, up to 5 (thorough 6) of 14 operations", histories, 3, true});
	c.spaces.push_back({"errors", "13 malformed documents after up to 2 documents and before up to 2, up to 3 tries", errors, 3, true});
	c.spaces.push_back({"formats", "16 texts in 5 formats x 6 kinds of input", formats, 1, true});
	c.spaces.push_back({"written", "up to 3 documents of 16 values (9 of three in quick) x implicit begin and end x 3 styles, flushed or closed", written, 3, true});
	c.spaces.push_back({"many", "streams of 100 to 300000 (thorough 1000000) documents, holding the first, one in the middle, or none", many, 1, true});
	return mc::run(argc, argv, c);
}
