// P13: paths address the element they spell.
#include "vpath.hpp"
using namespace libvariant;
using ref::V;
using ref::Step;
using ref::Steps;

// ---- documented path syntax, read independently.  1 a path, 0 an error, -1 not settled by the syntax
static int parse(const std::string &t, Steps &p) {
	size_t i = 0, n = t.size();
	while (i < n) {
		if (t[i] == '[') {
			size_t j = t.find(']', i);
			if (j == std::string::npos) return 0;
			std::string d = t.substr(i + 1, j - i - 1);
			if (d.empty() || d.find_first_not_of("0123456789") != std::string::npos) return 0;
			unsigned long long v = 0;
			for (char c : d) { v = v * 10 + (c - '0'); if (v > 0xffffffffull) return 0; }
			p.push_back(ref::at((unsigned)v));
			i = j + 1;
			continue;
		}
		bool slash = t[i] == '/';
		if (slash) ++i;
		if (slash && i == n) return 1;       // a final slash is ignored
		std::string k;
		for (; i < n && t[i] != '/' && t[i] != '['; ++i) {
			if (t[i] == ']') return -1;
			if (t[i] == '\\') { if (++i == n) return -1; }
			k += t[i];
		}
		p.push_back(ref::key(k));
	}
	return 1;
}
static bool equal(const Path &a, const Steps &b) {
	if (a.size() != b.size()) return false;
	for (size_t i = 0; i < a.size(); ++i) {
		if (a[i].IsNumber() != b[i].idx || a[i].IsString() == b[i].idx) return false;
		if (b[i].idx ? a[i].AsUnsigned() != b[i].i : a[i].AsString() != b[i].k) return false;
	}
	return true;
}
static std::string show(const Path &a) {
	Steps s;
	for (auto &e : a) s.push_back(e.IsNumber() ? ref::at(e.AsUnsigned()) : ref::key(e.AsString()));
	return ref::show(s);
}
static void judge(mc::Run &r, const std::string &t) {
	r.note("%s", mc::q(t).c_str());
	Steps want;
	int w = parse(t, want);
	Path got;
	bool threw = false;
	try { got = ParsePath(t); } catch (std::exception &) { threw = true; }
	r.step(1); r.state(mc::hash(t)); r.outcome(threw ? "refused" : show(got));
	if (w < 0) return;
	r.check(threw == (w == 0), w ? "refused" : "accepted", w ? "path refused" : "text that is not a path read as %s", show(got).c_str());
	if (!w) return;
	r.check(equal(got, want), "parse", "parsed as %s, expected %s", show(got).c_str(), ref::show(want).c_str());
	Path more; more.push_back(PathElement("z"));
	ParsePath(more, t);
	want.insert(want.begin(), ref::key("z"));
	r.check(equal(more, want), "append", "appended to /z gives %s", show(more).c_str());
}

// ---- documents
static V L(std::vector<V> v) { V x = V::list(); x.l = v; return x; }
static V M(std::vector<std::pair<std::string, V>> v) { V x = V::map(); for (auto &e : v) x.m[e.first] = e.second; return x; }
static V I(int i) { return V::integer(i); }
static std::vector<V> docs() {
	V n = V::null(), e = V::str(""), a = V::list(), o = V::map();
	return {n, I(5), e, V::str("s"), V::boolean(false), a, o, L({n}), L({I(1)}), L({I(1), I(2), I(3)}), L({a}), L({L({I(1)})}), L({a, L({I(2)})}), L({o}), L({M({{"a", I(1)}})}),
		M({{"a", n}}), M({{"a", I(5)}}), M({{"a", e}}), M({{"a", V::boolean(false)}}), M({{"a", V::blob("")}}), M({{"a", V::flt(0)}}), M({{"a", a}}), M({{"a", o}}), M({{"a", L({I(1), I(2)})}}), M({{"a", M({{"b", I(1)}})}}),
		M({{"a", M({{"b", L({I(1)})}})}}), M({{"a", M({{"b", o}})}}), M({{"a", M({{"b", e}})}}), M({{"a", L({L({I(1)}), M({{"b", I(2)}})})}, {"b", I(3)}}), M({{"a", L({M({{"b", a}})})}}), L({L({L({I(1)})})}),
		L({L({a, a}), M({{"a", a}})}), M({{"a", M({{"a", M({{"a", I(1)}})}})}}), L({n, n}), M({{"a", o}, {"b", o}}), L({e}), L({L({e})}), M({{"a", L({n, n})}})};
}
static const std::vector<V> DOCS = docs();
static std::vector<Steps> paths(int max) {
	std::vector<Steps> o = {{}};
	std::vector<Step> st = {ref::key("a"), ref::key("b"), ref::at(0), ref::at(1), ref::at(2)};
	for (size_t b = 0, n = 0; (int)n < max; ++n) {
		size_t e = o.size();
		for (; b < e; ++b) for (auto &s : st) { Steps p = o[b]; p.push_back(s); o.push_back(p); }
	}
	return o;
}
static const std::vector<Steps> P2 = paths(2), P3 = paths(3);

// Erase at p; false if the last step does not fit what it is applied to.
static bool erase(V &v, const Steps &p, bool empties, size_t i = 0) {
	if (i == p.size()) return true;
	const Step &s = p[i];
	if (i + 1 < p.size()) {
		V *x = ref::find(v, Steps{s});
		if (!x) return v.k == V::Null || v.k == V::List || v.k == V::Map;
		bool ok = erase(*x, p, empties, i + 1);
		if (!ok || !empties || !((x->k == V::List && x->l.empty()) || (x->k == V::Map && x->m.empty()))) return ok;
	}
	if (v.k == V::Null) return true;
	if (v.k != (s.idx ? V::List : V::Map)) return false;
	if (!s.idx) v.m.erase(s.k);
	else if (s.i + 1 == v.l.size()) v.l.pop_back();
	else if (s.i < v.l.size()) v.l[s.i] = V::null();
	return true;
}

enum { GET, GETDEF, HAS, CAT, INTO, INTODEF, REF, REFSET, REFDEF, SETN, SETL, ERASE, ERASEE, STEP, NOP };
static const char *names[] = {"GetPath", "GetPath with default", "HasPath", "const AtPath", "GetPathInto", "GetPathInto with default", "AtPath", "AtPath =", "AtPath with default", "SetPath 7", "SetPath [8]", "ErasePath", "ErasePath with empties", "At steps ="};

static void step(mc::Run &r, Variant &x, V &m, int op, const Steps &p, bool text) {
	Path lp = ref::lib(p);
	std::string tp = ref::text(p);
	r.note("%s(%s)", names[op], text ? mc::q(tp).c_str() : ref::show(p).c_str());
	V before = m, *at = ref::find(m, p), val;
	bool has = at != 0, threw = false, bad = false, either = false, got_bool = false;
	V there = has ? *at : V::null();
	Variant out, seven(7), eight(Variant::ListType);
	eight.Append(8);
	const Variant &cx = x;
	bool result = false;           // an answer to compare with val
	switch (op) {
	case GET: case CAT: bad = !has; val = there; result = true; break;
	case GETDEF: val = has ? there : I(7); result = true; break;
	case INTO: bad = !has || (there.k != V::Str); val = there; result = true; break;
	case INTODEF: bad = has && there.k != V::Str; val = has ? there : V::str("d"); result = true; break;
	case REF: bad = !has; val = there; result = true; break;
	case REFSET: bad = !ref::set(m, p, I(7)); break;
	case STEP: { Steps q; bad = !ref::set(m, p, I(7)); break; }
	case REFDEF: if (!has) bad = !ref::set(m, p, I(7)); val = has ? there : I(7); result = true; if (has && there.k == V::Null) either = true; break;
	case SETN: bad = !ref::set(m, p, I(7)); break;
	case SETL: bad = !ref::set(m, p, L({I(8)})); break;
	case ERASE: case ERASEE:
		if (!erase(m, p, op == ERASEE)) { m = before; either = true; }
		break;
	}
	std::string what, str;
	try {
		switch (op) {
		case GET: out = text ? cx.GetPath(tp) : cx.GetPath(lp); break;
		case CAT: out = text ? cx.AtPath(tp) : cx.AtPath(lp); break;
		case GETDEF: out = text ? cx.GetPath(tp, seven) : cx.GetPath(lp, seven); break;
		case HAS: got_bool = text ? cx.HasPath(tp) : cx.HasPath(lp); break;
		case INTO: if (text) cx.GetPathInto(str, tp); else cx.GetPathInto(str, lp); out = str; break;
		case INTODEF: if (text) cx.GetPathInto(str, tp, std::string("d")); else cx.GetPathInto(str, lp, std::string("d")); out = str; break;
		case REF: { VariantRef q = text ? x.AtPath(tp) : x.AtPath(lp); r.check(q.Exists() == has, "exists", "reference Exists() is %d", !has); out = q; break; }
		case REFSET: { VariantRef q = text ? x.AtPath(tp) : x.AtPath(lp); q = 7; break; }
		case REFDEF: out = text ? x.AtPath(tp, seven) : x.AtPath(lp, seven); break;
		case SETN: if (text) x.SetPath(tp, seven); else x.SetPath(lp, seven); break;
		case SETL: if (text) x.SetPath(tp, eight); else x.SetPath(lp, eight); break;
		case ERASE: case ERASEE: if (text) x.ErasePath(tp, op == ERASEE); else x.ErasePath(lp, op == ERASEE); break;
		case STEP: { VariantRef q = x.Ref(); for (auto &s : p) { VariantRef n = s.idx ? q[s.i] : q[s.k]; q.ReassignRef(n); } q = 7; break; }
		}
	} catch (mc::Violation &) { throw; }
	catch (std::exception &e) { threw = true; what = e.what(); }
	if (bad) m = before;
	V now = ref::from(x);
	if (op == INTO || op == INTODEF) { if (bad && (there.k != V::Null || !has) && !has) ; else if (bad) either = true; }
	if (!either) {
		r.check(bad || !threw, "error", "raises %s on %s", what.c_str(), ref::show(before).c_str());
		r.check(!bad || threw, "no-error", "raises no error on %s", ref::show(before).c_str());
	}
	if (op == HAS) r.check(got_bool == has, "has", "HasPath is %d on %s", got_bool, ref::show(before).c_str());
	if (result && !threw && !either) { V g = ref::from(out); r.check(ref::same(g, val) && g.k == val.k, "answer", "gives %s, expected %s, on %s", ref::show(g).c_str(), ref::show(val).c_str(), ref::show(before).c_str()); }
	if (op == REFDEF && either) { m = now; V *y = ref::find(m, p); r.check(y && (y->k == V::Null || ref::same(*y, I(7))), "default", "leaves %s", ref::show(now).c_str()); }
	else r.check(ref::same(now, m), "document", "%s becomes %s, expected %s", ref::show(before).c_str(), ref::show(now).c_str(), ref::show(m).c_str());
	r.step(1);
}

int main(int argc, char **argv) {
	mc::Check c;
	c.prop = "P13"; c.level = "model_checking";
	c.rule = "parsing gives the path of an independent reader of the documented syntax or an error where the text is none; printing and parsing gives the path back; every path operation gives the answer and leaves the document of the reference model, and fails without changing anything where that model says so";
	c.assumptions = {"a final slash is ignored as documented, so a path ending in the empty key has no text", "erasing through a scalar may be an error or do nothing; it changes nothing",
		"a text with an unescaped ']' in a key or ending in a single backslash has no documented meaning"};
	c.spaces.push_back({"texts", "every text up to 6 characters (thorough 8) over / [ ] \\ a b 0 1 -", [](mc::Run &r) {
		static const char A[] = "/[]\\ab01-";
		std::string t;
		int max = r.thorough ? 8 : 6;
		for (int i = 0; i < max; ++i) { int k = r.choose(10); if (!k) break; t += A[k - 1]; }
		judge(r, t);
	}, 2, false});
	c.spaces.push_back({"indices", "every index text of 40 with 6 continuations and 4 beginnings", [](mc::Run &r) {
		static const std::vector<std::string> A = {"0", "00", "01", "7", "10", "4294967294", "4294967295", "4294967296", "4294967297", "04294967295", "8589934592", "18446744073709551615", "18446744073709551616", "18446744073709551617", "99999999999999999999999999",
			"-1", "-0", "+1", "1x", "x1", " 1", "1 ", "", "0x1", "1e2", "1.0", "1,000", "\\1", "[1", "1[0", "/", "\t1", "1\n", "\xd9\xa1", "a", "]", "1]", "2147483647", "2147483648", "65536"};
		static const std::vector<std::string> B = {"", "]", "]/a", "][1]", "] ", "]a"}, C = {"", "/a", "/", "[0]"};
		judge(r, r.pick(C) + "[" + r.pick(A) + r.pick(B));
	}, 1, false});
	c.spaces.push_back({"bytes", "every byte and every two bytes as a key, escaped and not", [](mc::Run &r) {
		int esc = r.choose(4);
		std::string t = "/";
		for (int i = 0; i < 2; ++i) { int k = r.choose(257); if (!k) break; if (esc & (1 << i)) t += '\\'; t += (char)(k - 1); }
		judge(r, t);
	}, 2, false});
	c.spaces.push_back({"printing", "every path up to 3 elements (thorough 4) of 14 keys and 4 indices, printed and parsed", [](mc::Run &r) {
		static const std::vector<Step> A = {ref::key(""), ref::key("a"), ref::key("/"), ref::key("["), ref::key("]"), ref::key("\\"), ref::key("a/b"), ref::key("[0]"), ref::key("\\/"), ref::key(std::string("\0z", 2)), ref::key("\xc3\xa9"), ref::key("0"),
			ref::key("]["), ref::key(" "), ref::at(0), ref::at(1), ref::at(10), ref::at(4294967295u)};
		Steps p;
		int max = r.thorough ? 4 : 3;
		for (int i = 0; i < max; ++i) { int k = r.choose(A.size() + 1); if (!k) break; p.push_back(A[k - 1]); }
		r.note("%s", ref::show(p).c_str());
		if (!p.empty() && !p.back().idx && p.back().k.empty()) return;
		std::string t = PathString(ref::lib(p));
		r.step(1); r.state(mc::hash(t)); r.outcome(t);
		Path q = ParsePath(t);
		r.check(equal(q, p), "round-trip", "prints as %s which parses as %s", mc::q(t).c_str(), show(q).c_str());
		Steps s;
		r.check(parse(t, s) == 1, "syntax", "prints as %s which does not follow the syntax", mc::q(t).c_str());
	}, 1, false});
	c.spaces.push_back({"operations", mc::fmt("every one of %d operations with every path up to 3 steps, given as path and as text, on %zu documents", NOP, DOCS.size()), [](mc::Run &r) {
		V m = r.pick(DOCS);
		int op = r.choose(NOP);
		const Steps &p = r.pick(P3);
		bool text = r.flip();
		Variant x = ref::to(m);
		r.note("%s", ref::show(m).c_str());
		step(r, x, m, op, p, text);
		r.state(mc::hash(ref::show(m))); r.outcome(ref::show(m));
	}, 2, true});
	c.spaces.push_back({"histories", mc::fmt("from 3 documents, 2 (thorough 3) changes with every path up to 2 steps, then every read with every path up to 2 steps", NOP), [](mc::Run &r) {
		static const std::vector<int> D = {0, 28, 31}, W = {REFSET, REFDEF, SETL, ERASE, ERASEE, STEP};
		V m = DOCS[r.pick(D)];
		Variant x = ref::to(m);
		r.note("%s", ref::show(m).c_str());
		int n = r.thorough ? 3 : 2;
		for (int i = 0; i < n; ++i) { int op = r.pick(W); const Steps &p = r.pick(P2); step(r, x, m, op, p, false); }
		if (r.fresh()) for (auto &p : P2) for (int op : {GET, HAS}) step(r, x, m, op, p, false);
		r.state(mc::hash(ref::show(m))); r.outcome(ref::show(m));
	}, 2, true});
	return mc::run(argc, argv, c);
}
