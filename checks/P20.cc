// P20: schema validation gives the JSON Schema draft 4 verdict.
#include "schemaset.hpp"
#include <Variant/Schema.h>
using namespace libvariant;

static bool identical(const V &a, const V &b) {
	if (a.k == V::List && b.k == V::List) { if (a.l.size() != b.l.size()) return false; for (size_t i = 0; i < a.l.size(); ++i) if (!identical(a.l[i], b.l[i])) return false; return true; }
	if (a.k == V::Map && b.k == V::Map) { if (a.m.size() != b.m.size()) return false; for (auto &e : a.m) { auto it = b.m.find(e.first); if (it == b.m.end() || !identical(e.second, it->second)) return false; } return true; }
	return a.k == b.k && ref::same(a, b);
}
static const ref::Schema REF;

// Tests for multiples of a number that is not an integer, somewhere
static bool fraction(const V &s) {
	auto it = s.m.find("multipleOf");
	if (it != s.m.end() && it->second.k == V::Flt) return true;
	for (auto &e : s.m) if (fraction(e.second)) return true;
	for (auto &e : s.l) if (fraction(e)) return true;
	return false;
}

static void verdict(mc::Run &r, const V &s, Variant &ls, const V &d) {
	if (d.isnum() && std::abs(ref::sc_num(d)) > 1e15L && fraction(s)) return;
	Variant ld = ref::to(d);
	bool want = REF.valid(s, d);
	SchemaResult res = SchemaValidate(ls, ld);
	bool got = !res.Error();
	r.step(1);
	if (got != want || res.SchemaErrors()) r.note("schema %s data %s", ref::show(s).c_str(), ref::show(d).c_str());
	r.check(!res.SchemaErrors(), "schema-error", "the schema is reported as wrong: %s", res.PrettyPrintMessage().c_str());
	r.check(got == want, got ? "accepted" : "refused", got ? "accepted" : "refused: %s", res.PrettyPrintMessage().c_str());
	if (!got) r.check(!res.GetErrors().empty() && !res.PrettyPrintMessage().empty(), "message", "no error is given");
	V nd = ref::from(ld);
	r.check(identical(nd, d), "data", "validation changes the data %s to %s", ref::show(d).c_str(), ref::show(nd).c_str());
}
static void judge(mc::Run &r, const V &s, const std::vector<V> &ds) {
	Variant ls = ref::to(s);
	std::string bits;
	for (auto &d : ds) { verdict(r, s, ls, d); bits += REF.valid(s, d) ? '1' : '0'; }
	V ns = ref::from(ls);
	r.check(identical(ns, s), "schema", "validation changes the schema %s to %s", ref::show(s).c_str(), ref::show(ns).c_str());
	// again, with the used schema
	for (size_t i = 0; i < ds.size(); i += 7) verdict(r, s, ls, ds[i]);
	r.state(mc::hash(ref::show(s))); r.outcome(bits);
}

int main(int argc, char **argv) {
	mc::Check c;
	c.prop = "P20"; c.level = "model_checking";
	c.rule = "accepted exactly when an independent draft 4 validator accepts; a refusal carries an error; data and schema are unchanged; the schema can be used again";
	c.assumptions = {"schemas are valid and without references (P21)", "a float without fraction is an integer", "patterns lie in the common subset of POSIX and ECMA expressions", "numbers that are not integers have few decimals, and numbers beyond 1e15 are not tested to be multiples of them"};
	c.spaces.push_back({"one-keyword", mc::fmt("each of %zu keyword settings x %zu data", KW.size(), DATA.size()), [](mc::Run &r) {
		const KV &k = r.pick(KW);
		judge(r, M({{k.first, k.second}}), DATA);
	}, 1, true});
	c.spaces.push_back({"two-keywords", "every pair of settings of different keywords x the data", [](mc::Run &r) {
		const KV &a = r.pick(KW);
		const KV &b = r.pick(KW);
		if (a.first >= b.first) return;
		V s = M({{a.first, a.second}, {b.first, b.second}});
		judge(r, s, DATA);
	}, 1, true});
	c.spaces.push_back({"objects", "properties x patternProperties x additionalProperties x required x size, full product, and items x additionalItems x size x unique", [](mc::Run &r) {
		std::vector<std::string> groups = r.flip() ? std::vector<std::string>{"properties", "patternProperties", "additionalProperties", "required", "maxProperties"} : std::vector<std::string>{"items", "additionalItems", "minItems", "uniqueItems"};
		V s = V::map();
		for (auto &g : groups) {
			std::vector<V> o;
			for (auto &k : KW) if (k.first == g) o.push_back(k.second);
			int i = r.choose(o.size() + 1);
			if (i) s.m[g] = o[i - 1];
		}
		static std::vector<V> maps, lists;
		if (maps.empty()) for (auto &d : DATA) { if (d.k == V::Map) maps.push_back(d); if (d.k == V::List) lists.push_back(d); }
		judge(r, s, groups[0] == "items" ? lists : maps);
	}, 2, true});
	c.spaces.push_back({"limits", "minimum x exclusiveMinimum x maximum x exclusiveMaximum x multipleOf, full product", [](mc::Run &r) {
		V s = V::map();
		for (auto &g : {"minimum", "maximum", "multipleOf"}) {
			std::vector<V> o;
			for (auto &k : KW) if (k.first == g) o.push_back(k.second);
			int i = r.choose(o.size() + 1);
			if (!i) continue;
			s.m[g] = o[i - 1];
			if (*g == 'm' && g[1] != 'u') { int e = r.choose(3); if (e) s.m[g[1] == 'i' ? "exclusiveMinimum" : "exclusiveMaximum"] = B(e == 1); }
		}
		static std::vector<V> nums;
		if (nums.empty()) for (auto &d : DATA) if (d.isnum()) nums.push_back(d);
		judge(r, s, nums);
	}, 2, true});
	c.spaces.push_back({"nested", mc::fmt("%d ways to combine two schemas, applied twice, over %zu schemas (thorough %zu)", NWRAP, POOL.size(), POOLB.size()), [](mc::Run &r) {
		const std::vector<V> &p = r.thorough ? POOLB : POOL;
		int w = r.choose(NWRAP), u = r.choose(NWRAP);
		const V &a = r.pick(p);
		const V &b = r.pick(p);
		V in = wrap(w, a, b);
		const V &o = POOL[1 + (w + u) % 3];
		judge(r, r.thorough && r.flip() ? wrap(u, o, in) : wrap(u, in, o), r.thorough ? DATA : NDATA);
	}, 2, true});
	c.spaces.push_back({"wide", "lists and maps of every size from 0 to 105 and of 128, 200 and 300 (thorough also 255, 256 and 1100) under item, property, pattern, additional and combined schemas, with the last, the middle or no member wrong", [](mc::Run &r) {
		static const int MORE[] = {128, 200, 300, 255, 256, 1100};
		int kind = r.choose(7), bad = r.choose(3), n = r.choose(r.thorough ? 112 : 109);
		if (n > 105) n = MORE[n - 106];
		V d = kind < 3 ? V::list() : V::map(), s;
		for (int i = 0; i < n; ++i) {
			V x = bad && i == (bad == 1 ? n - 1 : n / 2) ? S("x") : I(i);
			if (kind < 3) d.l.push_back(x); else d.m[mc::fmt("k%d", i)] = x;
		}
		switch (kind) {
		case 0: s = M({{"items", INT}}); break;
		case 1: s = M({{"items", L({ANY})}, {"additionalItems", M({{"anyOf", L({M({{"type", S("null")}}), INT})}})}}); break;
		case 2: s = M({{"items", M({{"oneOf", L({STR, M({{"allOf", L({INT, M({{"minimum", I(0)}})})}})})}, {"not", STR}})}}); break;
		case 3: s = M({{"additionalProperties", INT}}); break;
		case 4: s = M({{"patternProperties", M({{"^k", INT}, {"0$", ANY}})}, {"additionalProperties", B(false)}}); break;
		case 5: { V p = V::map(); for (int i = 0; i < n; ++i) p.m[mc::fmt("k%d", i)] = M({{"type", S("integer")}, {"maximum", I(i)}}); s = M({{"properties", p}, {"additionalProperties", B(false)}}); break; }
		default: { V q = V::list(), p = V::map(); for (int i = 0; i < n; ++i) { q.l.push_back(S(mc::fmt("k%d", i))); p.m[mc::fmt("k%d", i)] = M({{"properties", M({{mc::fmt("k%d", i), INT}})}}); } s = M({{"dependencies", p}}); if (n) s.m["required"] = q; }
		}
		r.note("kind %d, %d members, %s wrong", kind, n, bad == 0 ? "none" : bad == 1 ? "the last" : "the middle one");
		Variant ls = ref::to(s);
		verdict(r, s, ls, d);
		r.state(mc::hash(mc::fmt("%d %d %d", kind, bad, n))); r.outcome(mc::fmt("%d%d", kind, bad));
	}, 2, true});
	c.spaces.push_back({"alternatives", "allOf, anyOf and oneOf with 1 to 6 alternatives (thorough 8), every pattern of those that accept and those that do not, in 4 forms", [](mc::Run &r) {
		static const char *N[] = {"allOf", "anyOf", "oneOf"};
		int k = r.choose(3), n = 1 + r.choose(r.thorough ? 8 : 6), bits = r.choose(1 << n), form = r.choose(4);
		V l = V::list();
		for (int i = 0; i < n; ++i) {
			bool yes = bits >> i & 1;
			V x = yes ? INT : STR;
			if (form == 1) x = yes ? M({{"minimum", I(i)}}) : M({{"maximum", I(i)}});
			if (form == 2) x = M({{i % 2 ? "anyOf" : "oneOf", L({NONE, yes ? INT : STR, STR})}});
			if (form == 3) x = yes ? M({{"not", M({{"enum", L({I(i)})}})}}) : M({{"not", INT}});
			l.l.push_back(x);
		}
		V s = M({{N[k], l}});
		judge(r, s, {I(50)});
		judge(r, M({{"items", s}}), {L({}), L({I(50)}), L({I(50), I(50)})});
		judge(r, M({{"properties", M({{"a", s}})}}), {M({}), M({{"a", I(50)}}), M({{"b", I(50)}})});
	}, 2, true});
	c.spaces.push_back({"repeats", "uniqueItems and enum on lists of 0 to 8 (thorough 10) members with one pair alike at each two places, or none, over 9 values and as members of lists and maps", [](mc::Run &r) {
		static const std::vector<V> SAME = {I(7), V::null(), B(true), S("x"), S(""), V::flt(0.5), L({}), M({}), M({{"a", L({I(1)})}})};
		int n = r.choose(r.thorough ? 11 : 9), i = r.choose(11), j = r.choose(11), w = r.choose(3);
		const V &v = r.pick(SAME);
		if (i >= j || (j >= n && !(i == 0 && j == 10))) return;
		V d = V::list();
		for (int k = 0; k < n; ++k) {
			V x = k == i || k == j ? v : I(100 + k);
			if (w == 1) x = L({I(1), x});
			if (w == 2) x = M({{"a", I(1)}, {"b", x}});
			d.l.push_back(x);
		}
		judge(r, M({{"uniqueItems", B(true)}}), {d});
		judge(r, M({{"uniqueItems", B(false)}}), {d});
		if (n) {
			// the list as a set of allowed values
			V wrapped = w == 1 ? L({I(1), v}) : w == 2 ? M({{"a", I(1)}, {"b", v}}) : v;
			std::vector<V> ds = d.l; ds.push_back(wrapped); ds.push_back(v); ds.push_back(I(99)); ds.push_back(L({I(1), I(99)})); ds.push_back(M({{"a", I(1)}, {"b", I(99)}})); ds.push_back(M({{"a", I(1)}, {"c", v}})); ds.push_back(d);
			judge(r, M({{"enum", d}}), ds);
		}
	}, 1, true});
	c.spaces.push_back({"members", "each keyword about members x values of 10 kinds for two of them: what matters is that a member is there, not what it is", [](mc::Run &r) {
		static const std::vector<V> VAL = {V::null(), B(false), B(true), I(0), I(1), V::flt(0), S(""), S("a"), L({}), M({}), M({{"a", V::null()}})};
		static const std::vector<V> SCH = {M({{"required", L({S("a")})}}), M({{"required", L({S("a"), S("b")})}}), M({{"dependencies", M({{"a", L({S("b")})}})}}), M({{"dependencies", M({{"a", L({S("b"), S("c")})}})}}), M({{"dependencies", M({{"a", M({{"required", L({S("b")})}})}})}}), M({{"dependencies", M({{"b", M({{"maxProperties", I(1)}})}, {"a", L({S("b")})}})}}),
			M({{"properties", M({{"a", ANY}})}, {"additionalProperties", B(false)}}), M({{"patternProperties", M({{"a", ANY}})}, {"additionalProperties", B(false)}}), M({{"properties", M({{"a", NONE}})}}), M({{"additionalProperties", NONE}}), M({{"patternProperties", M({{"a", NONE}})}}), M({{"properties", M({{"a", ANY}})}, {"additionalProperties", NONE}}), M({{"minProperties", I(2)}}), M({{"maxProperties", I(1)}}), M({{"not", M({{"required", L({S("a")})}})}}),
			M({{"properties", M({{"a", M({{"type", S("null")}})}, {"b", M({{"not", M({{"type", S("null")}})}})}})}}), M({{"properties", M({{"a", M({{"enum", L({V::null(), B(false), I(0), S("")})}})}})}}), M({{"properties", M({{"a", M({{"type", L({S("boolean"), S("array")})}})}})}})};
		static const std::vector<V> LS = {M({{"items", L({ANY})}, {"additionalItems", B(false)}}), M({{"items", L({ANY, NONE})}}), M({{"minItems", I(2)}}), M({{"maxItems", I(1)}}), M({{"items", NONE}}), M({{"uniqueItems", B(true)}}), M({{"items", L({NONE})}, {"additionalItems", B(false)}}), M({{"items", M({{"type", L({S("null"), S("object")})}})}})};
		int i = r.choose(SCH.size() + LS.size());
		const V &a = r.pick(VAL), &b = r.pick(VAL);
		if (i < int(SCH.size())) judge(r, SCH[i], {M({{"a", a}}), M({{"b", a}}), M({{"a", a}, {"b", b}}), M({{"a", a}, {"c", b}}), M({{"b", a}, {"c", b}})});
		else judge(r, LS[i - SCH.size()], {L({a}), L({a, b}), L({a, b, a})});
	}, 1, true});
	c.spaces.push_back({"deep", "schemas and data nested 0 to 40 deep in 6 ways, after a wide sibling or not, the innermost right or wrong", [](mc::Run &r) {
		int way = r.choose(6), n = r.choose(41), wide = r.choose(3);
		V s = INT, d = I(1), x = S("x");
		for (int i = 0; i < n; ++i) switch (way) {
		case 0: s = M({{"properties", M({{"b", s}})}}); d = M({{"b", d}}); x = M({{"b", x}}); break;
		case 1: s = M({{"items", s}}); d = L({d}); x = L({x}); break;
		case 2: s = M({{"allOf", L({ANY, s})}}); break;
		case 3: s = M({{"not", M({{"not", s}})}}); if (n > 20) return; break;
		case 4: s = i % 2 ? M({{"anyOf", L({NONE, s})}}) : M({{"oneOf", L({s, NONE})}}); break;
		case 5: s = i % 2 ? M({{"additionalProperties", s}}) : M({{"items", L({ANY})}, {"additionalItems", s}}); d = i % 2 ? M({{"b", d}}) : L({V::null(), d}); x = i % 2 ? M({{"b", x}}) : L({V::null(), x}); break;
		}
		if (wide) {
			// before it comes a list with many members, validated one by one
			V l = V::list();
			for (int i = 0; i < (wide == 1 ? 70 : 150); ++i) l.l.push_back(I(i));
			s = M({{"properties", M({{"a", M({{"items", M({{"allOf", L({INT})}})}})}, {"c", s}})}});
			d = M({{"a", l}, {"c", d}}); x = M({{"a", l}, {"c", x}});
		}
		judge(r, s, {d, x});
	}, 2, true});
	c.spaces.push_back({"decimals", "multiples of decimal fractions, as read from JSON", [](mc::Run &r) {
		static const std::vector<int> MUL = {1, 5, 10, 25, 100, 250, 1000, 2500, 15000}, DAT = {0, 1, 3, 5, 7, 10, 25, 30, 33, 75, 99, 100, 250, 300, 700, 1000, 3000, 7500, 10000, 12300, 15000, 30000, 45001, 190000};
		int m = r.pick(MUL), d = r.pick(DAT);
		bool neg = r.flip();
		std::string ms = mc::fmt("%d.%04d", m / 10000, m % 10000), ds = mc::fmt("%s%d.%04d", neg ? "-" : "", d / 10000, d % 10000);
		r.note("multipleOf %s, data %s", ms.c_str(), ds.c_str());
		Variant s = DeserializeJSON("{\"multipleOf\":" + ms + "}"), x = DeserializeJSON("[" + ds + "]");
		bool got = !SchemaValidate(s, x[0]).Error();
		r.step(1); r.state(mc::hash(ms + ds)); r.outcome(got ? "1" : "0");
		r.check(got == (d % m == 0), "decimal", got ? "accepted" : "refused");
	}, 1, true});
	c.spaces.push_back({"formats", "date-time: 6 dates x 5 times x 4 fractions x 5 zones, and each with one character changed to x or left out (not the zone Z, nor of a fraction); date, time, regex tables", [](mc::Run &r) {
		static const std::vector<std::string> D = {"2014-01-01", "0000-12-31", "9999-10-09", "1999-02-28", "2000-02-29", "2016-11-30"}, T = {"00:00:00", "23:59:59", "12:30:60", "09:08:07", "19:00:00"}, F = {"", ".0", ".5", ".123456789"}, Z = {"Z", "+00:00", "-01:30", "+23:59", "-12:00"};
		static const std::vector<std::pair<std::string, std::string>> BAD = {{"date", ""}, {"date", "2014-1-1"}, {"date", "2014/01/01"}, {"date", "x2014-01-01"}, {"date", "2014-01-01x"}, {"date", "2014-91-01"}, {"time", ""}, {"time", "1:02:03"}, {"time", "12:60:00"}, {"time", "12:00:61"}, {"time", "12:00"}, {"time", "12:00:00x"}, {"regex", "("}, {"regex", "[a"}, {"date-time", ""}, {"date-time", "yesterday"}, {"date-time", "14-01-01T00:00:00Z"}, {"date-time", "2014-01-01 00:00:00Zx"}};
		std::string f, x;
		bool want = true;
		int k = r.choose(5);
		if (k == 0) { f = "date-time"; std::string d = r.pick(D), t = r.pick(T), fr = r.pick(F), z = r.pick(Z); x = d + "T" + t + fr + z; int i = r.choose(x.size() + 1); bool gone = r.flip(); if (i) { if (gone) { size_t e = 1 + d.size() + t.size(); if (x[i - 1] == 'Z' || (size_t(i) > e && size_t(i) <= e + fr.size())) return; x.erase(i - 1, 1); } else x[i - 1] = 'x'; want = false; } }
		else if (k == 1) { f = "date"; x = r.pick(D); }
		else if (k == 2) { f = "time"; x = r.pick(T); if (x == "12:30:60") return; }
		else if (k == 3) { f = "regex"; x = r.pick(std::vector<std::string>{"", "a", "^a+[b-d]*$", "(a|b)"}); }
		else { auto &b = r.pick(BAD); f = b.first; x = b.second; want = false; }
		r.note("format %s, data %s", f.c_str(), mc::q(x).c_str());
		bool got = !SchemaValidate(Variant().Set("format", f), x).Error();
		r.step(1); r.state(mc::hash(f + x)); r.outcome(f + (got ? "1" : "0"));
		r.check(got == want, "format", got ? "accepted" : "refused");
		r.check(!SchemaValidate(Variant().Set("format", f), 1).Error(), "format-type", "a number is refused");
	}, 2, true});
	c.spaces.push_back({"wrong-schemas", mc::fmt("%zu wrong keyword settings alone and with each other keyword x the data: an answer, no exception; refused by the meta-schema, which accepts every right one", INVALID.size()), [](mc::Run &r) {
		static const std::string META = "http://json-schema.org/draft-04/schema#";
		int i = r.choose(INVALID.size() + 1), j = r.choose(KW.size() + 1);
		V s = V::map();
		if (j) s.m[KW[j - 1].first] = KW[j - 1].second;
		if (i) s.m[INVALID[i - 1].first] = INVALID[i - 1].second;
		r.note("schema %s", ref::show(s).c_str());
		Variant ls = ref::to(s);
		bool meta = !SchemaValidate(META, ls).Error();
		bool right = !(s.m.count("items") && s.m["items"].k == V::List && s.m["items"].l.empty());
		if (i) right = right && (INVALID[i - 1].first == "exclusiveMinimum" && s.m.count("minimum"));
		r.step(1); r.state(mc::hash(ref::show(s))); r.outcome(meta ? "1" : "0");
		r.check(meta == right, "meta", meta ? "the meta-schema accepts it" : "the meta-schema refuses it");
		for (auto &d : DATA) {
			Variant ld = ref::to(d);
			bool threw = false; std::string what;
			try { (void)SchemaValidate(ls, ld).PrettyPrintMessage(); } catch (std::exception &e) { threw = true; what = e.what(); }
			r.step(1);
			r.check(!threw, "throws", "validating %s raises %s", ref::show(d).c_str(), what.c_str());
		}
	}, 1, true});
	c.spaces.push_back({"older-and-broken", "draft 3 spellings (divisibleBy, a dependency on one key), the formats the validator knows but does not check on 16 right values, and 5 regular expressions that are none as pattern and patternProperties beside each other keyword, x the data", [](mc::Run &r) {
		int k = r.choose(4);
		V s = V::map();
		if (k == 0) {
			static const std::vector<V> N = {V::integer(1), V::integer(3), V::uinteger(7), V::flt(.5), V::flt(2.0)};
			static const std::vector<V> D = {V::integer(0), V::integer(-6), V::integer(7), V::uinteger(21), V::flt(1.5), V::flt(-4.5), V::flt(.25), V::str("7"), V::null()};
			V n = r.pick(N), d = r.pick(D);
			r.note("divisibleBy %s, data %s", ref::show(n).c_str(), ref::show(d).c_str());
			bool got = !SchemaValidate(ref::to(V::map({{"divisibleBy", n}})), ref::to(d)).Error();
			bool want = REF.valid(V::map({{"multipleOf", n}}), d);
			r.step(1); r.state(mc::hash(ref::show(n) + ref::show(d)));
			r.check(got == want, "verdict", got ? "accepted" : "refused");
		} else if (k == 1) {
			int has = r.choose(8), form = r.choose(2);
			V d = V::map(), dep = V::map();
			if (has & 1) d.m["a"] = V::integer(1);
			if (has & 2) d.m["b"] = V::null();
			if (has & 4) d.m["c"] = V::integer(1);
			dep.m["a"] = form ? V::list({V::str("b")}) : V::str("b");
			dep.m["c"] = form ? V::str("a") : V::list({V::str("a"), V::str("b")});
			r.note("dependencies %s, data %s", ref::show(dep).c_str(), ref::show(d).c_str());
			bool got = !SchemaValidate(ref::to(V::map({{"dependencies", dep}})), ref::to(d)).Error();
			bool want = !((has & 1) && !(has & 2)) && !((has & 4) && !(has & 1)) && !(!form && (has & 4) && !(has & 2));
			r.step(1); r.state(mc::hash(ref::show(dep) + ref::show(d)));
			r.check(got == want, "verdict", got ? "accepted" : "refused");
		} else if (k == 2) {
			static const std::vector<std::pair<std::string, std::string>> F = {{"email", "joe.bloggs@example.com"}, {"email", "a+b@c.d"}, {"hostname", "example.com"}, {"hostname", "a"}, {"hostname", "x-1.y-2.org"}, {"ipv4", "127.0.0.1"}, {"ipv4", "255.255.255.255"}, {"ipv4", "0.0.0.0"},
				{"ipv6", "::1"}, {"ipv6", "2001:db8::1"}, {"ipv6", "1:2:3:4:5:6:7:8"}, {"ipv6", "::ffff:1.2.3.4"}, {"uri", "http://example.com/a?b#c"}, {"uri", "urn:isbn:1"}, {"uri", "mailto:a@b.c"}, {"no-such-format", "anything"}};
			auto &f = r.pick(F);
			r.note("format %s, data %s", f.first.c_str(), f.second.c_str());
			r.step(1); r.state(mc::hash(f.first + f.second));
			r.check(!SchemaValidate(Variant().Set("format", f.first), f.second).Error(), "format", "refused");
		} else {
			static const std::vector<std::string> B = {"(", "[a", "a{2,1}", "(a|b))(", "\\"};
			std::string b = r.pick(B);
			bool members = r.flip();
			int j = r.choose(KW.size() + 1);
			if (j) s.m[KW[j - 1].first] = KW[j - 1].second;
			if (members) s.m["patternProperties"] = V::map({{b, V::map()}, {"^q", V::map({{"type", V::str("null")}})}}); else s.m["pattern"] = V::str(b);
			r.note("schema %s", ref::show(s).c_str());
			r.state(mc::hash(ref::show(s)));
			Variant ls = ref::to(s);
			for (auto &d : DATA) {
				Variant ld = ref::to(d);
				SchemaResult res = SchemaValidate(ls, ld);
				r.step(1);
				(void)res.PrettyPrintMessage();
				if (members ? d.k == V::Map : d.k == V::Str) r.check((res.SchemaErrors() && !res.GetSchemaErrors().empty()) || (j && res.Error()), "broken", "nothing is reported for %s", ref::show(d).c_str());
				else {
					V t = s; t.m.erase(members ? "patternProperties" : "pattern");
					bool want = REF.valid(t, d);
					if (d.isnum() && std::abs(ref::sc_num(d)) > 1e15L && fraction(s)) continue;
					r.check(!res.Error() == want, "verdict", "%s is %s", ref::show(d).c_str(), res.Error() ? "refused" : "accepted");
				}
			}
		}
	}, 1, true});
	return mc::run(argc, argv, c);
}
