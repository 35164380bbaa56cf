// Keyword settings, data and ways to combine schemas, for the checks of validation.
#pragma once
#include "schema.hpp"
using ref::V;

static V L(std::vector<V> v) { return V::list(v); }
static V M(std::map<std::string, V> m) { return V::map(m); }
static V I(int i) { return V::integer(i); }
static V S(const std::string &s) { return V::str(s); }
static V B(bool b) { return V::boolean(b); }

typedef std::pair<std::string, V> KV;
static const V INT = M({{"type", S("integer")}}), STR = M({{"type", S("string")}}), ANY = V::map(), NONE = M({{"not", V::map()}});

static std::vector<KV> keywords() {
	std::vector<KV> k;
	for (auto &t : {"array", "boolean", "integer", "null", "number", "object", "string"}) k.push_back({"type", S(t)});
	k.push_back({"type", L({S("integer"), S("string")})}); k.push_back({"type", L({S("null")})}); k.push_back({"type", L({S("object"), S("array"), S("number")})});
	for (auto &e : std::vector<V>{L({I(1)}), L({V::flt(1)}), L({B(true), V::null()}), L({S("a"), L({I(1)})}), L({M({{"a", I(1)}}), M({})}), L({S("1"), S(""), I(0)}), L({L({S("a")}), L({}), B(false)})}) k.push_back({"enum", e});
	for (auto &m : std::vector<V>{I(1), I(2), I(3), V::uinteger(3), V::flt(0.5), V::flt(1.5), I(7)}) k.push_back({"multipleOf", m});
	for (auto &m : std::vector<V>{I(0), I(1), V::uinteger(1), V::flt(0.5), I(-3), V::integer(9007199254740993LL), V::uinteger(18446744073709551615ULL)}) { k.push_back({"minimum", m}); k.push_back({"maximum", m}); }
	for (int i : {0, 1, 2, 3}) for (auto &n : {"minLength", "maxLength", "minItems", "maxItems", "minProperties", "maxProperties"}) k.push_back({n, I(i)});
	for (auto &p : {"a", "^a$", "b$", "^[0-9]+$", "a.c", "x*", "^(a|b)c?$", "^$"}) k.push_back({"pattern", S(p)});
	k.push_back({"uniqueItems", B(true)}); k.push_back({"uniqueItems", B(false)});
	for (auto &s : {ANY, INT, STR, NONE}) { k.push_back({"items", s}); k.push_back({"additionalProperties", s}); k.push_back({"additionalItems", s}); k.push_back({"not", s}); }
	k.push_back({"items", L({})}); k.push_back({"items", L({INT})}); k.push_back({"items", L({STR, INT})});
	for (bool b : {false, true}) { k.push_back({"additionalItems", B(b)}); k.push_back({"additionalProperties", B(b)}); }
	for (auto &q : std::vector<V>{L({S("a")}), L({S("a"), S("b")}), L({S("")})}) k.push_back({"required", q});
	for (auto &q : std::vector<V>{M({}), M({{"a", INT}}), M({{"a", STR}, {"b", INT}}), M({{"c", NONE}}), M({{"id", INT}, {"enum", STR}})}) k.push_back({"properties", q});
	for (auto &q : std::vector<V>{M({{"a", INT}}), M({{"^b", STR}, {"b$", INT}}), M({{"", INT}}), M({})}) k.push_back({"patternProperties", q});
	for (auto &q : std::vector<V>{M({{"a", L({S("b")})}}), M({{"b", L({S("a"), S("c")})}}), M({{"a", M({{"maxProperties", I(1)}})}}), M({{"a", M({{"properties", M({{"a", INT}})}})}, {"c", L({S("a")})}}), M({})}) k.push_back({"dependencies", q});
	for (auto &n : {"allOf", "anyOf", "oneOf"}) for (auto &q : std::vector<V>{L({INT}), L({INT, STR}), L({M({{"minimum", I(0)}}), INT}), L({NONE}), L({ANY, INT, NONE}), L({M({{"minLength", I(1)}}), M({{"maxLength", I(1)}}), M({{"type", S("object")}})})}) k.push_back({n, q});
	return k;
}
static std::vector<V> data() {
	std::vector<V> d = {V::null(), B(false), B(true), I(0), I(1), I(2), I(3), I(-3), I(-6), I(-7), V::uinteger(1), V::uinteger(6), V::flt(0), V::flt(1), V::flt(0.5), V::flt(1.5), V::flt(-0.5), V::flt(-1.25), V::flt(-3), V::integer(9007199254740992LL), V::integer(9007199254740993LL), V::uinteger(18446744073709551615ULL), V::uinteger(18446744073709551614ULL), V::integer(INTMAX_MIN), V::flt(4294967296.0), V::flt(-8589934592.0), V::flt(4294967296.5),
		S(""), S("a"), S("1"), S("12"), S("abc"), S("\xc3\xa9"), S("\xf0\x9f\x98\x80\xf0\x9f\x98\x80"), S("bb"), S("ac"),
		L({}), L({I(1)}), L({S("a")}), L({I(1), I(1)}), L({I(1), V::flt(1)}), L({I(1), B(true)}), L({I(0), B(false), V::null()}), L({S("a"), I(1), S("b")}), L({L({I(1)}), L({S("a")})}), L({M({{"a", I(1)}}), M({{"a", S("x")}})}), L({M({{"a", I(1)}}), M({{"a", I(1)}})}), L({V::null(), V::null()}), L({S("1"), I(1)}), L({L({}), M({})}), L({S("a"), I(2), I(3), I(4)}),
		M({}), M({{"a", I(1)}}), M({{"a", S("x")}}), M({{"b", I(1)}}), M({{"a", I(1)}, {"b", I(2)}}), M({{"a", I(1)}, {"b", S("x")}}), M({{"a", S("x")}, {"b", I(1)}, {"c", V::null()}}), M({{"c", I(1)}}), M({{"b", S("x")}, {"c", I(1)}}), M({{"ab", I(1)}}), M({{"bab", I(1)}}), M({{"", I(1)}}), M({{"id", S("x")}}), M({{"enum", I(1)}}), M({{"a", L({M({{"a", I(1)}})})}}), M({{"a", M({{"a", I(1)}})}})};
	return d;
}
static const std::vector<KV> KW = keywords();
static const std::vector<V> DATA = data();

// a pool of schemas to nest
static std::vector<V> pool(bool big) {
	std::vector<V> p = {ANY, INT, STR, NONE, M({{"minimum", I(1)}}), M({{"minLength", I(1)}}), M({{"required", L({S("a")})}}), M({{"items", INT}}), M({{"properties", M({{"a", INT}})}}), M({{"enum", L({I(1), S("a"), L({I(1)})})}}), M({{"maxItems", I(1)}}), M({{"additionalProperties", B(false)}})};
	if (big) { p.push_back(M({{"multipleOf", I(2)}})); p.push_back(M({{"pattern", S("^a")}})); p.push_back(M({{"uniqueItems", B(true)}})); p.push_back(M({{"type", S("object")}})); p.push_back(M({{"dependencies", M({{"a", L({S("b")})}})}})); }
	return p;
}
static const std::vector<V> POOL = pool(false), POOLB = pool(true);
static std::vector<V> fewer() {
	std::vector<V> o;
	for (auto &d : DATA) if (!d.isnum() || (d.k != V::Uint && std::abs(ref::sc_num(d)) < 3 && d.k == V::Int)) if (d.k != V::Str || d.s.size() < 2) o.push_back(d);
	return o;
}
static const std::vector<V> NDATA = fewer();
static const int NWRAP = 16;
static V wrap(int w, const V &a, const V &b) {
	switch (w) {
	case 0: return M({{"not", a}});
	case 1: return M({{"allOf", L({a, b})}});
	case 2: return M({{"anyOf", L({a, b})}});
	case 3: return M({{"oneOf", L({a, b})}});
	case 4: return M({{"properties", M({{"a", a}, {"b", b}})}});
	case 5: return M({{"items", a}, {"not", b}});
	case 6: return M({{"items", L({a})}, {"additionalItems", b}});
	case 7: return M({{"properties", M({{"a", a}})}, {"additionalProperties", b}});
	case 8: return M({{"patternProperties", M({{"a", a}, {"^.$", b}})}, {"additionalProperties", B(false)}});
	case 9: return M({{"dependencies", M({{"a", a}, {"b", b}})}});
	case 10: return M({{"oneOf", L({a, b, a})}});
	case 11: return M({{"not", M({{"anyOf", L({a, b})}})}});
	case 12: return M({{"allOf", L({a})}, {"anyOf", L({b})}});
	case 13: return M({{"properties", M({{"a", a}})}, {"patternProperties", M({{"a", b}})}});
	case 14: return M({{"items", L({a, b})}, {"additionalItems", B(false)}});
	default: return M({{"oneOf", L({M({{"not", a}}), b})}});
	}
}

static const std::vector<KV> INVALID = {{"type", S("foo")}, {"type", I(1)}, {"type", L({S("foo")})}, {"type", L({})}, {"enum", L({})}, {"enum", I(1)}, {"multipleOf", I(0)}, {"multipleOf", I(-1)}, {"multipleOf", V::flt(0)}, {"multipleOf", S("a")}, {"minimum", S("a")}, {"maximum", V::null()}, {"minLength", I(-1)}, {"minLength", S("a")}, {"maxLength", V::null()}, {"pattern", I(1)}, {"pattern", L({})}, {"minItems", S("x")}, {"maxItems", L({})}, {"uniqueItems", I(1)}, {"items", I(1)}, {"items", L({I(1)})}, {"additionalItems", I(1)},
	{"required", L({})}, {"required", S("a")}, {"required", L({I(1)})}, {"required", L({S("a"), S("a")})}, {"properties", L({})}, {"properties", M({{"a", I(1)}})}, {"patternProperties", I(1)}, {"additionalProperties", I(1)}, {"dependencies", I(1)}, {"dependencies", M({{"a", I(1)}})}, {"dependencies", M({{"a", L({I(1)})}})}, {"dependencies", M({{"a", L({})}})}, {"allOf", I(1)}, {"allOf", L({})}, {"anyOf", M({})}, {"anyOf", L({})}, {"oneOf", L({I(1)})}, {"oneOf", S("x")}, {"not", I(1)}, {"not", L({})}, {"exclusiveMinimum", B(true)}, {"exclusiveMaximum", I(1)}, {"minProperties", S("a")}, {"maxProperties", I(-1)}, {"title", I(1)}, {"description", L({})}, {"definitions", M({{"a", I(1)}})}, {"id", I(1)}, {"$schema", I(1)}};
