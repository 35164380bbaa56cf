// JSON Schema draft 4 on reference values.
#pragma once
#include "ref.hpp"
#include <regex>
#include <functional>
#include <cmath>

namespace ref {
inline long double sc_num(const V &v) { return v.k == V::Flt ? (long double)v.f : v.k == V::Int ? (long double)v.i : (long double)v.u; }
inline bool sc_equal(const V &a, const V &b) {
	if (a.isnum() && b.isnum()) return sc_num(a) == sc_num(b);
	if (a.k != b.k) return false;
	if (a.k == V::List) { if (a.l.size() != b.l.size()) return false; for (size_t i = 0; i < a.l.size(); ++i) if (!sc_equal(a.l[i], b.l[i])) return false; return true; }
	if (a.k == V::Map) { if (a.m.size() != b.m.size()) return false; for (auto &e : a.m) { auto it = b.m.find(e.first); if (it == b.m.end() || !sc_equal(e.second, it->second)) return false; } return true; }
	return same(a, b);
}
inline size_t sc_chars(const std::string &s) { size_t n = 0; for (unsigned char c : s) n += (c & 0xc0) != 0x80; return n; }
inline bool sc_match(const std::string &p, const std::string &s) { static std::map<std::string, std::regex> cache; auto it = cache.find(p); if (it == cache.end()) it = cache.emplace(p, std::regex(p)).first; return std::regex_search(s, it->second); }
// Numbers that are exact in binary
inline bool sc_multiple(const V &d, const V &m) {
	if (d.k != V::Flt && m.k != V::Flt) {
		__int128 x = d.k == V::Int ? (__int128)d.i : (__int128)d.u, y = m.k == V::Int ? (__int128)m.i : (__int128)m.u;
		return x % y == 0;
	}
	return fmodl(sc_num(d), sc_num(m)) == 0;
}
inline bool sc_type(const std::string &t, const V &d) {
	if (t == "array") return d.k == V::List;
	if (t == "boolean") return d.k == V::Bool;
	if (t == "integer") return d.k == V::Int || d.k == V::Uint || (d.k == V::Flt && d.f == std::floor(d.f));
	if (t == "null") return d.k == V::Null;
	if (t == "number") return d.isnum();
	if (t == "object") return d.k == V::Map;
	return d.k == V::Str;
}

struct Schema {
	std::function<const V *(const std::string &)> resolve;      // the schema a reference names
	static const V *get(const V &s, const char *k) { auto it = s.m.find(k); return it == s.m.end() ? 0 : &it->second; }
	bool valid(const V &s, const V &d, int depth = 0) const {
		if (s.k != V::Map || depth > 60) return true;
		const V *x, *y;
		if (resolve && (x = get(s, "$ref"))) { const V *t = resolve(x->s); return t && valid(*t, d, depth + 1); }
		auto ok = [&](const V &sub, const V &dat) { return valid(sub, dat, depth + 1); };
		if ((x = get(s, "type"))) {
			bool hit = false;
			if (x->k == V::List) { for (auto &t : x->l) hit |= sc_type(t.s, d); } else hit = sc_type(x->s, d);
			if (!hit) return false;
		}
		if ((x = get(s, "enum"))) { bool hit = false; for (auto &e : x->l) hit |= sc_equal(e, d); if (!hit) return false; }
		if ((x = get(s, "allOf"))) for (auto &e : x->l) if (!ok(e, d)) return false;
		if ((x = get(s, "anyOf"))) { bool hit = false; for (auto &e : x->l) hit |= ok(e, d); if (!hit) return false; }
		if ((x = get(s, "oneOf"))) { int n = 0; for (auto &e : x->l) n += ok(e, d); if (n != 1) return false; }
		if ((x = get(s, "not"))) if (ok(*x, d)) return false;
		if (d.isnum()) {
			if ((x = get(s, "multipleOf")) && !sc_multiple(d, *x)) return false;
			if ((x = get(s, "minimum"))) { long double a = sc_num(d), b = sc_num(*x); bool e = (y = get(s, "exclusiveMinimum")) && y->b; if (e ? a <= b : a < b) return false; }
			if ((x = get(s, "maximum"))) { long double a = sc_num(d), b = sc_num(*x); bool e = (y = get(s, "exclusiveMaximum")) && y->b; if (e ? a >= b : a > b) return false; }
		}
		auto few = [&](const char *k, size_t n) { const V *z = get(s, k); return z && n < (size_t)sc_num(*z); };
		auto many = [&](const char *k, size_t n) { const V *z = get(s, k); return z && n > (size_t)sc_num(*z); };
		if (d.k == V::Str) {
			size_t n = sc_chars(d.s);
			if (few("minLength", n) || many("maxLength", n)) return false;
			if ((x = get(s, "pattern")) && !sc_match(x->s, d.s)) return false;
		}
		if (d.k == V::List) {
			if (few("minItems", d.l.size()) || many("maxItems", d.l.size())) return false;
			if ((x = get(s, "uniqueItems")) && x->b) for (size_t i = 0; i < d.l.size(); ++i) for (size_t j = 0; j < i; ++j) if (sc_equal(d.l[i], d.l[j])) return false;
			if ((x = get(s, "items"))) {
				if (x->k == V::Map) { for (auto &e : d.l) if (!ok(*x, e)) return false; }
				else for (size_t i = 0; i < d.l.size(); ++i) {
					if (i < x->l.size()) { if (!ok(x->l[i], d.l[i])) return false; }
					else if ((y = get(s, "additionalItems"))) { if (y->k == V::Bool ? !y->b : !ok(*y, d.l[i])) return false; }
				}
			}
		}
		if (d.k == V::Map) {
			if (few("minProperties", d.m.size()) || many("maxProperties", d.m.size())) return false;
			if ((x = get(s, "required"))) for (auto &e : x->l) if (!d.m.count(e.s)) return false;
			for (auto &e : d.m) {
				bool hit = false;
				if ((x = get(s, "properties")) && x->m.count(e.first)) { hit = true; if (!ok(x->m.at(e.first), e.second)) return false; }
				if ((x = get(s, "patternProperties"))) for (auto &p : x->m) if (sc_match(p.first, e.first)) { hit = true; if (!ok(p.second, e.second)) return false; }
				if (!hit && (x = get(s, "additionalProperties"))) { if (x->k == V::Bool ? !x->b : !ok(*x, e.second)) return false; }
			}
			if ((x = get(s, "dependencies"))) for (auto &e : x->m) if (d.m.count(e.first)) {
				if (e.second.k == V::List) { for (auto &k : e.second.l) if (!d.m.count(k.s)) return false; }
				else if (!ok(e.second, d)) return false;
			}
		}
		return true;
	}
};
} // namespace ref
