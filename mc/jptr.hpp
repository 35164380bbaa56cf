// JSON Pointer (RFC 6901) and JSON Patch (RFC 6902) on reference values.
#pragma once
#include "ref.hpp"

namespace ref {
typedef std::vector<std::string> Toks;

inline bool jp_parse(const std::string &p, Toks &t) {
	if (p.empty()) return true;
	if (p[0] != '/') return false;
	t.emplace_back();
	for (size_t i = 1; i < p.size(); ++i) {
		if (p[i] == '/') t.emplace_back();
		else if (p[i] == '~') {
			if (++i == p.size() || (p[i] != '0' && p[i] != '1')) return false;
			t.back() += p[i] == '0' ? '~' : '/';
		} else t.back() += p[i];
	}
	return true;
}
inline std::string jp_text(const Toks &t) {
	std::string o;
	for (auto &k : t) { o += '/'; for (char c : k) { if (c == '~') o += "~0"; else if (c == '/') o += "~1"; else o += c; } }
	return o;
}
inline bool jp_index(const std::string &t, size_t &i) {
	if (t.empty() || t.size() > 9 || t.find_first_not_of("0123456789") != std::string::npos || (t.size() > 1 && t[0] == '0')) return false;
	i = atol(t.c_str());
	return true;
}
inline V *jp_child(V *x, const std::string &t) {
	size_t i;
	if (x->k == V::Map) { auto it = x->m.find(t); return it == x->m.end() ? 0 : &it->second; }
	if (x->k == V::List) return jp_index(t, i) && i < x->l.size() ? &x->l[i] : 0;
	return 0;
}
inline V *jp_find(V &d, const Toks &t, size_t n) {
	V *x = &d;
	for (size_t i = 0; i < n && x; ++i) x = jp_child(x, t[i]);
	return x;
}
inline V *jp_find(V &d, const Toks &t) { return jp_find(d, t, t.size()); }

inline bool jp_add(V &d, const Toks &t, const V &val) {
	if (t.empty()) { d = val; return true; }
	V *x = jp_find(d, t, t.size() - 1);
	if (!x) return false;
	if (x->k == V::Map) { x->m[t.back()] = val; return true; }
	if (x->k != V::List) return false;
	size_t i;
	if (t.back() == "-") i = x->l.size(); else if (!jp_index(t.back(), i) || i > x->l.size()) return false;
	V copy = val;
	x->l.insert(x->l.begin() + i, copy);
	return true;
}
inline bool jp_remove(V &d, const Toks &t, V &out) {
	V *y = jp_find(d, t);
	if (!y) return false;
	out = *y;
	if (t.empty()) { d = V::null(); return true; }
	V *x = jp_find(d, t, t.size() - 1);
	if (x->k == V::Map) x->m.erase(t.back());
	else { size_t i; jp_index(t.back(), i); x->l.erase(x->l.begin() + i); }
	return true;
}
inline bool jp_replace(V &d, const Toks &t, const V &val) {
	V *x = jp_find(d, t);
	if (!x) return false;
	V copy = val;
	*x = copy;
	return true;
}
// d is unchanged if this fails
inline bool jp_move(V &d, const Toks &from, const Toks &to) {
	if (from.size() < to.size() && std::equal(from.begin(), from.end(), to.begin())) return false;
	V c = d, v;
	if (!jp_remove(c, from, v) || !jp_add(c, to, v)) return false;
	d = c;
	return true;
}
inline bool jp_copy(V &d, const Toks &from, const Toks &to) {
	V *x = jp_find(d, from);
	if (!x) return false;
	V v = *x;
	return jp_add(d, to, v);
}
} // namespace ref
