// Element addressing on reference values.
#pragma once
#include "ref.hpp"
#include <Variant/Path.h>

namespace ref {
struct Step { bool idx; unsigned i; std::string k; };
inline Step key(const std::string &k) { return {false, 0, k}; }
inline Step at(unsigned i) { return {true, i, ""}; }
typedef std::vector<Step> Steps;

inline std::string show(const Steps &p) {
	std::string o;
	for (auto &s : p) o += s.idx ? mc::fmt("[%u]", s.i) : "/" + mc::q(s.k);
	return o.empty() ? "(root)" : o;
}
inline libvariant::Path lib(const Steps &p) {
	libvariant::Path o;
	for (auto &s : p) { if (s.idx) o.push_back(libvariant::PathElement(s.i)); else o.push_back(libvariant::PathElement(s.k)); }
	return o;
}
inline std::string text(const Steps &p) {
	std::string o;
	for (auto &s : p) {
		if (s.idx) { o += mc::fmt("[%u]", s.i); continue; }
		o += "/";
		for (char c : s.k) { if (strchr("/[]\\", c) && c) o += '\\'; o += c; }
	}
	return o.empty() ? "/" : o;
}

inline V *find(V &v, const Steps &p, size_t n = SIZE_MAX) {
	V *x = &v;
	for (size_t i = 0; i < p.size() && i < n; ++i) {
		if (p[i].idx) { if (x->k != V::List || p[i].i >= x->l.size()) return 0; x = &x->l[p[i].i]; }
		else { if (x->k != V::Map) return 0; auto it = x->m.find(p[i].k); if (it == x->m.end()) return 0; x = &it->second; }
	}
	return x;
}
// Store val at p, creating containers where there is nothing or null.  False (and v unchanged)
// if the path leads through something else.
inline bool set(V &v, const Steps &p, const V &val) {
	V copy = v, *x = &copy;
	for (auto &s : p) {
		if (s.idx) {
			if (x->k == V::Null) *x = V::list();
			if (x->k != V::List) return false;
			if (x->l.size() <= s.i) x->l.resize(s.i + 1);
			x = &x->l[s.i];
		} else {
			if (x->k == V::Null) *x = V::map();
			if (x->k != V::Map) return false;
			x = &x->m[s.k];
		}
	}
	*x = val;
	v = copy;
	return true;
}
} // namespace ref
