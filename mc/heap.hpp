// A reference heap: variables and container elements are cells; a cell holds a scalar or
// names a container, and several cells may name the same container.
#pragma once
#include "ref.hpp"

namespace heap {
using ref::V;
struct Cont;
typedef std::shared_ptr<Cont> CP;
struct Cell {
	V v;              // scalar, when c is empty
	CP c;
	Cell() {}
	Cell(const V &x) : v(x) {}
	Cell(const CP &p) : c(p) {}
	bool null() const { return !c && v.k == V::Null; }
	bool list() const;
	bool map() const;
};
struct Cont {
	bool is_list;
	std::vector<Cell> l;
	std::map<std::string, Cell> m;
};
inline bool Cell::list() const { return c && c->is_list; }
inline bool Cell::map() const { return c && !c->is_list; }
inline CP new_list(std::vector<Cell> l = {}) { CP p(new Cont{true, l, {}}); return p; }
inline CP new_map(std::map<std::string, Cell> m = {}) { CP p(new Cont{false, {}, m}); return p; }

inline Cell deep(const Cell &x) {
	if (!x.c) return x;
	CP p(new Cont{x.c->is_list, {}, {}});
	for (auto &e : x.c->l) p->l.push_back(deep(e));
	for (auto &e : x.c->m) p->m[e.first] = deep(e.second);
	return p;
}
inline bool reaches(const Cell &x, const CP &t) {
	if (!x.c) return false;
	if (x.c == t) return true;
	for (auto &e : x.c->l) if (reaches(e, t)) return true;
	for (auto &e : x.c->m) if (reaches(e.second, t)) return true;
	return false;
}
inline void show(const Cell &x, std::map<const Cont *, int> &ids, std::string &o) {
	if (!x.c) { ref::show(x.v, o); return; }
	auto it = ids.find(x.c.get());
	if (it != ids.end()) { o += mc::fmt("*%d", it->second); return; }
	int id = ids.size(); ids[x.c.get()] = id;
	o += mc::fmt("&%d", id) + (x.list() ? "[" : "{");
	bool f = true;
	for (auto &e : x.c->l) { if (!f) o += ","; f = false; show(e, ids, o); }
	for (auto &e : x.c->m) { if (!f) o += ","; f = false; o += mc::q(e.first) + ":"; show(e.second, ids, o); }
	o += x.list() ? "]" : "}";
}
inline V value(const Cell &x) {
	if (!x.c) return x.v;
	V v = x.list() ? V::list() : V::map();
	for (auto &e : x.c->l) v.l.push_back(value(e));
	for (auto &e : x.c->m) v.m[e.first] = value(e.second);
	return v;
}

// Does the library value have this content and this sharing?  ids maps container addresses to
// model containers and must stay one to one.
struct Match {
	std::map<const void *, const Cont *> fwd;
	std::map<const Cont *, const void *> bwd;
	std::string why;
	bool pair(const void *a, const Cont *c) {
		auto i = fwd.find(a); auto j = bwd.find(c);
		if (i == fwd.end() && j == bwd.end()) { fwd[a] = c; bwd[c] = a; return true; }
		if (i != fwd.end() && i->second == c) return true;
		why = i == fwd.end() ? "two values that must share one container have separate ones" : "two values that must be separate share one container";
		return false;
	}
	bool operator()(const libvariant::Variant &x, const Cell &m) {
		using libvariant::Variant;
		if (m.c) {
			if (m.c->is_list) {
				if (!x.IsList()) { why = "a list is expected"; return false; }
				const Variant::List &l = x.AsList();
				if (!pair(&l, m.c.get())) return false;
				if (l.size() != m.c->l.size() || x.Size() != l.size() || x.Empty() != l.empty()) { why = mc::fmt("list of %zu elements instead of %zu", l.size(), m.c->l.size()); return false; }
				for (size_t i = 0; i < l.size(); ++i) if (!(*this)(l[i], m.c->l[i])) return false;
			} else {
				if (!x.IsMap()) { why = "a map is expected"; return false; }
				const Variant::Map &mm = x.AsMap();
				if (!pair(&mm, m.c.get())) return false;
				if (mm.size() != m.c->m.size() || x.Size() != mm.size() || x.Empty() != mm.empty()) { why = mc::fmt("map of %zu elements instead of %zu", mm.size(), m.c->m.size()); return false; }
				auto j = m.c->m.begin();
				for (auto &e : mm) { if (e.first != j->first) { why = "wrong key " + mc::q(e.first); return false; } if (!(*this)(e.second, j->second)) return false; ++j; }
			}
			return true;
		}
		if (x.IsList() || x.IsMap()) { why = "a container appears where " + ref::show(m.v) + " is expected"; return false; }
		V v = ref::from(x);
		if (v.k != m.v.k || !ref::same(v, m.v)) { why = ref::show(v) + " instead of " + ref::show(m.v); return false; }
		return true;
	}
};
} // namespace heap
