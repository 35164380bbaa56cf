// P11: containers are shared, everything else is independent.
#include "heap.hpp"
using namespace libvariant;
using heap::Cell;
using ref::V;

static const unsigned BIG = UINT_MAX;
static std::string pct(int i) { return std::string(1, (char)('x' + i)); }

struct Sys {
	int n;
	std::vector<Variant> x;     // the library's variables
	std::vector<Cell> m;        // the model's
	Sys(int k) : n(k), x(k), m(k) {}
	std::string show() const {
		std::map<const heap::Cont *, int> ids;
		std::string o;
		for (auto &c : m) { heap::show(c, ids, o); o += " "; }
		return o;
	}
};

static Variant scalar(int k) {
	switch (k) {
	case 0: return Variant();
	case 1: return Variant(7);
	case 2: return Variant("s");
	case 3: return Variant(Blob::CreateCopy("b", 1));
	default: return Variant(true);
	}
}
static V mscalar(int k) {
	switch (k) {
	case 0: return V::null();
	case 1: return V::integer(7);
	case 2: return V::str("s");
	case 3: return V::blob("b");
	default: return V::boolean(true);
	}
}

struct Bad {};                // the model says: error, nothing changes
struct Cycle {};              // would make a container its own part: not explored

static void not_into(const Cell &val, const heap::CP &c) { if (c && heap::reaches(val, c)) throw Cycle(); }
// Containers of the model, created where there is a null.
static heap::CP as_list(Cell &c) { if (c.null()) c = heap::new_list(); if (!c.list()) throw Bad(); return c.c; }
static heap::CP as_map(Cell &c) { if (c.null()) c = heap::new_map(); if (!c.map()) throw Bad(); return c.c; }
static void set(Cell &c, unsigned i, Cell val) {
	if (!c.null() && !c.list()) throw Bad();
	if (i == BIG) throw Bad();
	if (c.list()) not_into(val, c.c);
	heap::CP p = as_list(c);
	if (p->l.size() <= i) p->l.resize(i + 1);
	p->l[i] = val;
}
static void set(Cell &c, const std::string &k, Cell val) {
	if (!c.null() && !c.map()) throw Bad();
	if (c.map()) not_into(val, c.c);
	as_map(c)->m[k] = val;
}
static Cell get(const Cell &c, unsigned i) { if (!c.list() || i >= c.c->l.size()) throw Bad(); return c.c->l[i]; }
static Cell get(const Cell &c, const std::string &k) { if (!c.map() || !c.c->m.count(k)) throw Bad(); return c.c->m[k]; }

static void incr(Cell &c) {
	if (c.c || !c.v.isnum()) throw Bad();
	++c.v.i; ++c.v.u; ++c.v.f;
}

static const unsigned IDX[] = {0, 1, 3, BIG};
static const char *KEY[] = {"a", "b"};

struct Op {
	std::string name;
	std::function<void(Sys &)> real, model;
};

static std::vector<Op> ops(int n) {
	std::vector<Op> o;
	auto add = [&](std::string name, std::function<void(Sys &)> real, std::function<void(Sys &)> model) { o.push_back({name, real, model}); };
	for (int a = 0; a < n; ++a) {
		std::string A = pct(a);
		for (int k = 0; k < 5; ++k)
			add(A + " = " + ref::show(mscalar(k)), [=](Sys &s) { s.x[a] = scalar(k); }, [=](Sys &s) { s.m[a] = mscalar(k); });
		add(A + " = \"t\" (std::string)", [=](Sys &s) { s.x[a] = std::string("t"); }, [=](Sys &s) { s.m[a] = V::str("t"); });
		add(A + " = []", [=](Sys &s) { s.x[a] = Variant::ListType; }, [=](Sys &s) { s.m[a] = heap::new_list(); });
		add(A + " = {}", [=](Sys &s) { s.x[a] = Variant::MapType; }, [=](Sys &s) { s.m[a] = heap::new_map(); });
		add(A + ".Clear()", [=](Sys &s) { s.x[a].Clear(); }, [=](Sys &s) {
			Cell &c = s.m[a];
			if (c.c) { c.c->l.clear(); c.c->m.clear(); }
			else if (c.v.k == V::Str) c.v.s.clear();
			else c = V::null();
		});
		add("++" + A, [=](Sys &s) { ++s.x[a]; }, [=](Sys &s) { incr(s.m[a]); });
		for (unsigned i : IDX) {
			std::string I = mc::fmt("%u", i);
			add(A + ".Erase(" + I + ")", [=](Sys &s) { s.x[a].Erase(i); }, [=](Sys &s) {
				Cell &c = s.m[a];
				if (c.null()) return;
				if (!c.list()) throw Bad();
				size_t n = c.c->l.size();
				if (i < n) { if (i == n - 1) c.c->l.pop_back(); else c.c->l[i] = V::null(); }
			});
			if (i == 0 || i == 1) {
				add("++" + A + "[" + I + "]", [=](Sys &s) { ++s.x[a][i]; }, [=](Sys &s) {
					get(s.m[a], i);
					incr(s.m[a].c->l[i]);
				});
				add(A + "[" + I + "].Clear()", [=](Sys &s) { s.x[a][i].Clear(); }, [=](Sys &s) {
					get(s.m[a], i);
					Cell &c = s.m[a].c->l[i];
					if (c.c) { c.c->l.clear(); c.c->m.clear(); } else if (c.v.k == V::Str) c.v.s.clear(); else c = V::null();
				});
				// an element moved to a place that makes the list grow
				add(A + "[5] = " + A + "[" + I + "]", [=](Sys &s) { s.x[a][5u] = s.x[a][i]; }, [=](Sys &s) { Cell e = get(s.m[a], i); not_into(e, s.m[a].c); set(s.m[a], 5, e); });
			}
		}
		for (const char *k : KEY) {
			std::string K = k;
			add(A + ".Erase(" + K + ")", [=](Sys &s) { s.x[a].Erase(K); }, [=](Sys &s) {
				Cell &c = s.m[a];
				if (c.null()) return;
				if (!c.map()) throw Bad();
				c.c->m.erase(K);
			});
			add(A + "." + K + ".Append(1)", [=](Sys &s) { s.x[a][K].Append(1); }, [=](Sys &s) {
				if (s.m[a].null()) s.m[a] = heap::new_map({{K, heap::new_list({V::integer(1)})}});
				else if (!s.m[a].map()) throw Bad();
				else {
					auto it = s.m[a].c->m.find(K);
					if (it != s.m[a].c->m.end() && !it->second.null() && !it->second.list()) throw Bad();
					as_list(s.m[a].c->m[K])->l.push_back(V::integer(1));
				}
			});
			add(A + "." + K + ".b[1] = 2", [=](Sys &s) { s.x[a][K]["b"][1u] = 2; }, [=](Sys &s) {
				Cell &c = s.m[a];
				if (!c.null() && !c.map()) throw Bad();
				if (c.map() && c.c->m.count(K)) {
					Cell &d = c.c->m[K];
					if (!d.null() && !d.map()) throw Bad();
					if (d.map() && d.c->m.count("b") && !d.c->m["b"].null() && !d.c->m["b"].list()) throw Bad();
				}
				set(as_map(as_map(c)->m[K])->m["b"], 1, V::integer(2));
			});
		}
		for (int b = 0; b < n; ++b) {
			std::string B = pct(b);
			add(A + " = " + B, [=](Sys &s) { s.x[a] = s.x[b]; }, [=](Sys &s) { Cell c = s.m[b]; s.m[a] = c; });
			add(A + " = " + B + ".Copy()", [=](Sys &s) { s.x[a] = s.x[b].Copy(); }, [=](Sys &s) { Cell c = heap::deep(s.m[b]); s.m[a] = c; });
			add(A + " = " + B + ".AsList()", [=](Sys &s) { const Variant &r = s.x[b]; s.x[a] = r.AsList(); }, [=](Sys &s) { if (!s.m[b].list()) throw Bad(); s.m[a] = heap::new_list(s.m[b].c->l); });
			add(A + " = " + B + ".AsMap()", [=](Sys &s) { const Variant &r = s.x[b]; s.x[a] = r.AsMap(); }, [=](Sys &s) { if (!s.m[b].map()) throw Bad(); s.m[a] = heap::new_map(s.m[b].c->m); });
			add(A + ".Append(" + B + ")", [=](Sys &s) { s.x[a].Append(s.x[b]); }, [=](Sys &s) {
				if (s.m[a].list()) not_into(s.m[b], s.m[a].c);
				Cell v = s.m[b];
				as_list(s.m[a])->l.push_back(v);
			});
			add(A + ".Merge(" + B + ")", [=](Sys &s) { s.x[a].Merge(s.x[b]); }, [=](Sys &s) {
				if (!s.m[b].null() && !s.m[b].map()) throw Bad();
				if (s.m[b].null() || s.m[b].c->m.empty()) return;
				if (!s.m[a].null() && !s.m[a].map()) throw Bad();
				auto c = s.m[b].c->m;
				if (s.m[a].map()) for (auto &e : c) not_into(e.second, s.m[a].c);
				for (auto &e : c) as_map(s.m[a])->m[e.first] = e.second;
			});
			add("{t = " + A + "; t.Append(" + B + "); t = 1}", [=](Sys &s) { Variant t = s.x[a]; t.Append(s.x[b]); t = 1; }, [=](Sys &s) {
				if (s.m[a].null()) return;                     // only the temporary becomes a list
				if (!s.m[a].list()) throw Bad();
				not_into(s.m[b], s.m[a].c);
				Cell v = s.m[b];
				s.m[a].c->l.push_back(v);
			});
			for (unsigned i : IDX) {
				std::string I = mc::fmt("%u", i);
				add(A + ".Set(" + I + ", " + B + ")", [=](Sys &s) { s.x[a].Set(i, s.x[b]); }, [=](Sys &s) { Cell v = s.m[b]; set(s.m[a], i, v); });
				if (i < 3) {
					add(A + "[" + I + "] = " + B, [=](Sys &s) { s.x[a][i] = s.x[b]; }, [=](Sys &s) { Cell v = s.m[b]; set(s.m[a], i, v); });
					add(A + " = " + B + ".Get(" + I + ")", [=](Sys &s) { s.x[a] = s.x[b].Get(i); }, [=](Sys &s) { Cell c = get(s.m[b], i); s.m[a] = c; });
					add(A + " = " + B + "[" + I + "]", [=](Sys &s) { s.x[a] = s.x[b][i]; }, [=](Sys &s) { Cell c = get(s.m[b], i); s.m[a] = c; });
				}
				add(A + ".At(" + I + ", " + B + ")", [=](Sys &s) { s.x[a].At(i, s.x[b]); }, [=](Sys &s) {
					Cell &c = s.m[a];
					if (!c.null() && !c.list()) throw Bad();
					if (c.list() && i < c.c->l.size()) return;
					Cell v = s.m[b];
					set(c, i, v);
				});
			}
			for (const char *k : KEY) {
				std::string K = k;
				add(A + ".Set(" + K + ", " + B + ")", [=](Sys &s) { s.x[a].Set(K, s.x[b]); }, [=](Sys &s) { Cell v = s.m[b]; set(s.m[a], K, v); });
				add(A + "[" + K + "] = " + B + ".Copy()", [=](Sys &s) { s.x[a][K] = s.x[b].Copy(); }, [=](Sys &s) { Cell v = heap::deep(s.m[b]); set(s.m[a], K, v); });
				add(A + " = " + B + "[" + K + "]", [=](Sys &s) { const Variant &c = s.x[b]; s.x[a] = c[K]; }, [=](Sys &s) { Cell c = get(s.m[b], K); s.m[a] = c; });
				add(A + ".At(" + K + ", " + B + ")", [=](Sys &s) { s.x[a].At(K, s.x[b]); }, [=](Sys &s) {
					Cell &c = s.m[a];
					if (!c.null() && !c.map()) throw Bad();
					if (c.map() && c.c->m.count(K)) return;
					Cell v = s.m[b];
					set(c, K, v);
				});
			}
		}
	}
	return o;
}

static void observe(mc::Run &r, Sys &s) {
	heap::Match match;
	for (int i = 0; i < s.n; ++i) {
		bool ok = match(s.x[i], s.m[i]);
		r.check(ok, "content", "%s: %s; expected %s", pct(i).c_str(), match.why.c_str(), s.show().c_str());
	}
	// queries agree with the content and change nothing
	for (int i = 0; i < s.n; ++i) {
		const Variant &c = s.x[i];
		const Cell &m = s.m[i];
		for (unsigned k : {0u, 2u}) {
			bool has = m.list() && k < m.c->l.size();
			if (m.list()) r.check(c.Contains(k) == has, "query", "%s.Contains(%u) is %d", pct(i).c_str(), k, !has);
			heap::Match q; q.fwd = match.fwd; q.bwd = match.bwd;
			if (m.c || m.null()) { bool ok = q(c.Get(k, 99), has ? m.c->l[k] : Cell(V::integer(99))); r.check(ok, "query", "%s.Get(%u, 99): %s", pct(i).c_str(), k, q.why.c_str()); }
			bool threw = false;
			try { const Variant &v = c.At(k); heap::Match q2; r.check(!has || q2(v, m.c->l[k]), "query", "%s.At(%u)", pct(i).c_str(), k); } catch (std::exception &) { threw = true; }
			r.check(threw == !has, "query", "%s.At(%u) of a const value: %s", pct(i).c_str(), k, has ? "error" : "no error");
			r.check(c.HasPath(Path(1, PathElement(k))) == has, "query", "%s.HasPath([%u]) is %d", pct(i).c_str(), k, !has);
		}
		for (const char *k : {"a", "zz"}) {
			bool has = m.map() && m.c->m.count(k);
			if (m.map()) r.check(c.Contains(k) == has, "query", "%s.Contains(%s) is %d", pct(i).c_str(), k, !has);
			heap::Match q; q.fwd = match.fwd; q.bwd = match.bwd;
			if (m.c || m.null()) { bool ok = q(c.Get(k, 99), has ? m.c->m[k] : Cell(V::integer(99))); r.check(ok, "query", "%s.Get(%s, 99): %s", pct(i).c_str(), k, q.why.c_str()); }
			bool threw = false;
			try { const Variant &v = c.At(k); heap::Match q2; r.check(!has || q2(v, m.c->m[k]), "query", "%s.At(%s)", pct(i).c_str(), k); } catch (std::exception &) { threw = true; }
			r.check(threw == !has, "query", "%s.At(%s) of a const value: %s", pct(i).c_str(), k, has ? "error" : "no error");
		}
	}
	r.state(s.show());
}

// returns false if the sequence ends here
static bool apply(mc::Run &r, Sys &s, const Op &op) {
	r.note("%s", op.name.c_str());
	bool bad = false, threw = false;
	std::string what;
	try { op.model(s); } catch (Bad &) { bad = true; } catch (Cycle &) { return false; }
	try { op.real(s); } catch (std::exception &e) { threw = true; what = e.what(); }
	if (bad && !threw) r.fail("no-error", "%s succeeds; state before %s", op.name.c_str(), s.show().c_str());
	if (!bad && threw) r.fail("error", "%s raises %s; expected %s", op.name.c_str(), what.c_str(), s.show().c_str());
	if (r.fresh()) observe(r, s);
	return !bad;
}

// Starting points with aliasing in them.
static const int STARTS = 14;
static void start(Sys &s, int k) {
	auto both = [&](int i, const Cell &c) { s.m[i] = c; };
	(void)both;
	auto L = [](std::vector<Cell> l) { return Cell(heap::new_list(l)); };
	auto M = [](std::map<std::string, Cell> m) { return Cell(heap::new_map(m)); };
	Cell one = V::integer(1), str = V::str("s");
	switch (k) {
	case 0: break;
	case 1: s.m[0] = s.m[1] = L({one, str}); break;
	case 2: s.m[0] = s.m[1] = M({{"a", one}, {"b", str}}); break;
	case 3: s.m[1] = L({one}); s.m[0] = L({s.m[1], s.m[1]}); break;
	case 4: s.m[1] = M({{"a", one}}); s.m[0] = M({{"a", s.m[1]}, {"b", s.m[1]}}); break;
	case 5: s.m[1] = L({}); s.m[0] = M({{"a", s.m[1]}}); break;
	case 6: s.m[1] = M({}); s.m[0] = L({s.m[1], V::null()}); break;
	case 7: s.m[0] = s.m[1] = str; break;
	case 8: s.m[0] = L({str, str}); s.m[1] = str; break;
	case 9: s.m[0] = s.m[1] = V::blob("bb"); break;
	case 10: s.m[0] = L({L({L({one})})}); s.m[1] = s.m[0].c->l[0]; break;
	case 11: s.m[0] = M({{"a", M({{"b", L({one})}})}}); s.m[1] = s.m[0].c->m["a"]; break;
	case 12: s.m[0] = L({one, one, one, one}); s.m[1] = V::boolean(true); break;
	case 13: s.m[0] = V::uinteger(3); s.m[1] = V::flt(1.5); break;
	}
	// the same through the library, sharing where the model shares
	std::map<const heap::Cont *, Variant> made;
	std::function<Variant(const Cell &)> build = [&](const Cell &c) -> Variant {
		if (!c.c) return ref::to(c.v);
		auto it = made.find(c.c.get());
		if (it != made.end()) return it->second;
		Variant v = c.list() ? Variant::ListType : Variant::MapType;
		for (auto &e : c.c->l) v.Append(build(e));
		for (auto &e : c.c->m) v.Set(e.first, build(e.second));
		made[c.c.get()] = v;
		return v;
	};
	// strings share their storage when copied: keep that
	for (int i = 0; i < s.n; ++i) {
		if (k == 7 && i == 1) s.x[1] = s.x[0];
		else if (k == 9 && i == 1) s.x[1] = s.x[0];
		else s.x[i] = build(s.m[i]);
	}
	if (k == 8) { s.x[1] = s.x[0].Get(0u); s.x[0].Set(1, s.x[1]); }
}

int main(int argc, char **argv) {
	mc::Check c;
	c.prop = "P11"; c.level = "model_checking";
	c.rule = "after every operation every variable has the content and the container identities of the reference heap; operations the model refuses raise an error and change nothing; all memory is given back";
	c.assumptions = {"operations that would make a container part of itself are left out: the documentation excludes them"};
	static std::vector<Op> o2 = ops(2), o3 = ops(3);
	auto seq = [](std::vector<Op> *o, int n, std::vector<int> starts, int quick, int deep) {
		return [=](mc::Run &r) {
			Sys s(n);
			int k = starts[r.choose(starts.size())];
			r.note("start %d", k);
			start(s, k);
			if (r.fresh()) observe(r, s);
			int depth = r.thorough ? deep : quick;
			for (int d = 0; d < depth; ++d) {
				// as long as all variables are null they are interchangeable: the first operation is on x
				int m = k == 0 && d == 0 ? o->size() / n : o->size();
				if (!apply(r, s, (*o)[r.choose(m)])) break;
			}
			r.outcome(s.show());
		};
	};
	std::vector<int> all; for (int i = 0; i < STARTS; ++i) all.push_back(i);
	c.spaces.push_back({"two-variables", mc::fmt("every sequence of 2 (thorough 3) of %zu operations on 2 variables from %d starting points, most with shared containers or strings", o2.size(), STARTS), seq(&o2, 2, all, 2, 3), 2, true});
	c.spaces.push_back({"from-nothing", mc::fmt("every sequence of 3 of %zu operations on 2 null variables (thorough: also from two shared starting points)", o2.size()), [seq](mc::Run &r) { (r.thorough ? seq(&o2, 2, {0, 1, 2}, 3, 3) : seq(&o2, 2, {0}, 3, 3))(r); }, 2, true});
	c.spaces.push_back({"three-variables", mc::fmt("every sequence of 2 of %zu operations on 3 variables from %d starting points", o3.size(), STARTS), seq(&o3, 3, all, 2, 2), 2, true});
	c.spaces.push_back({"blobs", "a blob of 1 to 3 buffers at 6 places, taken by assignment, copy, and copies of what holds it; each byte written through each holder", [](mc::Run &r) {
		int nbuf = 1 + r.choose(3), place = r.choose(6), how = r.choose(4), wr = r.choose(2), at = r.choose(6);
		std::string bytes = "abcdef";
		std::vector<iovec> iov;
		for (int i = 0; i < nbuf; ++i) iov.push_back({&bytes[i * (6 / nbuf)], size_t(6 / nbuf)});
		Variant b = Variant(Blob::CreateCopy(&iov[0], nbuf)), x;
		auto in = [&](Variant w) -> Variant {
			switch (place) {
			case 1: case 2: return w.GetPath(place == 1 ? "[1]" : "a");
			case 3: return w.GetPath("a[0]");
			case 4: return w.GetPath("[0]/a/b");
			case 5: return w.GetPath("[0][0][1]");
			default: return w;
			}
		};
		Variant L = Variant::ListType, M = Variant::MapType, N = Variant::ListType;
		switch (place) {
		case 0: x = b; break;
		case 1: L.Append(1); L.Append(b); x = L; break;
		case 2: M.Set("a", b); M.Set("b", 1); x = M; break;
		case 3: L.Append(b); M.Set("a", L); x = M; break;
		case 4: M.Set("b", b); N.Append(Variant().Set("a", M)); x = N; break;
		case 5: L.Append(1); L.Append(b); M = Variant::ListType; M.Append(L); N.Append(M); x = N; break;
		}
		Variant y;
		bool apart = false;
		switch (how) {
		case 0: y = x; break;                          // shares
		case 1: y = x.Copy(); apart = true; break;
		case 2: { Variant z = x; Variant w; w.Set("k", z); y = w.Copy().Get("k"); apart = true; break; }
		case 3: { Variant w; w["k"]["l"] = x; y = w.At("k").Copy().Get("l"); apart = true; break; }
		}
		r.note("%d buffers place %d how %d write %d at %d", nbuf, place, how, wr, at);
		V before = ref::from(x);
		r.check(ref::same(ref::from(y), before), "blob-copy", "the copy is different");
		Variant &t = wr ? y : x, &o = wr ? x : y;
		{
			BlobPtr p = in(t).AsBlob();
			int k = at;
			for (unsigned i = 0; i < p->GetNumBuffers(); ++i) { if (k < int(p->GetLength(i))) { ((char *)p->GetPtr(i))[k] = 'X'; break; } k -= p->GetLength(i); }
		}
		r.step(1);
		V changed = ref::from(t), other = ref::from(o);
		r.check(!ref::same(changed, before), "blob-write", "the write is not seen");
		r.check(ref::same(other, apart ? before : changed), "blob-share", apart ? "a write to a blob shows in a copy" : "a write to a shared blob does not show");
		r.state(mc::hash(ref::show(changed))); r.outcome(apart ? "apart" : "shared");
	}, 1, true});
	return mc::run(argc, argv, c);
}
