// P12: references follow their target or report that it is gone.
#include "vpath.hpp"
#include <complex>
using namespace libvariant;
using ref::V;
using ref::Step;

// ---- model: cells with identity
struct Cont;
struct Cell;
typedef std::shared_ptr<Cell> CellP;
typedef std::shared_ptr<Cont> CP;
struct Cell { V v; CP c; bool alive = true; bool orphan = false; };
struct Cont {
	bool is_list;
	std::vector<CellP> l;
	std::map<std::string, CellP> m;
	~Cont();
};
static void die(const CellP &c, bool orphan) { c->alive = false; c->orphan = orphan; CP keep; keep.swap(c->c); }
Cont::~Cont() { for (auto &e : l) die(e, true); for (auto &e : m) die(e.second, true); }
static CellP cell(const V &v) { CellP c(new Cell); c->v = v; return c; }
static bool is_null(const Cell &c) { return !c.c && c.v.k == V::Null; }
static bool is_list(const Cell &c) { return c.c && c.c->is_list; }
static bool is_map(const Cell &c) { return c.c && !c.c->is_list; }
static V value(const Cell &c) {
	if (!c.c) return c.v;
	V v = c.c->is_list ? V::list() : V::map();
	for (auto &e : c.c->l) v.l.push_back(value(*e));
	for (auto &e : c.c->m) v.m[e.first] = value(*e.second);
	return v;
}

struct MRef {
	enum K { None, Bound, Proxy } k = None;
	CellP t;                  // target, or where the proxy's path starts
	ref::Steps path;
	bool maybe = false;       // the target's list grew: the reference may have been invalidated
};
struct Bad {};
struct Cycle {};

enum { NV = 2, NR = 2 };
struct Sys {
	std::unique_ptr<Variant> x[NV];
	std::unique_ptr<VariantRef> r[NR];
	CellP mx[NV];
	MRef mr[NR];
	Sys() { for (int i = 0; i < NV; ++i) { x[i].reset(new Variant); mx[i] = cell(V::null()); } }

	void grew(const CP &c) {
		for (auto &q : mr) if (q.k != MRef::None) for (auto &e : c->l) if (e == q.t) q.maybe = true;
	}
	void put(const CellP &t, const Cell &val) {
		CP old = t->c;
		t->v = val.v; t->c = val.c;
		if (cyclic(t->c, 0)) { t->c.reset(); t->v = V::null(); throw Cycle(); }
	}
	static bool cyclic(const CP &c, int depth) {
		if (!c) return false;
		if (depth > 12) return true;
		for (auto &e : c->l) if (cyclic(e->c, depth + 1)) return true;
		for (auto &e : c->m) if (cyclic(e.second->c, depth + 1)) return true;
		return false;
	}
	// The child a step names, or nothing.
	static CellP child(const CellP &c, const Step &s) {
		if (s.idx) return is_list(*c) && s.i < c->c->l.size() ? c->c->l[s.i] : CellP();
		if (!is_map(*c)) return CellP();
		auto it = c->c->m.find(s.k);
		return it == c->c->m.end() ? CellP() : it->second;
	}
	bool can(const CellP &c, const Step &s) { return is_null(*c) || (s.idx ? is_list(*c) : is_map(*c)); }
	CellP make(const CellP &c, const Step &s) {
		if (is_null(*c)) c->c.reset(new Cont{s.idx, {}, {}});
		if (s.idx) {
			if (s.i >= c->c->l.size()) { grew(c->c); while (c->c->l.size() <= s.i) c->c->l.push_back(cell(V::null())); }
			return c->c->l[s.i];
		}
		CellP &e = c->c->m[s.k];
		if (!e) e = cell(V::null());
		return e;
	}
	void alive(MRef &q) { if (q.k == MRef::None) throw Cycle(); if (!q.t->alive) throw Bad(); }
	CellP peek(const MRef &q) {
		if (q.k == MRef::None || !q.t->alive) return CellP();
		CellP c = q.t;
		if (q.k == MRef::Proxy) for (auto &s : q.path) { c = child(c, s); if (!c) break; }
		return c;
	}
	// Following a reference to read: it then refers to what it found.
	CellP read(MRef &q) {
		CellP c = peek(q);
		if (!c) throw Bad();
		if (q.k == MRef::Proxy) { q.k = MRef::Bound; q.t = c; q.path.clear(); }
		return c;
	}
	// Following it to write: what is missing is created.
	CellP create(MRef &q) {
		alive(q);
		if (q.k == MRef::Bound) return q.t;
		CellP c = q.t;
		size_t i = 0;
		for (; i < q.path.size(); ++i) { CellP d = child(c, q.path[i]); if (!d) break; c = d; }
		if (i < q.path.size() && !can(c, q.path[i])) throw Bad();
		for (; i < q.path.size(); ++i) c = make(c, q.path[i]);
		q.k = MRef::Bound; q.t = c; q.path.clear();
		return c;
	}
	// Element access on a mutable cell or reference: a reference, or a proxy for what is missing.
	MRef at(const CellP &c, const Step &s, bool strict = true) {
		if (strict && !can(c, s)) throw Bad();
		MRef q;
		if (CellP d = child(c, s)) { q.k = MRef::Bound; q.t = d; }
		else { q.k = MRef::Proxy; q.t = c; q.path = {s}; }
		return q;
	}
	MRef at(MRef &p, const Step &s) {
		alive(p);
		if (CellP c = peek(p)) { read(p); return at(c, s); }
		MRef q = p; q.maybe = false; q.path.push_back(s);
		return q;
	}
	std::string show(const MRef &q) {
		if (q.k == MRef::None) return "-";
		return (q.t->alive ? "" : "dead:") + ref::show(value(*q.t)) + (q.k == MRef::Proxy ? " at " + ref::show(q.path) : "");
	}
	std::string show() {
		std::string o;
		for (int i = 0; i < NV; ++i) o += (mx[i] ? ref::show(value(*mx[i])) : std::string("gone")) + " | ";
		for (auto &q : mr) o += show(q) + " | ";
		return o;
	}
	~Sys() { for (int i = 0; i < NR; ++i) r[i].reset(); }
};

struct Op { std::string name; std::function<void(Sys &)> model, real; };

static void mclear(Sys &, const CellP &c) {
	if (c->c) { auto l = c->c->l; auto m = c->c->m; c->c->l.clear(); c->c->m.clear(); for (auto &e : l) die(e, false); for (auto &e : m) die(e.second, false); }
	else if (c->v.k == V::Str) c->v.s.clear();
	else c->v = V::null();
}
static void merase(const CellP &c, unsigned i) {
	if (is_null(*c)) return;
	if (!is_list(*c)) throw Bad();
	size_t n = c->c->l.size();
	if (i >= n) return;
	if (i == n - 1) { CellP e = c->c->l[i]; c->c->l.pop_back(); die(e, false); }
	else { CP keep = c->c->l[i]->c; c->c->l[i]->c.reset(); c->c->l[i]->v = V::null(); }
}
static void merase(const CellP &c, const std::string &k) {
	if (is_null(*c)) return;
	if (!is_map(*c)) throw Bad();
	auto it = c->c->m.find(k);
	if (it == c->c->m.end()) return;
	CellP e = it->second; c->c->m.erase(it); die(e, false);
}
static void mset(Sys &s, const CellP &c, const Step &st, const Cell &val) { if (!s.can(c, st)) throw Bad(); s.put(s.make(c, st), val); }
static void mappend(Sys &s, const CellP &c, const Cell &val) {
	if (!is_null(*c) && !is_list(*c)) throw Bad();
	s.put(s.make(c, ref::at(is_list(*c) ? c->c->l.size() : 0)), val);
}
static Cell mk(const V &v) { Cell c; c.v = v; return c; }
static Cell mklist() { Cell c; c.c.reset(new Cont{true, {}, {}}); return c; }
static Cell mkmap() { Cell c; c.c.reset(new Cont{false, {}, {}}); return c; }

static CellP var(Sys &s, int a) { if (!s.mx[a]) throw Cycle(); return s.mx[a]; }   // gone: not usable any more

static std::vector<Op> make_ops(int nv) {
	std::vector<Op> o;
	auto add = [&](std::string n, std::function<void(Sys &)> m, std::function<void(Sys &)> f) { o.push_back({n, m, f}); };
	for (int a = 0; a < nv; ++a) {
		std::string A = a ? "y" : "x";
		add(A + " = 5", [=](Sys &s) { s.put(var(s, a), mk(V::integer(5))); }, [=](Sys &s) { *s.x[a] = 5; });
		add(A + " = {}", [=](Sys &s) { s.put(var(s, a), mkmap()); }, [=](Sys &s) { *s.x[a] = Variant::MapType; });
		add(A + " = []", [=](Sys &s) { s.put(var(s, a), mklist()); }, [=](Sys &s) { *s.x[a] = Variant::ListType; });
		add("destroy " + A, [=](Sys &s) { CellP c = var(s, a); s.mx[a].reset(); die(c, false); }, [=](Sys &s) { s.x[a].reset(); });
		add(A + ".Append(1)", [=](Sys &s) { mappend(s, var(s, a), mk(V::integer(1))); }, [=](Sys &s) { s.x[a]->Append(1); });
		add(A + ".Set(4, 2)", [=](Sys &s) { mset(s, var(s, a), ref::at(4), mk(V::integer(2))); }, [=](Sys &s) { s.x[a]->Set(4u, 2); });
		add(A + ".Set(a, 3)", [=](Sys &s) { mset(s, var(s, a), ref::key("a"), mk(V::integer(3))); }, [=](Sys &s) { s.x[a]->Set("a", 3); });
		add(A + ".SetPath(/a/b, 4)", [=](Sys &s) {
			CellP c = var(s, a);
			if (!s.can(c, ref::key("a"))) throw Bad();
			CellP d = Sys::child(c, ref::key("a"));
			if (d && !s.can(d, ref::key("b"))) throw Bad();
			s.put(s.make(s.make(c, ref::key("a")), ref::key("b")), mk(V::integer(4)));
		}, [=](Sys &s) { s.x[a]->SetPath("/a/b", 4); });
		add(A + ".Erase(0)", [=](Sys &s) { merase(var(s, a), 0); }, [=](Sys &s) { s.x[a]->Erase(0u); });
		add(A + ".Erase(1)", [=](Sys &s) { merase(var(s, a), 1); }, [=](Sys &s) { s.x[a]->Erase(1u); });
		add(A + ".Erase(a)", [=](Sys &s) { merase(var(s, a), "a"); }, [=](Sys &s) { s.x[a]->Erase("a"); });
		add(A + ".Clear()", [=](Sys &s) { mclear(s, var(s, a)); }, [=](Sys &s) { s.x[a]->Clear(); });
		if (nv > 1) {
			int b = 1 - a;
			std::string B = b ? "y" : "x";
			add(A + " = " + B, [=](Sys &s) { Cell v = *var(s, b); s.put(var(s, a), v); }, [=](Sys &s) { *s.x[a] = *s.x[b]; });
		}
	}
	for (int i = 0; i < NR; ++i) {
		std::string R = i ? "s" : "r";
		auto bind = [=](std::string n, std::function<MRef(Sys &)> m, std::function<VariantRef(Sys &)> f) {
			return Op{R + " := " + n, [=](Sys &s) { MRef q = m(s); s.mr[i] = q; }, [=](Sys &s) { std::unique_ptr<VariantRef> p(new VariantRef(f(s))); s.r[i] = std::move(p); }};
		};
		for (int a = 0; a < nv; ++a) {
			std::string A = a ? "y" : "x";
			o.push_back(bind(A + ".Ref()", [=](Sys &s) { MRef q; q.k = MRef::Bound; q.t = var(s, a); return q; }, [=](Sys &s) { return s.x[a]->Ref(); }));
			o.push_back(bind(A + "[0]", [=](Sys &s) { return s.at(var(s, a), ref::at(0)); }, [=](Sys &s) { return (*s.x[a])[0u]; }));
			o.push_back(bind(A + "[3]", [=](Sys &s) { return s.at(var(s, a), ref::at(3)); }, [=](Sys &s) { return (*s.x[a])[3u]; }));
			o.push_back(bind(A + "[a]", [=](Sys &s) { return s.at(var(s, a), ref::key("a")); }, [=](Sys &s) { return (*s.x[a])["a"]; }));
			o.push_back(bind(A + "[a][b]", [=](Sys &s) { MRef q = s.at(var(s, a), ref::key("a")); return s.at(q, ref::key("b")); }, [=](Sys &s) { return (*s.x[a])["a"]["b"]; }));
			o.push_back(bind(A + ".AtPath(/a[1])", [=](Sys &s) {
				CellP c = var(s, a), d = Sys::child(c, ref::key("a"));
				if (d) return s.at(d, ref::at(1), false);
				MRef q; q.k = MRef::Proxy; q.t = c; q.path = {ref::key("a"), ref::at(1)};
				return q;
			}, [=](Sys &s) { return s.x[a]->AtPath("/a[1]"); }));
		}
		// element access on the reference itself
		o.push_back(bind(R + "[b]", [=](Sys &s) { return s.at(s.mr[i], ref::key("b")); }, [=](Sys &s) { return (*s.r[i])["b"]; }));
		o.push_back(bind(R + "[0]", [=](Sys &s) { return s.at(s.mr[i], ref::at(0)); }, [=](Sys &s) { return (*s.r[i])[0u]; }));
		int j = 1 - i;
		std::string S = j ? "s" : "r";
		o.push_back(bind(S, [=](Sys &s) { s.alive(s.mr[j]); return s.mr[j]; }, [=](Sys &s) { return VariantRef(*s.r[j]); }));

		auto use = [&](std::string n, std::function<void(Sys &, MRef &)> m, std::function<void(Sys &, VariantRef &)> f) {
			add(n, [=](Sys &s) { if (s.mr[i].k == MRef::None) throw Cycle(); m(s, s.mr[i]); }, [=](Sys &s) { f(s, *s.r[i]); });
		};
		use("read " + R, [](Sys &s, MRef &q) { s.read(q); }, [](Sys &, VariantRef &r) { r.GetType(); });
		use(R + ".Size()", [](Sys &s, MRef &q) { CellP c = s.read(q); if (!c->c && c->v.k != V::Str && c->v.k != V::Null) throw Bad(); }, [](Sys &, VariantRef &r) { r.Size(); });
		use(R + " = 6", [](Sys &s, MRef &q) { s.put(s.create(q), mk(V::integer(6))); }, [](Sys &, VariantRef &r) { r = 6; });
		use(R + " = \"t\"", [](Sys &s, MRef &q) { s.put(s.create(q), mk(V::str("t"))); }, [](Sys &, VariantRef &r) { r = std::string("t"); });
		use(R + " = []", [](Sys &s, MRef &q) { s.put(s.create(q), mklist()); }, [](Sys &, VariantRef &r) { r = Variant::ListType; });
		use(R + ".Append(7)", [](Sys &s, MRef &q) {
			CellP c = s.peek(q);
			if (c && !is_null(*c) && !is_list(*c)) { s.create(q); throw Bad(); }
			mappend(s, s.create(q), mk(V::integer(7)));
		}, [](Sys &, VariantRef &r) { r.Append(7); });
		use(R + ".Set(b, 8)", [](Sys &s, MRef &q) {
			CellP c = s.peek(q);
			if (c && !is_null(*c) && !is_map(*c)) { s.create(q); throw Bad(); }
			mset(s, s.create(q), ref::key("b"), mk(V::integer(8)));
		}, [](Sys &, VariantRef &r) { r.Set("b", 8); });
		use(R + ".Clear()", [](Sys &s, MRef &q) { mclear(s, s.read(q)); }, [](Sys &, VariantRef &r) { r.Clear(); });
		use("++" + R, [](Sys &s, MRef &q) { CellP c = s.read(q); if (c->c || c->v.k != V::Int) throw Bad(); ++c->v.i; }, [](Sys &, VariantRef &r) { ++r; });
		use(R + ".Erase(0)", [](Sys &s, MRef &q) { merase(s.read(q), 0); }, [](Sys &, VariantRef &r) { r.Erase(0u); });
		use(R + ".Resolve(9)", [](Sys &s, MRef &q) { CellP c = s.create(q); if (is_null(*c)) s.put(c, mk(V::integer(9))); }, [](Sys &, VariantRef &r) { r.Resolve(Variant(9)); });
		use(R + " = x", [](Sys &s, MRef &q) { Cell v = *var(s, 0); s.put(s.create(q), v); }, [](Sys &s, VariantRef &r) { r = *s.x[0]; });
		use("x = " + R, [](Sys &s, MRef &q) { var(s, 0); Cell v = *s.read(q); s.put(var(s, 0), v); }, [](Sys &s, VariantRef &r) { *s.x[0] = r; });
		use(R + " = " + S, [=](Sys &s, MRef &q) { if (s.mr[j].k == MRef::None) throw Cycle(); Cell v = *s.read(s.mr[j]); s.put(s.create(q), v); }, [=](Sys &s, VariantRef &r) { r = *s.r[j]; });
		use(R + ".ReassignRef(x)", [](Sys &s, MRef &q) { CellP c = var(s, 0); q = MRef(); q.k = MRef::Bound; q.t = c; }, [](Sys &s, VariantRef &r) { r.ReassignRef(*s.x[0]); });
		use(R + ".ReassignRef(x[a])", [](Sys &s, MRef &q) { MRef n = s.at(var(s, 0), ref::key("a")); q = n; }, [](Sys &s, VariantRef &r) { r.ReassignRef((*s.x[0])["a"]); });
		use(R + ".ReassignRef(" + S + ")", [=](Sys &s, MRef &q) { if (s.mr[j].k == MRef::None) throw Cycle(); s.alive(s.mr[j]); q = s.mr[j]; }, [=](Sys &s, VariantRef &r) { r.ReassignRef(*s.r[j]); });
		use(R + ".ReassignRef(" + R + ")", [](Sys &s, MRef &q) { s.alive(q); }, [](Sys &, VariantRef &r) { r.ReassignRef(r); });
		use("drop " + R, [](Sys &, MRef &q) { q = MRef(); }, [=](Sys &, VariantRef &) {});
		o.back().real = [=](Sys &s) { s.r[i].reset(); };
	}
	return o;
}

static std::string vname(int i) { return i ? "y" : "x"; }
static std::string rname(int i) { return i ? "s" : "r"; }

static void observe(mc::Run &r, Sys &s, bool last) {
	for (int i = 0; i < NV; ++i) if (s.mx[i]) {
		V got = ref::from(*s.x[i]), want = value(*s.mx[i]);
		r.check(ref::same(got, want) && got.k == want.k, "value", "%s is %s, expected %s", vname(i).c_str(), ref::show(got).c_str(), ref::show(want).c_str());
	}
	bool proxies = false;
	for (auto &q : s.mr) if (q.k == MRef::Proxy) proxies = true;
	for (int i = 0; i < NR; ++i) {
		MRef &q = s.mr[i];
		if (q.k == MRef::None) continue;
		bool ex = s.r[i]->Exists();
		if (q.maybe && q.t->alive && !ex) { q = MRef(); s.r[i].reset(); continue; }    // moved with its list
		// a container nobody holds any more may live on for as long as a proxy remembers it
		if (!q.t->alive && q.t->orphan && ex && proxies) { q = MRef(); s.r[i].reset(); continue; }
		q.maybe = false;
		bool want = s.peek(q) != 0;
		r.check(ex == want, "exists", "%s.Exists() is %d; model %s", rname(i).c_str(), ex, s.show().c_str());
	}
	if (!last) return;
	for (int i = 0; i < NR; ++i) {
		MRef &q = s.mr[i];
		if (q.k == MRef::None) continue;
		CellP c = s.peek(q);
		std::string what;
		V got;
		bool threw = false;
		try { got = ref::from(*s.r[i]); } catch (std::exception &e) { threw = true; what = e.what(); }
		if (!c) r.check(threw, "dangling", "%s reads %s although it refers to nothing; model %s", rname(i).c_str(), ref::show(got).c_str(), s.show().c_str());
		else {
			r.check(!threw, "lost", "reading %s raises %s; model %s", rname(i).c_str(), what.c_str(), s.show().c_str());
			V want = value(*c);
			r.check(ref::same(got, want) && got.k == want.k, "target", "%s reads %s, expected %s; model %s", rname(i).c_str(), ref::show(got).c_str(), ref::show(want).c_str(), s.show().c_str());
		}
	}
	for (int i = 0; i < NV; ++i) if (s.mx[i]) {
		V got = ref::from(*s.x[i]), want = value(*s.mx[i]);
		r.check(ref::same(got, want), "value", "reading the references changed %s to %s, expected %s", vname(i).c_str(), ref::show(got).c_str(), ref::show(want).c_str());
	}
}

static bool apply(mc::Run &r, Sys &s, const Op &op) {
	r.note("%s", op.name.c_str());
	bool bad = false, threw = false;
	std::string what;
	try { op.model(s); } catch (Bad &) { bad = true; } catch (Cycle &) { return false; }
	try { op.real(s); } catch (std::exception &e) { threw = true; what = e.what(); }
	r.check(!bad || threw, "no-error", "%s raises no error; model %s", op.name.c_str(), s.show().c_str());
	r.check(bad || !threw, "error", "%s raises %s; model %s", op.name.c_str(), what.c_str(), s.show().c_str());
	observe(r, s, false);
	if (r.fresh()) r.state(s.show());
	return true;
}

static std::vector<Op> ALL = make_ops(2), ONE = make_ops(1);
static int find(const std::string &n) { for (size_t i = 0; i < ALL.size(); ++i) if (ALL[i].name == n) return i; throw std::logic_error("no operation " + n); }

// Starting points, as operation sequences.
static const std::vector<std::vector<const char *>> STARTS = {
	{},
	{"x.Append(1)", "x.Append(1)", "r := x[0]", "s := x[3]"},
	{"x.Set(a, 3)", "r := x[a]", "s := x[a]"},
	{"r := x[a][b]", "s := x[a]"},
	{"x.SetPath(/a/b, 4)", "r := x[a][b]", "s := x[a]"},
	{"x.Append(1)", "x.Append(1)", "x.Append(1)", "y = x", "r := x[0]", "s := y[3]"},
	{"x.Append(1)", "r := x[0]", "r = []", "s := r", "r := r[0]"},
	{"x.SetPath(/a/b, 4)", "y = x", "r := y[a][b]", "s := x.AtPath(/a[1])"},
	{"r := x.AtPath(/a[1])", "s := r"},
};

// ---- every operation through every way of reaching a value, against the same operation on a plain value
enum Kind { Reads, Creates, Lazy };     // on a target that is not there: an error; as on a null; no change
struct Deed { std::string name; Kind kind; std::function<std::string(Variant &)> f; };
static std::string str(const Variant &v) { return ref::show(ref::from(v)); }
static std::string num(long double d) { return mc::fmt("%.20Lg", d); }
static std::vector<Deed> deeds() {
	std::vector<Deed> o;
	auto add = [&](const char *n, Kind k, std::function<std::string(Variant &)> f) { o.push_back({n, k, f}); };
#define R(name, expr) add(name, Reads, [](Variant &v) -> std::string { const Variant &c = v; (void)c; return expr; })
#define W(name, stmt) add(name, Creates, [](Variant &v) -> std::string { stmt; return "done"; })
#define M(name, stmt) add(name, Reads, [](Variant &v) -> std::string { stmt; return "done"; })
#define L(name, expr) add(name, Lazy, [](Variant &v) -> std::string { const Variant &c = v; (void)c; return expr; })
	R("GetType", std::to_string((int)c.GetType()));
	R("AsBool", c.AsBool() ? "T" : "F");
	R("AsLongDouble", num(c.AsLongDouble()));
	R("AsUnsigned", std::to_string(c.AsUnsigned()));
	R("AsInt", std::to_string(c.AsInt()));
	R("AsString", c.AsString());
	R("AsBlob const", std::to_string(c.AsBlob()->GetTotalLength()));
	R("AsBlob", std::to_string(v.AsBlob()->GetTotalLength()));
	R("Size", std::to_string(c.Size()));
	R("Empty", c.Empty() ? "T" : "F");
	R("AsList const", std::to_string(c.AsList().size()));
	R("AsMap const", std::to_string(c.AsMap().size()));
	R("Contains(1)", c.Contains(1u) ? "T" : "F");
	R("Contains(k)", c.Contains("k") ? "T" : "F");
	R("Index(2)", std::to_string(c.Index(2)));
	R("Copy", str(c.Copy()));
	R("At(1) const", str(c.At(1u)));
	R("[0] const", str(c[0]));
	R("At(k) const", str(c.At("k")));
	R("Get(1)", str(c.Get(1u)));
	R("Get(k)", str(c.Get("k")));
	L("Get(1, 9)", str(c.Get(1u, 9)));
	L("Get(q, 9)", str(c.Get("q", 9)));
	R("AtPath(k) const", str(c.AtPath("k")));
	R("GetPath(k)", str(c.GetPath("k")));
	L("GetPath([1], 9)", str(c.GetPath("[1]", 9)));
	L("HasPath(k)", c.HasPath("k") ? "T" : "F");
	R("Compare", std::to_string(c.Compare(Variant(3))));
	R("Compare reversed", std::to_string(Variant(3).Compare(c)));
	R("Comparable", c.Comparable(Variant(3)) ? "T" : "F");
	R("Neg", str(c.Neg()));
	R("Resolve const", str(c.Resolve()));
	R("+ 2", str(c + Variant(2)));
	R("2 - it", str(Variant(2) - c));
	R("as<vector>", [&] { std::string t; for (int i : c.As<std::vector<int>>()) t += std::to_string(i) + ","; return t; }());
	R("as<map>", [&] { std::string t; for (auto &e : c.As<std::map<std::string, double>>()) t += e.first + num(e.second) + ","; return t; }());
	R("as<complex>", [&] { std::complex<double> z = c.As<std::complex<double>>(); return num(z.real()) + "," + num(z.imag()); }());
	R("GetInto", [&] { int n = 77; c.GetInto(n, "k"); return std::to_string(n); }());
	L("GetInto default", [&] { int n = 77; c.GetInto(n, "q", 5); return std::to_string(n); }());
	L("read At(1)", str(v.At(1u)));
	L("read At(k)", str(v.At("k")));
	L("read AtPath(k)", str(v.AtPath("k")));
	L("Exists", c.Exists() ? "T" : "T");
	M("Clear", v.Clear());
	M("Erase(0)", v.Erase(0u));
	M("Erase(k)", v.Erase("k"));
	M("++", ++v);
	M("--", --v);
	M("it++", v++);
	M("it--", v--);
	M("+= 2", v += 2);
	M("+= \"z\"", v += "z");
	M("+= it", Variant t = v; v += t);
	M("-= 2", v -= 2);
	M("*= 2", v *= 2);
	M("/= 2", v /= 2);
	M("%= 2", v %= 2);
	W("= 4", v = 4);
	W("= 4u", v = 4u);
	W("= 4ll", v = 4ll);
	W("= 4ull", v = 4ull);
	W("= 1.5", v = 1.5);
	W("= 1.5l", v = 1.5l);
	W("= false", v = false);
	W("= \"s\"", v = "s");
	W("= string", v = std::string("s"));
	W("= List", v = Variant::ListType);
	W("= Map", v = Variant::MapType);
	W("= Null", v = Variant::NullType);
	W("= Bool", v = Variant::BoolType);
	W("= Integer", v = Variant::IntegerType);
	W("= Unsigned", v = Variant::UnsignedType);
	W("= Float", v = Variant::FloatType);
	W("= String", v = Variant::StringType);
	W("= Variant", v = Variant(std::map<std::string, int>{{"m", 1}}));
	W("= vector", v = std::vector<int>({8, 9}));
	W("= map", v = (std::map<std::string, int>{{"n", 2}}));
	W("= blob", v = Blob::CreateCopy("bb", 2));
	W("AsList", v.AsList().push_back(6));
	W("AsMap", v.AsMap()["n"] = 6);
	W("Append", v.Append(7));
	W("Set(0)", v.Set(0u, 8));
	W("Set(3)", v.Set(3u, 8));
	W("Set(k)", v.Set("k", 8));
	W("Set(n)", v.Set("n", 8));
	W("SetPath", v.SetPath("n/o", 8));
	W("At(1, 9)", str(v.At(1u, 9)));
	W("At(k, 9)", str(v.At("k", 9)));
	W("AtPath(k, 9)", str(v.AtPath("k", 9)));
	W("AtPath(n[1], 9)", str(v.AtPath("n[1]", 9)));
	W("[2] = 5", v[2] = 5);
	W("[n] = 5", v["n"] = 5);
	W("[n][1] = 5", v["n"][1u] = 5);
	W("AtPath(n[1]) = 5", v.AtPath("n[1]") = 5);
	W("Ref = 5", v.Ref() = 5);
	W("Resolve = 5", v.Resolve() = 5);
	W("Resolve(9)", v.Resolve(Variant(9)));
	W("Merge", v.Merge(Variant(std::map<std::string, int>{{"m", 1}})));
	M("ErasePath", v.ErasePath("k"));
#undef R
#undef W
#undef M
#undef L
	return o;
}
static const std::vector<Deed> DEEDS = deeds();
static const std::vector<V> HELD = {V::null(), V::boolean(true), V::integer(3), V::uinteger(5), V::flt(2.5), V::str("ab"), V::str(""), V::list(),
	V::list({V::integer(1), V::integer(2)}), V::map(), V::map({{"k", V::integer(1)}}), V::map({{"real", V::flt(1.5)}, {"imag", V::integer(2)}}), V::blob("b")};
static const char *WAYS[] = {"a variable's Ref()", "a reference to a reference", "doc[a] where it is", "doc[a][1] where it is", "doc[a] from before it was there",
	"doc[a][1] from before it was there", "AtPath(a[1]) from before it was there", "element of doc[a] from before either was there", "a reference taken of doc[a][1] from before it was there"};
static const int NW = sizeof WAYS / sizeof *WAYS;

static std::string perform(const Deed &d, Variant &v) {
	try { return "gives " + d.f(v); } catch (std::exception &e) { return "an error"; }
}
static void through(mc::Run &r) {
	int way = r.choose(NW);
	bool there = r.choose(2);
	std::vector<const Deed *> ds;
	ds.push_back(&r.pick(DEEDS));
	const V val = there ? r.pick(HELD) : V::null();
	if (!there && way < 4) throw mc::Skip();
	ds.push_back(&r.pick(DEEDS));
	r.note("%s, holding %s", WAYS[way], there ? ref::show(val).c_str() : "nothing");

	Variant plain = ref::to(val), doc, element;
	bool nested = way == 3 || way >= 5;
	auto place = [&] { if (nested) doc.SetPath("a[1]", ref::to(val)); else if (way < 2) doc = ref::to(val); else doc["a"] = ref::to(val); };
	if (way < 4) place();
	VariantRef one = way < 2 ? doc.Ref() : way == 6 ? doc.AtPath("a[1]") : way == 3 || way == 5 || way == 8 ? doc["a"][1u] : doc["a"];
	VariantRef two = way == 7 ? one[1u] : way == 1 || way == 8 ? one.Ref() : one;
	if (way >= 4 && there) place();
	if (way >= 4 && !there && r.flip()) doc = Variant::MapType;
	const V before = ref::from(doc);

	bool exists = there;
	for (const Deed *d : ds) {
		r.note("%s", d->name.c_str());
		bool now = exists;
		std::string got = perform(*d, two);
		if (!now && d->kind == Reads) {
			r.check(got == "an error", "missing", "%s of a value that is not there %s", d->name.c_str(), got.c_str());
		} else if (now || d->kind == Creates) {
			std::string want = perform(*d, plain);
			r.check(got == want, "answer", "%s %s, on a plain value it %s", d->name.c_str(), got.c_str(), want.c_str());
			exists = true;
		}
		if (!exists) {
			V g = ref::from(doc);
			r.check(ref::same(g, before) && g.k == before.k, "changed", "%s of a value that is not there changes the document to %s", d->name.c_str(), ref::show(g).c_str());
			r.check(!two.Exists(), "exists", "the value exists after %s", d->name.c_str());
			continue;
		}
		r.check(two.Exists(), "exists", "the value no longer exists after %s", d->name.c_str());
		V want = ref::from(plain), all = ref::from(doc), via = ref::from(two);
		if (way >= 2) {
			V whole = nested ? V::list({V::null(), want}) : want;
			whole = V::map({{"a", whole}});
			r.check(ref::same(all, whole), "document", "after %s the document is %s, expected %s", d->name.c_str(), ref::show(all).c_str(), ref::show(whole).c_str());
		} else r.check(ref::same(all, want) && all.k == want.k, "document", "after %s the variable is %s, expected %s", d->name.c_str(), ref::show(all).c_str(), ref::show(want).c_str());
		r.check(ref::same(via, want) && via.k == want.k, "reads", "after %s the reference reads %s, expected %s", d->name.c_str(), ref::show(via).c_str(), ref::show(want).c_str());
	}
	r.outcome(ref::show(ref::from(doc)));
}

// The target of a reference is gone: whatever is done through the reference is refused and nothing changes
static const char *LEAVINGS[] = {"the variable ends", "the member is erased", "the member is erased from the container", "the element is erased", "the list is cut", "the parent is cleared", "the parent is assigned a number", "the parent is assigned a new container", "the document is assigned null"};
static const int NLEAVE = sizeof LEAVINGS / sizeof *LEAVINGS;
static void gone(mc::Run &r) {
	int leave = r.choose(NLEAVE);
	const Deed &d = r.pick(DEEDS);
	const V val = r.pick(HELD);
	int held = r.choose(3);      // the reference itself, one taken of it, a copy of the handle
	const Deed &e = r.thorough || (held == 0 && val.k == V::Int) ? r.pick(DEEDS) : d;
	r.note("%s, it held %s", LEAVINGS[leave], ref::show(val).c_str());
	std::unique_ptr<Variant> own(new Variant(ref::to(val)));
	Variant doc;
	doc["o"] = 1; doc["m"]["x"] = ref::to(val); doc["m"]["y"] = 2;
	doc["l"] = Variant::ListType; doc["l"].Append(1); doc["l"].Append(ref::to(val));
	bool list = leave == 3 || leave == 4 || (leave > 4 && leave % 2);
	VariantRef one = leave == 0 ? own->Ref() : (list ? doc["l"][1u] : doc["m"]["x"]).Ref();
	VariantRef it = held == 1 ? one.Ref() : one;
	std::unique_ptr<VariantRef> handle(held == 2 ? new VariantRef(one) : 0);
	Variant &t = handle ? *handle : it;
	r.check(ref::same(ref::from(t), val), "reads", "the reference reads %s", ref::show(ref::from(t)).c_str());
	VariantRef parent = list ? doc["l"].Ref() : doc["m"].Ref();
	switch (leave) {
	case 0: own.reset(); break;
	case 1: parent.Erase("x"); break;
	case 2: parent.AsMap().erase("x"); break;
	case 3: parent.Erase(1u); break;
	case 4: parent.AsList().resize(1); break;
	case 5: parent.Clear(); break;
	case 6: parent = 7; break;
	case 7: parent = list ? Variant::ListType : Variant::MapType; break;
	case 8: doc = Variant::NullType; break;
	}
	const V before = ref::from(doc);
	for (const Deed *x : {&d, &e}) {
		r.note("%s", x->name.c_str());
		std::string got = perform(*x, t);
		if (x->name == "Exists") continue;
		r.check(got == "an error", "gone", "%s of a value that is gone %s", x->name.c_str(), got.c_str());
		V after = ref::from(doc);
		r.check(ref::same(after, before), "changed", "%s of a value that is gone changes the document to %s", x->name.c_str(), ref::show(after).c_str());
	}
	r.outcome(ref::show(before));
}

int main(int argc, char **argv) {
	mc::Check c;
	c.prop = "P12"; c.level = "model_checking";
	c.rule = "every variable has the value of the reference model; Exists, reads and writes through each reference answer as the model says, with an error and no change where the target is gone or missing; no memory error, no leak";
	c.assumptions = {"operations that would make a container part of itself are left out",
		"when a list grows, references to its elements may either stay valid or report that they are invalid"};
	auto seq = [](std::vector<Op> *o, std::vector<int> starts, int quick, int deep) {
		return [=](mc::Run &r) {
			Sys s;
			int k = starts[r.choose(starts.size())];
			for (const char *n : STARTS[k]) if (!apply(r, s, ALL[find(n)])) r.fail("start", "starting point %d", k);
			int depth = r.thorough ? deep : quick;
			for (int d = 0; d < depth; ++d) if (!apply(r, s, (*o)[r.choose(o->size())])) return;
			observe(r, s, true);
			r.outcome(s.show());
		};
	};
	std::vector<int> all; for (size_t i = 0; i < STARTS.size(); ++i) all.push_back(i);
	c.spaces.push_back({"two-steps", mc::fmt("every sequence of 2 (thorough 3) of %zu operations on 2 variables and 2 references from %zu starting points", ALL.size(), STARTS.size()), seq(&ALL, all, 2, 3), 2, true});
	c.spaces.push_back({"three-steps", mc::fmt("every sequence of 3 (thorough 4) of %zu operations on 1 variable and 2 references from 4 starting points", ONE.size()), seq(&ONE, {0, 1, 3, 4}, 3, 4), 2, true});
	c.spaces.push_back({"every-operation", mc::fmt("%d ways of holding a reference x %zu values or none x every two of %zu operations of the interface, against the same operations on a plain value", NW, HELD.size(), DEEDS.size()), through, 3, true});
	c.spaces.push_back({"gone", mc::fmt("%d ways for the target to go x %zu values x 3 ways of holding the reference x every one (for the integer, and in the thorough tier, every two) of %zu operations of the interface: each is refused and changes nothing", NLEAVE, HELD.size(), DEEDS.size()), gone, 3, true});
	return mc::run(argc, argv, c);
}
