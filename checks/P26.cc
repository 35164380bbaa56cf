// P26: event-by-event output equals serializing, and parsers deliver the events of the document.
#include "values.hpp"
#include <Variant/Emitter.h>
#include <Variant/Parser.h>
#include <Variant/ParserInput.h>
#include "EventBuffer.h"
#include <sstream>
using namespace libvariant;
using ref::V;

static const SerializeType F[] = {SERIALIZE_JSON, SERIALIZE_YAML, SERIALIZE_XMLPLIST, SERIALIZE_BUNDLEHDR};
static const char *FN[] = {"JSON", "YAML", "XML", "bundle header"};
static const double INF = std::numeric_limits<double>::infinity();
static const std::vector<V> SCALARS = {V(), V::boolean(true), V::boolean(false), V::integer(0), V::integer(-7), V::uinteger(UINTMAX_MAX), V::integer(INTMAX_MIN), V::flt(0.5), V::flt(-1e300), V::str(""), V::str("a"), V::str("1"), V::str("null"), V::str("x: y\n- \"z\" <&>"), V::str("\xc3\xa9"), V::str(std::string("n\0l", 3)), V::blob(""), V::blob(std::string("\0\xff", 2)), V::flt(INF)};
static bool fits(int f, const V &v, int depth = 0) {
	if (v.k == V::Str && v.s.find('\0') != std::string::npos && f != 0 && f != 1) return false;
	if (f == 3) {
		if (v.k == V::Blob) return false;
		if (v.k == V::Str && v.s.find_first_of("\n:#|") != std::string::npos) return false;
		if (v.k == V::Map && depth > 0) return false;
		if (v.k == V::List && depth != 1) return false;
		if (depth == 0 && v.k != V::Map) return false;
	}
	if (f == 0 && depth == 0 && v.k != V::Map && v.k != V::List) return false;
	for (auto &e : v.l) if (!fits(f, e, depth + 1)) return false;
	for (auto &e : v.m) if (!fits(f, e.second, depth + 1) || !fits(f, V::str(e.first), depth + 1) || (f == 3 && (e.first.empty() || e.first.find_first_of(" \t") != std::string::npos))) return false;
	return true;
}

// ---- events
struct Ev { char k; V v; int len; };
typedef std::vector<Ev> Evs;
static void events(const V &v, Evs &o) {
	if (v.k == V::List) { o.push_back({'[', V(), (int)v.l.size()}); for (auto &e : v.l) events(e, o); o.push_back({']', V(), 0}); }
	else if (v.k == V::Map) { o.push_back({'{', V(), (int)v.m.size()}); for (auto &e : v.m) { o.push_back({'s', V::str(e.first), 0}); events(e.second, o); } o.push_back({'}', V(), 0}); }
	else o.push_back({'s', v, 0});
}
static std::string show(const Evs &e) { std::string s; for (auto &x : e) { if (x.k == 's') s += ref::show(x.v) + " "; else (s += x.k) += ' '; } return s; }
static void fire(Emitter &e, const Ev &x, bool lengths) {
	switch (x.k) {
	case 'B': e.BeginDocument(); break;
	case 'E': e.EndDocument(); break;
	case '[': if (lengths) e.BeginList(x.len); else e.BeginList(); break;
	case '{': if (lengths) e.BeginMap(x.len); else e.BeginMap(); break;
	case ']': e.EndList(); break;
	case '}': e.EndMap(); break;
	default:
		switch (x.v.k) {
		case V::Null: e.EmitNull(); break;
		case V::Bool: if (lengths) e.Emit(x.v.b); else if (x.v.b) e.EmitTrue(); else e.EmitFalse(); break;
		case V::Int: e.Emit(x.v.i); break;
		case V::Uint: e.Emit(x.v.u); break;
		case V::Flt: e.Emit(x.v.f); break;
		case V::Str: if (lengths && x.v.s.find('\0') == std::string::npos) e.Emit(x.v.s.c_str()); else e.Emit(x.v.s); break;
		case V::Blob: e.Emit((ConstBlobPtr)Blob::CreateCopy(x.v.s.data(), x.v.s.size())); break;
		default: break;
		}
	}
}
struct Out {
	std::stringbuf sb; Emitter e;
	Out(SerializeType t, Variant p = Variant()) : e(CreateEmitter(CreateEmitterOutput(&sb), t, p)) {}
	std::string text() { e.Close(); return sb.str(); }
};
static V value(mc::Run &r, int depth, int width) {
	int k = r.choose(depth ? 4 : 2);
	if (k < 2) return SCALARS[r.choose(depth == 0 && !r.thorough ? 6 : SCALARS.size())];
	int n = r.choose(width + 1);
	V v = k == 2 ? V::list({}) : V::map({});
	static const char *KEYS[] = {"a", "b c", "1"};
	for (int i = 0; i < n; ++i) { V e = value(r, depth - 1, width - 1); if (k == 2) v.l.push_back(e); else v.m[KEYS[i]] = e; }
	return v;
}
static void judge(mc::Run &r, int f, const V &v, Variant params, int way) {
	if (!fits(f, v) || !r.fresh()) return;
	r.note("%s of %s with %s way %d", FN[f], ref::show(v).c_str(), ref::show(ref::from(params)).c_str(), way);
	std::string want, got;
	try { want = Serialize(ref::to(v), F[f], params); } catch (const std::exception &e) { r.fail("serialize", "%s", e.what()); }
	Evs ev;
	events(v, ev);
	try {
		switch (way) {
		case 0: case 1: { Out o(F[f], params); for (auto &x : ev) fire(o.e, x, way); got = o.text(); break; }
		case 2: { Out o(F[f], params); for (auto &x : ev) { fire(o.e, x, true); o.e.Flush(); } got = o.text(); break; }
		case 3: { EventBuffer b; Emitter e((shared_ptr<EmitterImpl>(&b, [](EmitterImpl *) {}))); for (auto &x : ev) fire(e, x, false); Out o(F[f], params); b.Playback(o.e); r.check(b.Done(), "playback", "events are left"); got = o.text(); break; }
		case 4: {       // recorded, copied, and played from both
			EventBuffer b; Emitter e((shared_ptr<EmitterImpl>(&b, [](EmitterImpl *) {})));
			for (auto &x : ev) fire(e, x, false);
			EventBuffer c(b), d(b);
			r.check(c.Equal(b) && c.NumEvents() == ev.size() && c.GetLevel() == 0, "copy", "a copy of recorded events differs");
			Out o(F[f], params), p(F[f], params);
			b.Playback(o.e); c.Playback(p.e);
			got = o.text();
			std::string two = p.text();
			r.check(got == two, "copy", "a copy plays %s, the original %s", mc::q(two).c_str(), mc::q(got).c_str());
			break;
		}
		default: {      // container by container
			Out o(F[f], params);
			if (v.k == V::List) { std::vector<Variant> l; for (auto &e : v.l) l.push_back(ref::to(e)); o.e << l; }
			else if (v.k == V::Map) { std::map<std::string, Variant> m; for (auto &e : v.m) m[e.first] = ref::to(e.second); o.e << m; }
			else o.e << ref::to(v);
			got = o.text();
		}
		}
	} catch (const std::exception &e) { r.fail("error", "%s; events %s", e.what(), show(ev).c_str()); }
	r.step(ev.size());
	r.check(got == want, "text", "events give %s, serializing %s", mc::q(got).c_str(), mc::q(want).c_str());
	r.state(mc::hash(got)); r.outcome(FN[f]);
}
static Variant params_of(mc::Run &r, int f) {
	Variant p;
	switch (r.choose(f == 3 ? 1 : 3)) {
	case 1: if (f == 1) p["list_style"] = "flow"; else p["pretty"] = true; break;
	case 2: if (f == 1) { p["map_style"] = "block"; p["list_style"] = "block"; p["implicit_document_begin"] = true; } else { p["pretty"] = true; p["indent"] = 2; p["precision"] = 5; } break;
	}
	return p;
}
static void emitted(mc::Run &r) {
	int f = r.choose(4), way = r.choose(6);
	Variant p = params_of(r, f);
	V v = value(r, 2, 2);
	judge(r, f, v, p, way);
}
static void scalars(mc::Run &r) {
	int f = r.choose(4), way = r.choose(6), kind = r.choose(3);
	V v = kind == 0 ? V::list({gen::integer(r)}) : kind == 1 ? gen::doubles(r, f != 1) : V::list({r.pick(SCALARS), r.pick(SCALARS)});
	if (f == 3) v = V::map({{"k", v}});
	judge(r, f, v, Variant(), way);
}

// ---- the operators for C++ types
template<typename T> static void typed1(mc::Run &r, SerializeType t, T x, const V &v) {
	if (!r.fresh()) return;
	Out a(t), b(t), c(t), d(t);
	std::vector<T> l(2, x); std::map<std::string, T> m; m["k"] = x; m["l"] = x;
	std::vector<std::map<std::string, T> > n(1, m);
	a.e << l; b.e << n;
	std::string ga = a.text(), wa = Serialize(ref::to(V::list({v, v})), t), gb = b.text(), wb = Serialize(ref::to(V::list({V::map({{"k", v}, {"l", v}})})), t);
	r.step(2);
	r.check(ga == wa, "typed", "list of %s gives %s, not %s", ref::show(v).c_str(), mc::q(ga).c_str(), mc::q(wa).c_str());
	r.check(gb == wb, "typed", "map of %s gives %s, not %s", ref::show(v).c_str(), mc::q(gb).c_str(), mc::q(wb).c_str());
	r.state(mc::hash(ga));
}
template<typename T> static void ints(mc::Run &r, SerializeType t) {
	static const T X[] = {std::numeric_limits<T>::min(), std::numeric_limits<T>::max(), 0, 1, T(-1), T(-2), T(std::numeric_limits<T>::max() / 2 + 1), T(127), T(128), T(200)};
	T x = X[r.choose(10)];
	typed1(r, t, x, x < 0 ? V::integer(x) : V::uinteger(x));
}
static void typed(mc::Run &r) {
	SerializeType t = F[r.choose(3)];
	switch (r.choose(17)) {
	case 0: ints<char>(r, t); break;
	case 1: ints<short>(r, t); break;
	case 2: ints<int>(r, t); break;
	case 3: ints<long>(r, t); break;
	case 4: ints<long long>(r, t); break;
	case 5: ints<unsigned char>(r, t); break;
	case 6: ints<unsigned short>(r, t); break;
	case 7: ints<unsigned>(r, t); break;
	case 8: ints<unsigned long>(r, t); break;
	case 9: ints<unsigned long long>(r, t); break;
	case 10: { static const float X[] = {0, 1, 0.1f, -2.5f, 3.4e38f, 1e-45f, 16777217.f}; float x = X[r.choose(7)]; typed1(r, t, x, V::flt(double(x))); break; }
	case 11: { static const double X[] = {0, 1, 0.1, -2.5, 1e300, 5e-324}; double x = X[r.choose(6)]; typed1(r, t, x, V::flt(x)); break; }
	case 12: { std::string x = std::vector<std::string>{"", "a", "1", "\xc3\xa9", "true"}[r.choose(5)]; typed1(r, t, x, V::str(x)); break; }
	case 13: { static const char *X[] = {"", "a", "1", "x y"}; const char *x = X[r.choose(4)]; typed1(r, t, x, V::str(x)); break; }
	case 14: { std::string x = std::vector<std::string>{"", "a", std::string("\0b", 2)}[r.choose(3)]; typed1(r, t, (ConstBlobPtr)Blob::CreateCopy(x.data(), x.size()), V::blob(x)); break; }
	case 15: { bool x = r.choose(2); Out a(t); a.e.BeginList(2) << x << !x; a.e.EndList(); if (!r.fresh()) break; std::string g = a.text(), w = Serialize(ref::to(V::list({V::boolean(x), V::boolean(!x)})), t); r.check(g == w, "typed", "bool gives %s", mc::q(g).c_str()); r.step(1); break; }
	default: { V x = SCALARS[r.choose(15)]; typed1(r, t, ref::to(x), x); }
	}
}

// ---- what a parser delivers
struct Log : ParserActions {
	Evs *o; const std::vector<bool> *stop; Parser *p;
	void put(const Ev &e) { o->push_back(e); size_t i = o->size() - 1; if (stop && i < stop->size() && (*stop)[i]) p->PopAction(); }
	void BeginDocument(ParserImpl *) override { put({'B', V(), 0}); }
	void EndDocument(ParserImpl *) override { put({'E', V(), 0}); }
	void BeginMap(ParserImpl *, int n, const char *, const char *) override { put({'{', V(), n}); }
	void EndMap(ParserImpl *) override { put({'}', V(), 0}); }
	void BeginList(ParserImpl *, int n, const char *, const char *) override { put({'[', V(), n}); }
	void EndList(ParserImpl *) override { put({']', V(), 0}); }
	void Scalar(ParserImpl *, double v, const char *, const char *) override { put({'s', V::flt(v), 0}); }
	void Scalar(ParserImpl *, const char *s, unsigned n, const char *, const char *) override { put({'s', V::str(std::string(s, n)), 0}); }
	void Scalar(ParserImpl *, bool v, const char *, const char *) override { put({'s', V::boolean(v), 0}); }
	void Null(ParserImpl *, const char *, const char *) override { put({'s', V(), 0}); }
	void Scalar(ParserImpl *, intmax_t v, const char *, const char *) override { put({'s', V::integer(v), 0}); }
	void Scalar(ParserImpl *, uintmax_t v, const char *, const char *) override { put({'s', V::uinteger(v), 0}); }
	void Scalar(ParserImpl *, BlobPtr b, const char *, const char *) override { put({'s', ref::from(Variant(b)), 0}); }
};
static bool same_events(const Evs &a, const Evs &b) {
	if (a.size() != b.size()) return false;
	for (size_t i = 0; i < a.size(); ++i) if (a[i].k != b[i].k || (a[i].k == 's' && !ref::same(a[i].v, b[i].v))) return false;
	return true;
}
static const std::vector<V> TREES = {V::list({}), V::map({}), V::list({V::integer(1)}), V::list({V::list({V::str("x")}), V()}), V::map({{"a", V::integer(1)}, {"b", V::boolean(true)}}), V::map({{"a", V::list({})}, {"b", V::map({})}}), V::list({V::map({{"k", V::list({V::integer(2), V::flt(0.5)})}})}), V::list({V::blob("xy"), V::str("s"), V::boolean(false)}), V::map({{"l", V::list({V::str("p"), V::str("q")})}}), V::list({V::list({V::list({})})}), V::map({{"m", V::map({{"n", V()}})}, {"o", V::str("1")}})};
static const std::vector<V> FLAT = {V::map({}), V::map({{"a", V::integer(1)}, {"b", V::str("x")}}), V::map({{"l", V::list({V::str("p"), V::integer(2)})}, {"n", V::integer(7)}})};
// expected events of the document a value serializes to
static Evs document(const V &v) { Evs e; e.push_back({'B', V(), 0}); events(v, e); e.push_back({'E', V(), 0}); return e; }
static std::string text_of(int f, const V &v, bool pretty) {
	Variant p;
	if (pretty && f != 1 && f != 3) p["pretty"] = true;
	if (pretty && f == 1) { p["list_style"] = "block"; p["map_style"] = "block"; }
	std::stringbuf sb;
	Emitter e = CreateEmitter(CreateEmitterOutput(&sb), F[f], p);
	e.BeginDocument(); e << ref::to(v); e.EndDocument(); e.Close();
	return sb.str();
}
// Reading stops whenever the last action is popped; pushing it again goes on with the next event.
static void suspended(mc::Run &r) {
	int f = r.choose(4), pretty = f == 3 ? 0 : r.choose(2);
	const V &v = r.pick(f == 3 ? FLAT : TREES);
	Evs want = document(v);
	std::vector<bool> stop;
	size_t most = r.thorough ? 16 : 11;       // beyond, as at the first two
	for (size_t i = 0; i + 1 < want.size(); ++i) {
		// JSON scalars without quotes are delivered together with what follows them
		bool plain = f == 0 && want[i].k == 's' && want[i].v.k != V::Str && want[i].v.k != V::Blob;
		stop.push_back(plain ? false : i < most ? r.choose(2) != 0 : stop[i % 2]);
	}
	if (!r.fresh()) return;
	std::string s = text_of(f, v, pretty), at;
	for (bool b : stop) at += b ? '1' : '0';
	r.note("%s %s stops %s", FN[f], mc::q(s).c_str(), at.c_str());
	Evs got;
	try {
		Parser p = CreateParser(CreateParserInput(s.data(), (unsigned)s.size()), F[f]);
		std::shared_ptr<Log> log(new Log); log->o = &got; log->stop = &stop; log->p = &p;
		shared_ptr<ParserActions> a(log);
		bool pushed = false;
		for (int i = 0; i < 200; ++i) {
			size_t before = got.size();
			if (!pushed) { p.PushAction(a); pushed = true; }
			int res = p.Run();
			r.step(1);
			if (got.size() > 0 && got.size() > before && got.size() <= stop.size() && stop[got.size() - 1]) { pushed = false; continue; }
			if (res != 0 || p.Done()) break;
			if (!got.empty() && got.back().k == 'E') break;
		}
	} catch (const std::exception &e) { r.fail("suspend-error", "%s after events %s", e.what(), show(got).c_str()); }
	r.check(same_events(got, want), "suspend", "events %s, not %s", show(got).c_str(), show(want).c_str());
	r.state(mc::hash(s + at)); r.outcome(FN[f]);
}
// A document recorded from a parser and played into an emitter of the same format.
static void replayed(mc::Run &r) {
	int f = r.choose(4), pretty = f == 3 ? 0 : r.choose(2), way = r.choose(4);
	V v = value(r, 2, 2);
	if (f == 3) { if (v.k != V::Map) v = V::map({{"k", v}}); }
	else if (v.k != V::Map && v.k != V::List) v = V::list({v});
	if (!fits(f, v) || !r.fresh()) return;
	// infinity has no notation in JSON; bundle headers guess all types
	if (f == 0) for (auto &e : {V::flt(INF)}) if (ref::show(v).find(ref::show(e)) != std::string::npos) return;
	std::string s = text_of(f, v, pretty), got;
	r.note("%s %s way %d", FN[f], mc::q(s).c_str(), way);
	V back;
	try {
		Parser p = CreateParser(CreateParserInput(s.data(), (unsigned)s.size()), F[f]);
		EventBuffer b;
		Variant prm;
		if (pretty && f != 1 && f != 3) prm["pretty"] = true;
		if (pretty && f == 1) { prm["list_style"] = "block"; prm["map_style"] = "block"; }
		Out o(F[f], prm);
		switch (way) {
		case 0: b.Fill(p); b.Playback(o.e); got = o.text(); break;
		case 1: {
			shared_ptr<ParserActions> a(new EmitterParserActions(o.e));
			p.PushAction(a);
			while (!p.Done() && p.Run() == 0 && !(f == 1 && o.sb.str() == s)) {}
			p.PopAction();
			got = o.text();
			break;
		}
		case 2: { b.Fill(p); EventBuffer c(b); r.check(c.Equal(b), "record", "copy differs"); c.Playback(o.e); got = o.text(); break; }
		default: { b.Fill(p); Parser q((shared_ptr<ParserImpl>(&b, [](ParserImpl *) {}))); back = ref::from(ParseVariant(q)); }
		}
	} catch (const std::exception &e) { r.fail("replay-error", "%s", e.what()); }
	r.step(1);
	if (way == 3) { V want = ref::from(Deserialize(s, F[f])); r.check(ref::same(back, want), "record", "the recorded events give %s, the text %s", ref::show(back).c_str(), ref::show(want).c_str()); }
	else {
		// a bundle header holds no types, so its text is that of the value read from it
		std::string want = f == 3 ? text_of(f, ref::from(Deserialize(s, F[f])), false) : s;
		r.check(got == want, "replay", "replaying gives %s", mc::q(got).c_str());
	}
	r.state(mc::hash(s)); r.outcome(FN[f]);
}

// Events recorded in part, copied, and recorded to the end in the copy, the original or both.
static void recording(mc::Run &r) {
	const V &v = r.pick(TREES);
	Evs ev = document(v);
	int wrap = r.choose(2);
	if (!wrap) { ev.erase(ev.begin()); ev.pop_back(); }
	size_t cut = r.choose(ev.size() + 1);
	int who = r.choose(4), stop = r.choose(2);
	bool lengths = r.choose(2);
	int copied = r.choose(4);
	if (!r.fresh()) return;
	r.note("%s cut at %zu, continued in %d", show(ev).c_str(), cut, who);
	std::unique_ptr<EventBuffer> a(new EventBuffer), b, c;
	auto rec = [&](EventBuffer &x, size_t from, size_t to) { Emitter e((shared_ptr<EmitterImpl>(&x, [](EmitterImpl *) {}))); for (size_t i = from; i < to; ++i) fire(e, ev[i], lengths); };
	auto play = [&](EventBuffer &x, const Evs &want, const char *what) {
		Evs got;
		r.check(x.NumEvents() == want.size(), "record", "%s has %u events", what, x.NumEvents());
		std::shared_ptr<Log> log(new Log); log->o = &got; log->stop = 0; log->p = 0;
		Parser p((shared_ptr<ParserImpl>(&x, [](ParserImpl *) {})));
		p.PushAction(shared_ptr<ParserActions>(log));
		while (!p.Done()) p.Run();
		r.step(got.size());
		r.check(same_events(got, want), "record", "%s plays %s", what, show(got).c_str());
		for (size_t i = 0; i < got.size(); ++i) if (want.size() == ev.size() && (got[i].k == '[' || got[i].k == '{'))
			r.check(got[i].len == ev[i].len || (!lengths && got[i].len == -1), "length", "%s gives length %d at event %zu of %s", what, got[i].len, i, show(ev).c_str());
	};
	Evs part(ev.begin(), ev.begin() + cut);
	rec(*a, 0, cut);
	int level = a->GetLevel();
	if (copied == 0) b.reset(new EventBuffer(*a));
	else {
		b.reset(new EventBuffer);
		if (copied > 1) { rec(*b, 0, ev.size()); rec(*b, 0, cut); }
		*b = *a;
		if (copied == 3) { EventBuffer &self = *b; *b = self; }
	}
	r.check(b->GetLevel() == level && b->Equal(*a) && a->Equal(*b), "copy", "the copy differs");
	switch (who) {
	case 0: a.reset(); rec(*b, cut, ev.size()); if (stop) { c.reset(new EventBuffer(*b)); play(*c, ev, "copy of copy"); } play(*b, ev, "copy"); break;
	case 1: rec(*a, cut, ev.size()); play(*b, part, "copy"); play(*a, ev, "original"); break;
	case 2: rec(*b, cut, ev.size()); play(*a, part, "original"); a.reset(); play(*b, ev, "copy"); break;
	default: if (stop) { rec(*a, cut, ev.size()); rec(*b, cut, ev.size()); } else { rec(*b, cut, ev.size()); rec(*a, cut, ev.size()); } r.check(a->Equal(*b), "copy", "continued alike, they differ"); play(*a, ev, "original"); a.reset(); play(*b, ev, "copy");
	}
	r.state(mc::hash(show(ev))); r.outcome(mc::fmt("%d", who));
}
// Recorded sequences are equal exactly when their events are.
static void equality(mc::Run &r) {
	static const std::vector<Ev> E = {{'B', V(), 0}, {'E', V(), 0}, {'[', V(), 0}, {']', V(), 0}, {'{', V(), 0}, {'}', V(), 0}, {'s', V(), 0}, {'s', V::boolean(true), 0}, {'s', V::boolean(false), 0}, {'s', V::integer(0), 0}, {'s', V::integer(1), 0}, {'s', V::uinteger(1), 0}, {'s', V::uinteger(0), 0}, {'s', V::flt(0), 0}, {'s', V::flt(1), 0}, {'s', V::str(""), 0}, {'s', V::str("a"), 0}, {'s', V::blob("a"), 0}, {'s', V::blob("b"), 0}, {'s', V::blob(""), 0}};
	size_t i = r.choose(E.size()), j = r.choose(E.size()), k = r.choose(3);
	if (!r.fresh()) return;
	r.note("%s and %s", show(Evs(1, E[i])).c_str(), show(Evs(1, E[j])).c_str());
	EventBuffer a, b;
	Emitter x((shared_ptr<EmitterImpl>(&a, [](EmitterImpl *) {}))), y((shared_ptr<EmitterImpl>(&b, [](EmitterImpl *) {})));
	if (k == 1) { x.BeginList(); y.BeginList(); }
	fire(x, E[i], false); fire(y, E[j], false);
	if (k == 2) { x.EmitNull(); }
	bool same = i == j || (E[i].k == 's' && E[j].k == 's' && (E[i].v.k == V::Int || E[i].v.k == V::Uint) && (E[j].v.k == V::Int || E[j].v.k == V::Uint) && ref::same(E[i].v, E[j].v)), want = same && k != 2;
	r.step(1);
	r.check(a.Equal(b) == want && b.Equal(a) == want, "equality", "Equal says %d and %d", a.Equal(b), b.Equal(a));
	r.outcome(want ? "equal" : "different"); r.state(i * 32 + j);
}

// One text after the other from the same input, at the end of each until the next is asked for.
struct Texts : ParserInput {
	std::string s; size_t at = 0, most = 0;
	const void *GetPtr(unsigned &len) override {
		if (at >= s.size()) { len = 0; return nullptr; }
		size_t n = s.size() - at;
		if (most && n > most) n = most;
		if (!len || len > n) len = (unsigned)n;
		return s.data() + at;
	}
	void Release(unsigned n) override { at += n; }
};
struct Told { Evs evs; char last; std::string what; };     // last: '1' done, 'x' threw, '0' interrupted
static const std::vector<std::string> DOCS[4] = {
	{"[1,2]", "{\"a\":[{}]}", " [ ] ", "[1", "[}", "{\"a\"", "", "[1,2,,3]"},
	{"[1, 2]\n", "a: [{}]\n", "--- x\n...\n", "[1", "[}", "a: b: c\n", "", "--- 1\n--- 2\n", "a: &x 1\nb: *x\n", "a: 'x\n"},
	{"<plist><array><integer>1</integer><string>x</string></array></plist>", "<plist><dict><key>a</key><array><dict></dict></array></dict></plist>", "<plist><array></array></plist>\n", "<plist><array>", "<plist><array></dict></plist>", "<plist><wrong>1</wrong></plist>", "", "<plist><array><integer>1</array></plist>", "<plist><dict><key>a"},
	{"A: 1\n", "A: {\n  B: 1\n  C: x y\n}\nD: 2\n", "A: x\n\nrest", "A: 1", "A: {\n", "nothing\n", "", "A: {\n  B: 1\n"}};
static Told drive(mc::Run &r, Parser &p, int calls, bool status) {
	Told t; t.last = '0';
	std::shared_ptr<Log> log(new Log); log->o = &t.evs; log->stop = nullptr; log->p = &p;
	shared_ptr<ParserActions> a(log);
	p.PushAction(a);
	if (status) r.check(p.Ok() && !p.Error() && !p.Done(), "status-start", "before the first Run: Ok %d Error %d Done %d", p.Ok(), p.Error(), p.Done());
	for (int i = 0; i < calls; ++i) {
		bool done = p.Done();
		size_t before = t.evs.size();
		int res = -2;
		try { res = p.Run(); } catch (const std::exception &e) { t.what = e.what(); t.last = 'x'; }
		r.step(1);
		if (done) {
			r.check(res == 1 && t.evs.size() == before, "status-done", "Done, yet Run returns %d with %zu events", res, t.evs.size() - before);
		}
		if (t.last == 'x') {
			if (status) {
				r.check(p.Error() && !p.Ok(), "status-error", "Run threw \"%s\": Ok %d Error %d", t.what.c_str(), p.Ok(), p.Error());
				r.check(!p.ErrorStr().empty(), "status-text", "Run threw \"%s\", no description of the error", t.what.c_str());
			}
			break;
		}
		if (res == 1) {
			r.check(p.Done() && !p.Error(), "status-end", "Run returned 1: Done %d Error %d", p.Done(), p.Error());
			t.last = '1';
			break;
		}
		r.check(res == 0 || res == -1, "status-result", "Run returns %d", res);
		r.check(p.Ok() && !p.Error(), "status-ok", "Run returned %d: Ok %d Error %d", res, p.Ok(), p.Error());
		if (i > 100) r.fail("status-endless", "no end after %d calls, %zu events", i, t.evs.size());
	}
	p.PopAction();
	return t;
}
// The parser tells its status at every step; Reset makes it as good as new, wherever it had got to.
static void status(mc::Run &r) {
	int f = r.choose(4);
	const std::string &first = r.pick(DOCS[f]), &second = r.pick(DOCS[f]);
	int calls = r.choose(r.thorough ? 14 : 9), most = r.choose(2);
	if (!r.fresh()) return;
	if (calls == 8) calls = 200; else if (r.thorough && calls > 8) --calls;
	r.note("%s %s%s, %d calls, then %s", FN[f], mc::q(first).c_str(), most ? " by the byte" : "", calls, mc::q(second).c_str());
	std::shared_ptr<Texts> in(new Texts), in2(new Texts);
	in->s = first; in2->s = second;
	in->most = in2->most = most;
	Parser p = CreateParser(shared_ptr<ParserInput>(in), F[f]);
	Told one = drive(r, p, calls, true);
	if (one.last == '1' ) {
		// done stays done
		Told more = drive(r, p, 2, false);
		r.check(more.last == '1' && more.evs.empty(), "status-more", "after the end: %s and %c", show(more.evs).c_str(), more.last);
	}
	in->s = second; in->at = 0;
	p.Reset();
	Told two = drive(r, p, 200, true);
	Parser q = CreateParser(shared_ptr<ParserInput>(in2), F[f]);
	Told want = drive(r, q, 200, true);
	r.check(two.last == want.last && same_events(two.evs, want.evs), "reset", "after Reset events %s and %c%s, a new parser %s and %c%s", show(two.evs).c_str(), two.last, two.what.c_str(), show(want.evs).c_str(), want.last, want.what.c_str());
	if (want.last == 'x') r.check(p.ErrorStr() == q.ErrorStr(), "reset-text", "after Reset \"%s\", a new parser \"%s\"", p.ErrorStr().c_str(), q.ErrorStr().c_str());
	r.outcome(mc::fmt("%s %c %c", FN[f], one.last, two.last).c_str()); r.state(mc::hash(first + "/" + second + mc::fmt("%d %d", calls, most)));
}

int main(int argc, char **argv) {
	mc::Check c;
	c.prop = "P26"; c.level = "model_checking";
	c.rule = "the text of events, of recorded and replayed events and of typed operators equals the text of Serialize; the events a parser delivers are those of the document, whatever the points at which reading is suspended; a replayed document is reproduced";
	c.assumptions = {"event sequences are well formed", "values have a representation in the format", "reading JSON is not suspended directly after a scalar without quotes"};
	c.spaces.push_back({"emitted", mc::fmt("4 formats x 6 ways x 3 parameter sets x values of depth 2 and width 2 over %zu scalars (innermost 6 in quick)", SCALARS.size()), emitted, 4, true});
	c.spaces.push_back({"scalars", "4 formats x 6 ways x every integer boundary, double exponent and pair of scalars", scalars, 3, true});
	c.spaces.push_back({"typed", "3 formats x 17 C++ types x boundary values, in lists, maps and lists of maps", typed, 2, true});
	c.spaces.push_back({"suspended", mc::fmt("4 formats x %zu documents x every set of events to suspend at (first 11, thorough 16)", TREES.size()), suspended, 3, true});
	c.spaces.push_back({"replayed", "4 formats x 4 ways x documents of depth 2 and width 2", replayed, 4, true});
	c.spaces.push_back({"recording", mc::fmt("%zu documents x every point to copy at x 4 ways to copy (construction, assignment over nothing, over another recording, over itself) x 4 ways to go on x lengths given or not", TREES.size()), recording, 2, true});
	c.spaces.push_back({"equality", "every pair of 20 events, in 3 surroundings", equality, 1, true});
	c.spaces.push_back({"status", "4 formats x every pair of 8 to 10 texts, good and bad x after how many steps (0 to 7 or all; thorough 12) the parser is reset x whole or by the byte", status, 3, true});
	return mc::run(argc, argv, c);
}
