// P21: schema references resolve to the schema they name; URIs resolve and split by the rules.
#include "ref.hpp"
#include <Variant/Schema.h>
#include <Variant/SchemaLoader.h>
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>
#include <cstdarg>
#include <set>
using namespace libvariant;
using ref::V;

static V L(std::vector<V> v) { return V::list(v); }
static V M(std::map<std::string, V> m) { return V::map(m); }
static V I(int i) { return V::integer(i); }
static V S(const std::string &s) { return V::str(s); }

// ---- URIs by RFC 3986
struct Uri { std::string scheme, auth, path, query, frag; };     // with their delimiters, empty if absent
static Uri split(const std::string &s) {
	Uri u;
	size_t i = 0, p = s.find_first_of(":/?#");
	if (p != std::string::npos && p > 0 && s[p] == ':') { u.scheme = s.substr(0, p + 1); i = p + 1; }
	if (s.compare(i, 2, "//") == 0) { p = std::min(s.size(), s.find_first_of("/?#", i + 2)); u.auth = s.substr(i, p - i); i = p; }
	p = std::min(s.size(), s.find_first_of("?#", i)); u.path = s.substr(i, p - i); i = p;
	if (i < s.size() && s[i] == '?') { p = std::min(s.size(), s.find('#', i)); u.query = s.substr(i, p - i); i = p; }
	u.frag = s.substr(i);
	return u;
}
// false if the path climbs above where it starts
static bool dots(const std::string &in, std::string &out) {
	std::vector<std::string> o;
	bool root = !in.empty() && in[0] == '/', dir = false;
	size_t i = root ? 1 : 0;
	while (i <= in.size()) {
		size_t e = std::min(in.size(), in.find('/', i));
		std::string seg = in.substr(i, e - i);
		bool last = e >= in.size();
		if (seg == ".") dir = last;
		else if (seg == "..") { if (o.empty()) return false; o.pop_back(); dir = last; }
		else { o.push_back(seg); dir = false; }
		i = e + 1;
	}
	out = root ? "/" : "";
	for (size_t k = 0; k < o.size(); ++k) out += (k ? "/" : "") + o[k];
	if (dir && !o.empty()) out += "/";
	return true;
}
static bool resolve(const std::string &base, const std::string &href, std::string &out) {
	Uri b = split(base), r = split(href), t;
	if (!r.scheme.empty()) { t = r; if (!dots(r.path, t.path)) return false; }
	else {
		t.scheme = b.scheme;
		if (!r.auth.empty()) { t.auth = r.auth; t.query = r.query; if (!dots(r.path, t.path)) return false; }
		else {
			t.auth = b.auth;
			if (r.path.empty()) { if (!dots(b.path, t.path)) return false; t.query = r.query.empty() ? b.query : r.query; }
			else {
				std::string p = r.path;
				if (p[0] != '/') p = !b.auth.empty() && b.path.empty() ? "/" + p : b.path.substr(0, b.path.rfind('/') + 1) + p;
				if (!dots(p, t.path)) return false;
				t.query = r.query;
			}
		}
		t.frag = r.frag;
	}
	out = t.scheme + t.auth + t.path + t.query + t.frag;
	return true;
}

static std::vector<std::string> paths(int n) {
	static const std::vector<std::string> SEG = {"", ".", "..", "g", "g;x=1", "@h", "..."};
	std::vector<std::string> o = {""}, cur = {""};
	for (int i = 0; i < n; ++i) { std::vector<std::string> nx; for (auto &p : cur) for (auto &s : SEG) nx.push_back(i ? p + "/" + s : s); o.insert(o.end(), nx.begin(), nx.end()); cur = nx; }
	return o;
}
static std::string scratch() { const char *e = getenv("MC_SCRATCH"); return e ? e : "/tmp"; }

static void uris(mc::Run &r) {
	static const std::vector<std::string> BASES = {"", "http://a/b/c/d;p?q", "http://a", "http://a/", "http://a/b/", "http://u:p@h:80/b/c#f", "file:///x/y/z", "urn:x:y", "foo:a/b/c", "/b/c/d", "b/c/d", "b", "//h/p/q", "http://[::1]:8080/x/y", "http://a/b?x/y", "http://a/b/../c/./d"};
	static const std::vector<std::string> PRE = {"", "/", "//h/", "//h", "s:", "http://z", "http://z/"}, SUF = {"", "?y", "#s", "?", "#", "?y/../z#s/../t", "#/a b"};
	static const std::vector<std::string> P2 = paths(3), P3 = paths(4);
	const std::string &b = r.pick(BASES), &p = r.pick(PRE);
	const std::string &m = r.pick(r.thorough ? P3 : P2);
	if (!p.empty() && p.back() != '/' && p.size() > 2 && !m.empty() && m[0] != '/') return;  // would extend the authority
	if (p == "/" && m[0] == '/') return;                                                     // would make one
	std::string h = p + m + r.pick(SUF), want;
	r.note("base %s, reference %s", mc::q(b).c_str(), mc::q(h).c_str());
	Uri u = split(h);
	SchemaLoader::URIInfo i;
	bool ok = SchemaLoader::ParseURI(i, h);
	r.step(1);
	r.check(ok, "parse", "the reference cannot be split");
	r.check(i.href == h && i.protocol == u.scheme && i.authority == u.auth && i.pathname == u.path && i.search == u.query && i.hash == u.frag, "split", "splits into %s %s %s %s %s, expected %s %s %s %s %s", i.protocol.c_str(), i.authority.c_str(), i.pathname.c_str(), i.search.c_str(), i.hash.c_str(), u.scheme.c_str(), u.auth.c_str(), u.path.c_str(), u.query.c_str(), u.frag.c_str());
	bool defined = resolve(b, h, want);
	std::string got = SchemaLoader::ResolveURI(b, h);
	r.step(1); r.state(mc::hash(got)); r.outcome(got);
	if (defined) r.check(got == want, "resolve", "resolves to %s, expected %s", mc::q(got).c_str(), mc::q(want).c_str());
}

// ---- references
// Every target accepts one number, so the number shows where a reference leads.
struct Target { std::string doc, ptr; int n; };
static const std::string ROOT = "http://x/dir/root.json", DEFS = "http://x/dir/defs.json", FAR = "http://y/far.json", SUB = "http://x/dir/sub/in.json";
static std::vector<Target> TARGETS;
static std::map<std::string, V> DOCS;
static V only(int n) { return M({{"enum", L({I(n)})}}); }
static void build() {
	int n = 100;
	for (auto &doc : {ROOT, DEFS, FAR, SUB}) {
		V d = V::map();
		V defs = V::map();
		auto esc = [](const std::string &s) { std::string o; for (char c : s) o += c == '~' ? "~0" : c == '/' ? "~1" : std::string(1, c); return o; };
		for (auto &k : {"i", "a b", "a/b", "a~b", "a%b", "", "\xc3\xa9", "~1", "0", "enum", "id", "$ref", "#", "a%41", "x?y", "properties"}) { defs.m[k] = only(n); TARGETS.push_back({doc, "/definitions/" + esc(k), n++}); }
		V deep = M({{"items", only(n)}}); TARGETS.push_back({doc, "/definitions/deep/items", n++});
		defs.m["deep"] = deep;
		V list = L({only(n), only(n + 1)}); TARGETS.push_back({doc, "/lists/0", n}); TARGETS.push_back({doc, "/lists/1", n + 1}); n += 2;
		d.m["lists"] = list;
		V named = only(n); named.m["id"] = S("#name"); TARGETS.push_back({doc, "name", n++});
		defs.m["withname"] = named;
		V inlist = only(n); inlist.m["id"] = S("#listname"); TARGETS.push_back({doc, "listname", n++});
		d.m["anyOf"] = L({V::map(), inlist});
		d.m["definitions"] = defs;
		DOCS[doc] = d;
	}
}
static std::string percent(const std::string &s, int mode) {
	std::string o;
	for (unsigned char c : s) {
		bool must = c == '%' || c == '#' || c >= 0x80 || c == ' ', esc = mode == 0 ? must && c != ' ' && c < 0x80 : mode == 1 ? must : mode == 2 ? !isalnum(c) && c != '/' : true;
		if (mode == 0 && c >= 0x80) esc = false;
		o += esc ? mc::fmt(mode == 3 ? "%%%02x" : "%%%02X", c) : std::string(1, c);
	}
	return o;
}
static const int NFORM = 7;
// A way to write the uri of doc for use under base; "" if there is none
static bool form(int k, const std::string &base, const std::string &doc, std::string &out) {
	Uri b = split(base), d = split(doc);
	switch (k) {
	case 0: out = doc; return true;
	case 1: out = ""; return split(base).scheme + b.auth + b.path == doc;
	case 2: out = d.path; return b.auth == d.auth;
	case 3: out = d.auth + d.path; return b.scheme == d.scheme;
	case 4: { if (b.auth != d.auth) return false; std::string dir = b.path.substr(0, b.path.rfind('/') + 1); if (d.path.compare(0, dir.size(), dir)) return false; out = d.path.substr(dir.size()); return true; }
	case 5: { if (b.auth != d.auth) return false; std::string dir = b.path.substr(0, b.path.rfind('/') + 1); std::string up; for (size_t i = 1; i < dir.size(); ++i) if (dir[i] == '/') up += "../"; out = up.empty() ? "./" + d.path.substr(1) : up + d.path.substr(1); return true; }
	default: { size_t s = doc.rfind('/'); out = doc.substr(0, s) + "/./q/.." + doc.substr(s); return true; }
	}
}

static bool handler(SchemaLoader *l, const std::string &uri, SchemaLoader::LoaderError &e, void *) {
	auto it = DOCS.find(uri);
	if (it == DOCS.end()) { e.AddError(uri, "unknown"); return false; }
	l->AddSchema(uri, ref::to(it->second));
	return true;
}

static const int NPLACE = 9;
// A schema for {"v": n} holding the reference somewhere
static V place(int k, const V &ref) {
	switch (k) {
	case 0: return M({{"properties", M({{"v", ref}})}});
	case 1: return M({{"additionalProperties", ref}});
	case 2: return M({{"properties", M({{"v", M({{"allOf", L({V::map(), ref})}})}})}});
	case 3: return M({{"patternProperties", M({{"v", M({{"not", M({{"not", ref}})}})}})}});
	case 4: { V s = M({{"properties", M({{"v", M({{"$ref", S("#/chain")}})}})}}); s.m["chain"] = M({{"$ref", S("#/definitions/chain2")}}); return s; }
	case 8: { V s = M({{"properties", M({{"v", M({{"$ref", S("#/chain/properties/enum")}})}})}}); s.m["chain"] = M({{"properties", M({{"enum", ref}})}}); return s; }
	case 5: return M({{"dependencies", M({{"v", M({{"properties", M({{"v", ref}})}})}})}});
	case 6: return M({{"anyOf", L({M({{"properties", M({{"v", ref}})}})})}});
	default: return M({{"properties", M({{"v", M({{"anyOf", L({M({{"enum", L({I(-1)})}}), ref})}})}, {"enum", V::map()}})}});
	}
}

static bool accepts(const Variant &schema, SchemaLoader *l, int n, bool &error, const std::string *dollar = 0) {
	Variant d = Variant().Set("v", n);
	if (dollar) d.Set("$schema", *dollar);
	error = false;
	try {
		SchemaResult res = SchemaValidate(schema, d, l);
		if (res.SchemaErrors()) error = true;
		return !res.Error();
	} catch (std::exception &) { error = true; return false; }
}

static bool declines(SchemaLoader *, const std::string &uri, SchemaLoader::LoaderError &e, void *) { e.AddError(uri, "not here"); return false; }
static void references(mc::Run &r) {
	const Target &t = r.pick(TARGETS);
	int supply = r.choose(5), given = r.choose(4), where = r.choose(NPLACE), f = r.choose(NFORM), esc = r.choose(4);
	// the referring document takes the place of root.json
	std::string base = ROOT, uri;
	if (given == 1) { if (f == 1 ? t.doc != ROOT : f != 0 && f != 6) return; if (f != 1 && t.doc == ROOT) return; }    // no id: only itself, or absolute
	else if (!form(f, base, t.doc, uri)) return;
	if (given == 1 && !form(f, base, t.doc, uri)) return;
	if (t.ptr[0] != '/' && esc > 1) return;              // names are compared as they are
	if (!r.thorough && !!supply + !!given + !!where + !!f + !!esc > 3) return;
	V ref = M({{"$ref", S(uri + "#" + percent(t.ptr, esc))}});
	V doc = DOCS[ROOT], wrap = place(where, ref);
	for (auto &e : wrap.m) { if (e.first == "anyOf") doc.m["anyOf"].l[0] = e.second.l[0]; else doc.m[e.first] = e.second; }
	if (where == 4) doc.m["definitions"].m["chain2"] = ref;
	if (where == 6) { V a = doc.m["anyOf"].l[0]; V named = doc.m["anyOf"].l[1]; named.m["properties"] = M({{"v", only(-2)}}); doc.m["anyOf"] = L({a, named}); named.m["id"] = S("#listname"); }
	if (where == 6 && t.ptr == "listname") return;
	if (given != 1) doc.m["id"] = S(given == 3 ? ROOT + "#" : ROOT);
	r.note("reference %s from %s, place %d, schema given as %s, documents from %s", ref.m["$ref"].s.c_str(), given == 1 ? "a schema without id" : ROOT.c_str(), where, given == 0 ? "value" : given == 1 ? "value without id" : given == 2 ? "uri" : "value with id#", supply == 0 ? "AddSchema" : supply == 1 ? "a handler" : supply == 2 ? "a base loader" : supply == 4 ? "a base loader, beside a handler without them" : "a handler of the base loader");
	SchemaLoader inner, outer(&inner), *l = supply >= 2 ? &outer : &inner;
	if (supply == 4) outer.SetMissingHandler(declines, 0);
	if (supply == 0 || supply == 2 || supply == 4) { for (auto &e : DOCS) if (e.first != ROOT) inner.AddSchema(e.first, ref::to(e.second)); }
	else inner.SetMissingHandler(handler, 0);
	if (given == 2) inner.AddSchema(ROOT, ref::to(doc));
	Variant ls = given == 2 ? Variant(ROOT) : ref::to(doc);
	std::string got;
	for (auto &x : TARGETS) {
		if (x.ptr != t.ptr && abs(x.n - t.n) > 1) continue;
		bool error, ok = accepts(ls, l, x.n, error);
		r.step(1);
		r.check(!error, "error", "validating %d ends with an error", x.n);
		r.check(ok == (x.n == t.n), ok ? "accepts" : "refuses", "%d is %s; the reference names the schema for %d", x.n, ok ? "accepted" : "refused", t.n);
	}
	if (given == 2) {
		bool error, ok = accepts(Variant(), l, t.n, error, &ROOT);
		if (where != 1) r.check(ok && !error, "dollar-schema", "named by $schema in the data, it is not used");
		ok = accepts(Variant(), l, t.n + 1, error, &ROOT);
		r.check(!ok, "dollar-schema", "named by $schema in the data, it is not used");
	}
	if (given != 2) { V after = ref::from(ls); r.check(ref::same(after, doc), "schema", "validation changes the schema to %s", ref::show(after).c_str()); }
	r.state(mc::hash(ref::show(doc))); r.outcome(ref.m["$ref"].s);
}

static void missing(mc::Run &r) {
	static const std::vector<std::string> REFS = {"#/definitions/none", "#/definitions/i/none", "#nothing", "#/lists/2", "#/lists/-", "#/lists/x", "#definitions/i", "#/definitions/a~2b", "http://x/none.json", "none.json", "none.json#/definitions/i", "#/definitions/i/enum/0/x", "#/definitions/%", "#/definitions/%zz", "#/%+1", "#/definitions/none b", "defs.json#/none", "#/definitions/i/"};
	const std::string &x = r.pick(REFS);
	int supply = r.choose(4), where = r.choose(NPLACE);
	bool id = r.flip();
	if (where == 3) return;                            // not of an unresolvable schema
	std::string base = ROOT;
	V ref = M({{"$ref", S(x)}}), doc = DOCS[ROOT], wrap = place(where, ref);
	if (where == 6 || where == 7) return;              // alternatives
	for (auto &e : wrap.m) doc.m[e.first] = e.second;
	if (where == 4) doc.m["definitions"].m["chain2"] = ref;
	if (id) doc.m["id"] = S(ROOT);
	r.note("reference %s, place %d, supply %d", x.c_str(), where, supply);
	SchemaLoader inner, outer(&inner), *l = supply == 2 ? &outer : &inner;
	if (supply == 1) inner.SetMissingHandler(handler, 0);
	if (supply == 3) l = 0;
	bool error, ok = accepts(ref::to(doc), l, 100, error);
	r.step(1); r.state(mc::hash(x)); r.outcome(x + (error ? "e" : ""));
	r.check(!ok, "ignored", "the data is accepted");
	r.check(error, "unreported", "no error is reported");
}

// ---- documents in files
static void files(mc::Run &r) {
	static const std::vector<std::string> REFS = {"defs.json#/definitions/i", "./defs.json#/definitions/i", "sub/in.json#/definitions/i", "sub/../defs.json#/definitions/i", "#/definitions/i", "sub/in.json#/definitions/up"};
	static const std::string D = scratch() + mc::fmt("/p21.%d", int(getpid()));
	static bool made = false;
	if (!made) {
		mkdir(D.c_str(), 0755); mkdir((D + "/sub").c_str(), 0755);
		auto put = [&](const std::string &f, const V &v) { std::ofstream o((D + "/" + f).c_str()); o << SerializeJSON(ref::to(v)); };
		put("defs.json", M({{"definitions", M({{"i", only(1)}})}}));
		put("sub/in.json", M({{"definitions", M({{"i", only(2)}, {"up", M({{"$ref", S("../defs.json#/definitions/i")}})}})}}));
		for (size_t i = 0; i < REFS.size(); ++i) put(mc::fmt("root%zu.json", i), M({{"definitions", M({{"i", only(3)}})}, {"properties", M({{"v", M({{"$ref", S(REFS[i])}})}})}}));
		made = true;
	}
	int k = r.choose(REFS.size()), how = r.choose(5);
	int want = k == 0 || k == 1 || k == 3 || k == 5 ? 1 : k == 2 ? 2 : 3;
	std::string f = mc::fmt("root%d.json", k), uri = how == 0 ? f : how == 1 ? "./" + f : how == 2 ? D + "/" + f : how == 3 ? "file://" + D + "/" + f : D + "/sub/../" + f;
	r.note("file %s referring to %s", uri.c_str(), REFS[k].c_str());
	for (int n = 1; n <= 3; ++n) {
		AdvSchemaLoader l;
		l.AddPath(D + "/nowhere"); l.AddPath(D);
		bool error, ok = accepts(uri, &l, n, error);
		r.step(1);
		r.check(!error, "file-error", "%d ends with an error", n);
		r.check(ok == (n == want), "file", "%d is %s", n, ok ? "accepted" : "refused");
	}
	AdvSchemaLoader l;
	l.AddPath(D);
	bool error, ok = accepts(uri + "x", &l, 1, error);
	r.check(!ok && error, "file-missing", "a file that does not exist is not reported");
	r.state(mc::hash(uri)); r.outcome(uri + REFS[k]);
}

// ---- documents that are fetched: stand-ins for libcurl with every way the environment can answer
// failures: 0 none, 1 no handle, 2.. the n-th option is refused, 10 no answer, 11 breaks off, 12 breaks off at the end, 13 nothing is delivered, 14 not JSON
struct Fetch { size_t (*write)(char *, size_t, size_t, void *) = 0; void *data = 0; std::string url; int fail = 0, options = 0; };
static std::map<std::string, std::string> net;
static std::vector<int> faults;
static size_t fetch_at, fetch_open, fetch_size;
static std::vector<std::string> fetched_urls;
#undef curl_easy_setopt
#undef curl_easy_getinfo
extern "C" {
void *curl_easy_init() {
	int f = fetch_at < faults.size() ? faults[fetch_at] : 0;
	++fetch_at;
	if (f == 1) return 0;
	++fetch_open;
	Fetch *x = new Fetch; x->fail = f;
	return x;
}
int curl_easy_setopt(void *h, int option, ...) {
	Fetch *x = (Fetch *)h;
	va_list a; va_start(a, option);
	if (option == 20011) x->write = va_arg(a, size_t (*)(char *, size_t, size_t, void *));
	else if (option == 10001) x->data = va_arg(a, void *);
	else if (option == 10002) x->url = va_arg(a, const char *);
	va_end(a);
	++x->options;
	return x->fail >= 2 && x->fail < 10 && x->options == x->fail - 1 ? 48 : 0;
}
int curl_easy_getinfo(void *, int, ...) { return 48; }
void curl_easy_reset(void *) {}
int curl_easy_perform(void *h) {
	Fetch *x = (Fetch *)h;
	if (!net.empty()) fetched_urls.push_back(x->url);
	if (x->fail == 10 || !net.count(x->url)) return 7;
	std::string t = x->fail == 13 ? "" : x->fail == 14 ? "[1" : net[x->url];
	size_t n = x->fail == 11 ? t.size() / 2 : t.size();
	for (size_t i = 0; i < n;) {
		// what is passed is gone afterwards
		std::string part = t.substr(i, std::min(fetch_size, n - i));
		if (x->write((char *)part.data(), 1, part.size(), x->data) != part.size()) return 23;
		i += part.size();
	}
	return x->fail == 11 || x->fail == 12 ? 18 : 0;
}
void curl_easy_cleanup(void *h) { if (h) { --fetch_open; delete (Fetch *)h; } }
const char *curl_easy_strerror(int) { return "it failed"; }
}

static void fetched(mc::Run &r) {
	static const char *BASE[] = {"http://h/d/main.json", "https://h:8/main.json?v=1", "ftp://u@h/d/e/main.json", "http://h", "d/main.json"};
	static const char *OTHER[] = {"other.json", "other.json?x=#", "/o/other.json#", "//k/other.json", "?q", "http://k/other.json#"};
	static const int FAIL[] = {0, 1, 2, 3, 4, 5, 10, 11, 12, 13, 14};
	std::string base = r.pick(std::vector<std::string>(BASE, BASE + 5)), other = r.pick(std::vector<std::string>(OTHER, OTHER + 6));
	int frag = r.choose(4);
	if (other.back() == '#') other.pop_back();
	if (base == "http://h" && other == "?q") throw mc::Skip();
	bool whole = base.find(":") != std::string::npos;
	int how = r.choose(whole ? 3 : 2), part = r.choose(4), first = r.choose(11), second = r.choose(11);
	if (first && second && !r.thorough) throw mc::Skip();
	std::string at;
	if (!resolve(base, other, at) || at[0] == '/') throw mc::Skip();
	net.clear(); fetched_urls.clear(); fetch_at = 0; fetch_open = 0;
	fetch_size = part == 0 ? 100000 : part == 1 ? 1 : part == 2 ? 7 : 64;
	faults = {FAIL[first], FAIL[second]};
	std::string ref = other + (frag == 0 ? "" : frag == 1 ? "#" : frag == 2 ? "#/definitions/b" : "#b");
	net[base] = SerializeJSON(ref::to(M({{"properties", M({{"v", M({{"$ref", S(ref)}})}})}})));
	V o = only(1); o.m["definitions"] = M({{"b", only(2)}}); o.m["definitions"].m["b"].m["id"] = S("#b");
	net[at] = SerializeJSON(ref::to(o));
	r.note("%s refers to %s, faults %d %d in parts of %zu, given %d", base.c_str(), ref.c_str(), FAIL[first], FAIL[second], fetch_size, how);
	struct Off { ~Off() { net.clear(); fetched_urls.clear(); } } off;
	AdvSchemaLoader l;
	int want = frag < 2 ? 1 : 2;
	for (int n = 1; n <= 2; ++n) {
		V inner = M({{"$ref", S(base)}});
		bool error, ok = accepts(how == 0 ? Variant(base) : how == 1 ? ref::to(inner) : ref::to(M({{"id", S("http://z/")}, {"allOf", L({inner})}})), &l, n, error);
		r.step(1);
		r.check(fetch_open == 0, "handles", "%zu handles are left", fetch_open);
		if (n == 1 && (first || second)) {
			// an empty answer is an empty YAML document, which says nothing
			if (FAIL[first] != 13 && FAIL[second] != 13) r.check(!ok && error, "unreported", "a failed fetch is not reported: %d is %s", n, ok ? "accepted" : "refused");
			// it works from now on
			faults.clear();
			AdvSchemaLoader again;
			bool e2, ok2 = accepts(base, &again, 1, e2);
			r.check(!e2 && ok2 == (want == 1), "again", "after a failure a new loader does not get it");
			return;
		}
		r.check(!error, "error", "%d ends with an error", n);
		r.check(ok == (n == want), "fetched", "%d is %s", n, ok ? "accepted" : "refused");
	}
	std::set<std::string> asked(fetched_urls.begin(), fetched_urls.end());
	r.check(asked.count(base) && asked.count(at), "asked", "the documents were not asked for by their names");
	for (auto &u : asked) r.check(u == base || u == at, "asked", "%s was asked for", u.c_str());
	r.state(mc::hash(base + ref)); r.outcome(base + ref);
}

// ---- schemas that refer to themselves
static void recursion(mc::Run &r) {
	int form = r.choose(5), depth = r.choose(41), bad = r.choose(4), wide = r.choose(3);
	V s;
	auto R = [](const char *x) { return M({{"$ref", S(x)}}); };
	V leaf = only(1), list = M({{"type", S("array")}});
	switch (form) {
	case 0: s = M({{"type", L({S("object"), S("integer")})}, {"maximum", I(1)}, {"properties", M({{"a", R("#")}, {"b", R("#")}})}}); break;
	case 1: s = M({{"anyOf", L({R("#/definitions/leaf"), R("#/definitions/node")})}, {"definitions", M({{"leaf", leaf}, {"node", M({{"type", S("object")}, {"additionalProperties", R("#")}})}})}}); break;
	case 2: s = M({{"$ref", S("#/definitions/t")}, {"definitions", M({{"t", M({{"oneOf", L({leaf, M({{"type", S("object")}, {"patternProperties", M({{"^[ab]$", R("#/definitions/t")}})}})})}})}})}}); break;
	case 3: s = M({{"definitions", M({{"x", M({{"type", L({S("object"), S("integer")})}, {"maximum", I(1)}, {"properties", M({{"a", R("#/definitions/y")}, {"b", R("#/definitions/y")}})}})}, {"y", R("#/definitions/x")}})}, {"allOf", L({R("#/definitions/y")})}}); if (depth > 30) return; break;
	case 4: s = M({{"id", S("http://h/tree.json")}, {"type", L({S("object"), S("integer")})}, {"maximum", I(1)}, {"additionalProperties", R("tree.json#")}}); break;
	}
	if ((form == 1 || form == 2) && depth > 20) return;
	// a chain of maps with leaves beside it, wrong at the bottom, half way down or nowhere
	V d = I(bad == 1 ? 2 : 1);
	for (int i = 0; i < depth; ++i) {
		V side = I(bad == 2 && i == depth / 2 ? 2 : 1);
		if (bad == 3 && i == depth / 2) side = S("x");
		if (wide == 2) side = M({{"a", side}});
		d = i % 2 && wide ? M({{"b", d}, {"a", side}}) : wide ? M({{"a", d}, {"b", side}}) : M({{"a", d}});
	}
	bool want = bad == 0 || (bad > 1 && (depth == 0 || !wide));
	r.note("form %d depth %d bad %d wide %d", form, depth, bad, wide);
	SchemaLoader l;
	if (form == 4) l.AddSchema("http://h/tree.json", ref::to(s));
	SchemaResult res = form == 4 ? SchemaValidate("http://h/tree.json", ref::to(d), &l) : SchemaValidate(ref::to(s), ref::to(d), &l);
	r.step(1);
	r.check(!res.SchemaErrors(), "recursion-error", "the schema is said to be wrong: %s", res.PrettyPrintMessage().c_str());
	r.check(!res.Error() == want, "recursion", "the data is %s", res.Error() ? "refused" : "accepted");
	r.state(mc::hash(ref::show(s) + ref::show(d))); r.outcome(want ? "accepted" : "refused");
}

// ---- ids that change what references below them are relative to
static void scopes(mc::Run &r) {
	static const std::vector<std::string> IDS = {"", "sub/x.json", "http://x/dir/sub/", "#part", "/dir/y.json", "http://y/q.json", "?q", "sub/x.json#part", "../z.json", "//y/a/b.json"};
	static const std::vector<std::string> AT = {DEFS, FAR, SUB, ROOT};
	static const std::map<std::string, V> SMALL = {{ROOT, M({{"definitions", M({{"i", only(1)}})}})}, {DEFS, M({{"definitions", M({{"i", only(2)}})}})}, {FAR, M({{"definitions", M({{"i", only(3)}})}})}, {SUB, M({{"definitions", M({{"i", only(4)}})}})}};
	int keyword = r.choose(5), supply = r.choose(2), given = r.choose(3);
	if (!r.thorough && !!keyword + !!supply + !!given > 1) return;
	std::string base = ROOT, ids[2];
	bool moved = false;
	for (auto &id : ids) { id = r.pick(IDS); if (!id.empty() && !resolve(base, id, base)) return; if (!id.empty() && id[0] != '#') moved = true; }
	const std::string &in = r.pick(AT), &after = AT[r.choose(r.thorough ? 4 : 2)];
	int f = r.choose(NFORM), g = r.thorough ? r.choose(NFORM) : r.flip() ? 4 : 0;
	std::string inner, outer;
	if (!form(f, base, in, inner) || (f == 1 && moved) || !form(g, ROOT, after, outer)) return;
	auto number = [](const std::string &doc) { return int(SMALL.at(doc).m.at("definitions").m.at("i").m.at("enum").l[0].i); };
	V s = M({{"$ref", S(inner + "#/definitions/i")}});
	for (int i = 1; i >= 0; --i) {
		switch (keyword) {
		case 0: s = M({{"allOf", L({V::map(), s})}}); break;
		case 1: s = M({{"oneOf", L({s})}}); break;
		case 2: s = M({{"not", M({{"not", s}})}}); break;
		case 3: s = M({{"anyOf", L({s, only(-1)})}}); break;
		case 4: s = M({{"dependencies", M({{"v", s}})}, {"allOf", L({s})}}); break;
		}
		if (!ids[i].empty()) s.m["id"] = S(ids[i]);
	}
	V doc = SMALL.at(ROOT);
	doc.m["properties"] = M({{"v", M({{"anyOf", L({s, M({{"$ref", S(outer + "#/definitions/i")}})})}})}});
	if (given != 1) doc.m["id"] = S(ROOT);
	if (given == 1 && supply == 1) return;
	r.note("reference %s under ids %s and %s, beside %s, keyword %d, given %d", inner.c_str(), mc::q(ids[0]).c_str(), mc::q(ids[1]).c_str(), outer.c_str(), keyword, given);
	SchemaLoader l;
	auto small = [](SchemaLoader *l, const std::string &uri, SchemaLoader::LoaderError &e, void *) {
		if (!SMALL.count(uri)) { e.AddError(uri, "unknown"); return false; }
		l->AddSchema(uri, ref::to(SMALL.at(uri)));
		return true;
	};
	if (supply == 0) { for (auto &e : SMALL) if (e.first != ROOT) l.AddSchema(e.first, ref::to(e.second)); } else l.SetMissingHandler(small, 0);
	if (given) l.AddSchema(ROOT, ref::to(doc));
	Variant ls = given ? Variant(ROOT) : ref::to(doc);
	for (auto &d : AT) {
		int n = number(d);
		bool error, ok = accepts(ls, &l, n, error), want = d == in || d == after;
		r.step(1);
		r.check(!error, "scope-error", "validating %d ends with an error", n);
		r.check(ok == want, "scope", "%d is %s; the references name %s and %s", n, ok ? "accepted" : "refused", in.c_str(), after.c_str());
	}
	r.state(mc::hash(ref::show(doc))); r.outcome(inner + " " + base);
}

// ---- schemas with an id of their own inside a document: what lies below the document's uri is the document's to
// define, anything else comes from where it is
static bool elsewhere(SchemaLoader *l, const std::string &uri, SchemaLoader::LoaderError &, void *) {
	l->AddSchema(uri, ref::to(only(3)));
	return true;
}
static void embedded(mc::Run &r) {
	struct E { const char *doc, *id, *uri; bool own; };
	static const std::vector<E> EM = {
		{"http://x/dir/", "in.json", "http://x/dir/in.json", true}, {"http://x/dir/", "sub/in.json", "http://x/dir/sub/in.json", true}, {"http://x/dir/", "http://x/dir/in.json", "http://x/dir/in.json", true}, {"http://x/dir/", "/dir/in.json", "http://x/dir/in.json", true},
		{"http://x/dir/", "#in", "http://x/dir/#in", true}, {"http://x/dir/", "?in", "http://x/dir/?in", true}, {"http://x/dir/root.json", "#in", "http://x/dir/root.json#in", true}, {"http://x/dir/root.json", "?in", "http://x/dir/root.json?in", true}, {"http://x/dir/root.json", "root.json#in", "http://x/dir/root.json#in", true},
		{"http://x/dir/", "http://y/in.json", "http://y/in.json", false}, {"http://x/dir/", "/in.json", "http://x/in.json", false}, {"http://x/dir/", "../dirt/in.json", "http://x/dirt/in.json", false}, {"http://x/dir/root.json", "in.json", "http://x/dir/in.json", false}, {"http://x/dir/root.json", "root.jsonp", "http://x/dir/root.jsonp", false}, {"http://x/dir/root.json", "root.json/in", "http://x/dir/root.json/in", false}, {"http://x/dir/root.json", "https://x/dir/root.json?in", "https://x/dir/root.json?in", false}};
	const E &e = r.pick(EM);
	int where = r.choose(7), how = r.choose(2), given = r.choose(2);
	bool id = r.flip(), used = r.flip();
	V in = only(1), doc = M({{"definitions", M({{"o", only(2)}})}});
	in.m["id"] = S(e.id);
	switch (where) {
	case 0: doc.m["definitions"].m["in"] = in; break;
	case 1: doc.m["allOf"] = L({V::map(), M({{"additionalItems", in}})}); break;
	case 2: doc.m["definitions"].m["in"] = M({{"properties", M({{"id", in}})}}); break;
	case 3: doc.m["items"] = L({V::map(), in}); break;
	case 4: doc.m["definitions"].m["in"] = M({{"dependencies", M({{"enum", in}})}}); break;
	case 5: doc.m["not"] = M({{"required", L({S("w")})}, {"items", M({{"not", in}})}}); break;
	case 6: doc.m["patternProperties"] = M({{"^default$", in}}); break;
	}
	std::string frag = std::string(e.uri).find('#') == std::string::npos ? "#" : "";
	V ref = M({{"$ref", S((how ? e.id : e.uri) + (given ? frag : std::string()))}});
	doc.m["properties"] = M({{"v", used ? M({{"anyOf", L({ref, M({{"$ref", S("#/definitions/o")}})})}}) : ref}});
	if (id) doc.m["id"] = S(e.doc);
	r.note("%s inside %s at %d, referred to as %s", e.id, e.doc, where, ref.m["$ref"].s.c_str());
	SchemaLoader l;
	l.SetMissingHandler(elsewhere, 0);
	std::map<std::string, Variant> m = l.AddSchema(e.doc, ref::to(doc));
	r.check(m.count(e.doc), "added", "AddSchema does not say it added %s", e.doc);
	r.check(e.own == !!m.count(e.uri), "added", "AddSchema says it %s %s", m.count(e.uri) ? "added" : "did not add", e.uri);
	for (int n = 1; n <= 3; ++n) {
		bool error, ok = accepts(e.doc, &l, n, error), want = n == (e.own ? 1 : 3) || (n == 2 && used);
		r.step(1);
		r.check(!error, "embedded-error", "validating %d ends with an error", n);
		r.check(ok == want, "embedded", "%d is %s; %s is %s", n, ok ? "accepted" : "refused", e.uri, e.own ? "the one inside" : "elsewhere");
	}
	r.state(mc::hash(ref::show(doc))); r.outcome(std::string(e.doc) + " " + e.id);
}

// ---- adding, forgetting and asking, through two loaders
static int asked;
static bool answers(SchemaLoader *l, const std::string &uri, SchemaLoader::LoaderError &e, void *) {
	++asked;
	if (uri.find("none") != std::string::npos) { e.AddError(uri, "none"); return false; }
	l->AddSchema(uri, ref::to(only(9)));
	return true;
}
static void histories(mc::Run &r) {
	static const std::string U[] = {"http://x/a", "http://x/none"};
	SchemaLoader inner, outer(&inner);
	inner.SetMissingHandler(answers, 0);
	std::map<std::string, int> at[2];
	int depth = r.thorough ? 5 : 4, k = 0;
	std::string did;
	for (int i = 0; i < depth; ++i) {
		int op = r.choose(8), w = op & 1;
		SchemaLoader &l = w ? outer : inner;
		const std::string &u = U[op >> 1 & 1];
		if (op < 4) { ++k; l.AddSchema(u, ref::to(only(k))); if (at[w].count(u)) throw mc::Skip(); at[w][u] = k; did += mc::fmt("add %d:%s ", w, u.c_str()); }
		else { l.ForgetSchema(u); at[w].erase(u); did += mc::fmt("forget %d:%s ", w, u.c_str()); }
		r.note("%s", did.c_str());
		r.step(1);
		if (!r.fresh()) continue;
		for (int v = 0; v < 2; ++v) for (auto &x : U) {
			if (i + 1 < depth && x == U[0] && !at[0].count(x) && !(v && at[1].count(x))) continue;   // asking would add it
			int want = v && at[1].count(x) ? at[1][x] : at[0].count(x) ? at[0][x] : x == U[0] ? 9 : 0, before = asked;
			for (int n : {1, 2, 3, 4, 5, 9}) {
				bool error, ok = accepts(Variant(Variant::MapType).Set("properties", Variant().Set("v", Variant().Set("$ref", x))), v ? &outer : &inner, n, error);
				r.check(error == !want, "history-error", "%d under %s ends %s error", n, x.c_str(), error ? "with an" : "without");
				r.check(ok == (n == want), "history", "%d is %s by %s; the schema there is for %d", n, ok ? "accepted" : "refused", x.c_str(), want);
			}
			if (want && want != 9) r.check(asked == before, "history-asked", "the handler is asked for %s, which is there", x.c_str());
		}
		r.state(mc::hash(did));
	}
	r.outcome(did);
}

int main(int argc, char **argv) {
	build();
	mc::Check c;
	c.prop = "P21"; c.level = "model_checking";
	c.rule = "splitting and resolving follow RFC 3986 (independent implementation); a reference accepts exactly what the named schema accepts; an unresolvable one ends in an error; the schema given is unchanged";
	c.assumptions = {"paths that climb above their root are left out", "a reference stands alone in its object", "a schema is added under a uri that has none yet", "a handler that reports success has added the schema", "no network", "validation goes at most 80 schemas deep: the library stops at 100"};
	c.spaces.push_back({"uris", "16 bases x 7 prefixes x paths of up to 3 (thorough 4) of 7 segments x 7 suffixes", uris, 2, true});
	c.spaces.push_back({"references", mc::fmt("%zu targets in 4 documents x 5 suppliers x 4 ways to give the schema x %d places x %d forms x 4 escapings, at most three of these five not the first (thorough: all)", TARGETS.size(), NPLACE, NFORM), references, 2, true});
	c.spaces.push_back({"missing", "18 unresolvable references x 4 suppliers x places x with and without id", missing, 1, true});
	c.spaces.push_back({"files", "6 references between files x 5 ways to name the file", files, 0, true});
	c.spaces.push_back({"fetched", "5 documents on a network x 6 references to another there x 4 fragments x 3 ways to name the first x delivered in parts of 4 sizes x for either fetch 10 failures (quick: one of the two): no handle, a refused option, no answer, an answer that breaks off, is empty or is no schema", fetched, 2, true});
	c.spaces.push_back({"recursion", "5 schemas that refer to themselves x data nested 0 to 40 deep (30 or 20 where a level takes three or four schemas), right or wrong at the bottom or beside", recursion, 1, true});
	c.spaces.push_back({"scopes", "5 keywords x 2 suppliers x 3 ways to give the schema x two enclosing schemas with one of 10 ids x 4 documents referred to below and beside them x 7 forms of each reference (quick: one of the first three not the first, two documents and two forms for the second reference)", scopes, 3, true});
	c.spaces.push_back({"embedded", "16 ids of a schema inside a document, 9 of its own and 7 elsewhere x 7 places x 2 forms of the reference, with and without #, document with and without id", embedded, 1, true});
	c.spaces.push_back({"histories", "every sequence of 4 (thorough 5) of AddSchema and ForgetSchema on 2 uris and 2 loaders, one the base of the other", histories, 2, true});
	return mc::run(argc, argv, c);
}
