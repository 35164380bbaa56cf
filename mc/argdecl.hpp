// Declarations of options, the command lines they accept, and a model of both.
#pragma once
#include "ref.hpp"
#include "guess.hpp"
#include <Variant/ArgParse.h>
#include <Variant/Schema.h>
#include <fstream>
#include <functional>
#include <getopt.h>
#include <list>
#include <iostream>
#include <regex.h>
#include <set>
#include <sys/stat.h>

using libvariant::ArgParse; using libvariant::ArgParseOption; using libvariant::ArgParseAction; using libvariant::ArgParseType;
using libvariant::Variant;

struct Opt {
	bool arg = false;                      // positional
	std::string key; int sh = 0; std::string lg;
	ArgParseAction act = libvariant::ARGACTION_STORE;
	ArgParseType type = libvariant::ARGTYPE_GUESS;
	bool hasdflt = false; ref::V dflt, cnst, min, max;     // min and max: null for none
	std::string env, pattern, group, title, help;
	std::vector<ref::V> choices;
	int req = 0;                           // 0 not stated, 1 yes, 2 no
	int minlen = -1, maxlen = -1, minargs = -1, maxargs = -1, adv = 0;
};
struct Grp { std::string name; bool exclusive, required; std::string title, help; };
struct Decl { std::vector<Opt> opts; std::vector<Grp> groups; };
typedef std::map<std::string, std::string> Env;
struct Outcome { enum { RESULT, ERROR, USAGE, HELP, PRINT } kind; int code = 0; ref::V v; std::string err; };

// ---- the real thing
struct Exit { int code; };
struct Null : std::streambuf { int overflow(int c) { return c; } };
inline void quiet() {
	static Null n;
	std::cerr.rdbuf(&n);
	opterr = 0;
	mc::exit_hook = [](int c) { throw Exit{c}; };
}
inline bool declare1(ArgParse &a, const Opt &o, std::string &err) {
	try {
		ArgParseOption p = o.arg ? a.AddArgument(o.key, o.help) : a.AddOption(o.key, o.sh, o.lg, o.help);
		p.Action(o.act);
		if (o.type != libvariant::ARGTYPE_GUESS) p.Type(o.type);
		if (!o.title.empty()) p.Title(o.title);
		if (o.hasdflt) p.Default(ref::to(o.dflt));
		if (o.cnst.k != ref::V::Null) p.Const(ref::to(o.cnst));
		if (o.min.k != ref::V::Null) p.Minimum(ref::to(o.min));
		if (o.max.k != ref::V::Null) p.Maximum(ref::to(o.max));
		if (!o.env.empty()) p.Env(o.env.c_str());
		if (!o.pattern.empty()) p.Pattern(o.pattern);
		if (o.minlen >= 0) p.MinLength(o.minlen);
		if (o.maxlen >= 0) p.MaxLength(o.maxlen);
		for (auto &c : o.choices) p.AddChoice(ref::to(c));
		if (o.minargs >= 0) p.MinArgs(o.minargs);
		if (o.maxargs >= 0) p.MaxArgs(o.maxargs);
		if (o.req == 1) p.Required();
		if (o.req == 2) p.Required(false);
		if (o.adv) p.Advanced(true);
		if (!o.group.empty()) p.Group(o.group);
	} catch (const std::exception &e) { err = e.what(); return false; }
	return true;
}
inline bool declare(ArgParse &a, const Decl &d, std::string &err) {
	for (auto &o : d.opts) if (!declare1(a, o, err)) return false;
	for (auto &g : d.groups) a.AddGroup(g.name, g.title, g.help).MutuallyExclusive(g.exclusive).Required(g.required);
	return true;
}
// the memory of a command line, overwritten once it is parsed
struct Words {
	std::list<std::vector<char>> w; std::vector<char *> argv;
	explicit Words(const std::vector<std::string> &line) {
		std::vector<std::string> s(1, "prog"); s.insert(s.end(), line.begin(), line.end());
		for (auto &x : s) { w.push_back(std::vector<char>(x.begin(), x.end())); w.back().resize(x.size() + 4, 0); argv.push_back(w.back().data()); }
		argv.push_back(0);
	}
	void gone() { for (auto &x : w) { std::fill(x.begin(), x.end(), 'c'); x.back() = 0; } }
};
// leave nothing of an earlier scan behind, as after an exit
inline void forget_scan() {
	static char name[] = "prog"; char *none[] = {name, 0}; struct option no = {0, 0, 0, 0};
	optind = 0; getopt_long(1, none, "", &no, 0);
}
inline Outcome parse_words(ArgParse &a, Words &w, const Env &env, Variant *raw) {
	for (auto &e : env) setenv(e.first.c_str(), e.second.c_str(), 1);
	Outcome o;
	try {
		Variant v = a.Parse(int(w.argv.size()) - 1, &w.argv[0]);
		o.kind = Outcome::RESULT; o.v = ref::from(v);
		if (raw) *raw = v;
	} catch (const Exit &e) { o.kind = Outcome::ERROR; o.code = e.code; }
	for (auto &e : env) unsetenv(e.first.c_str());
	return o;
}
inline Outcome parse(ArgParse &a, const std::vector<std::string> &line, const Env &env, Variant *raw) {
	forget_scan();
	Words w(line);
	return parse_words(a, w, env, raw);
}
inline void spoil(Variant x) {
	if (x.IsMap()) { for (Variant::MapIterator i = x.MapBegin(); i != x.MapEnd(); ++i) spoil(i->second); x["spoilt"] = 1; }
	else if (x.IsList()) { for (Variant::ListIterator i = x.ListBegin(); i != x.ListEnd(); ++i) spoil(*i); x.Append("spoilt"); }
}

// ---- configuration files, written once per process
static std::map<std::string, ref::V> config_docs;
inline std::string config_file(const ref::V &doc, int how) {
	static std::map<std::string, std::string> made;
	std::string id = mc::fmt("%d", how) + ref::show(doc);
	std::string &f = made[id];
	if (!f.empty()) return f;
	const char *t = getenv("MC_SCRATCH");
	std::string dir = mc::fmt("%s/conf.%d", t ? t : "/tmp", int(getpid()));
	mkdir(dir.c_str(), 0755);
	f = mc::fmt("%s/%zu", dir.c_str(), made.size());
	std::ofstream o(f.c_str());
	Variant v = ref::to(doc);
	if (how < 0) o << "{\"s\": 1";
	else { o << libvariant::Serialize(v, how == 2 ? libvariant::SERIALIZE_YAML : how == 3 ? libvariant::SERIALIZE_XMLPLIST : libvariant::SERIALIZE_JSON); config_docs[f] = doc; }
	return f;
}

// ---- the model
struct Bad {};
inline bool int_text(const std::string &s, ref::V &v, bool uns) {
	size_t i = 0; bool neg = false;
	if (i < s.size() && (s[i] == '+' || s[i] == '-')) neg = s[i++] == '-';
	if (i == s.size()) return false;
	unsigned __int128 x = 0, lim = (unsigned __int128)1 << 64;
	for (; i < s.size(); ++i) { if (s[i] < '0' || s[i] > '9') return false; x = x * 10 + (s[i] - '0'); if (x > lim) x = lim; }
	if (neg ? (uns ? x > 0 : x > (unsigned __int128)1 << 63) : x >= lim) return false;
	v = neg ? ref::V::integer(intmax_t(0 - uintmax_t(x))) : ref::V::uinteger(uintmax_t(x));
	return true;
}
inline bool bool_text(const std::string &text) {
	std::string s = text;
	while (!s.empty() && ref::space(s[0])) s.erase(0, 1);
	if (s.empty()) return true;
	while (!s.empty() && ref::space(s.back())) s.pop_back();
	for (auto &c : s) c = tolower(c);
	if (s.find_first_not_of('0') == std::string::npos) return false;
	return !(std::string("no").compare(0, s.size(), s) == 0 || std::string("false").compare(0, s.size(), s) == 0);
}
inline ArgParseType type_of(const Opt &o) {
	if (o.type != libvariant::ARGTYPE_GUESS) return o.type;
	if (o.min.k != ref::V::Null || o.max.k != ref::V::Null) return libvariant::ARGTYPE_FLOAT;
	if (!o.pattern.empty() || o.minlen >= 0 || o.maxlen >= 0) return libvariant::ARGTYPE_STRING;
	return libvariant::ARGTYPE_GUESS;
}
inline ref::V convert(const Opt &o, const std::string &t) {
	using ref::V;
	V v;
	switch (type_of(o)) {
	case libvariant::ARGTYPE_INT: if (!int_text(t, v, false)) throw Bad(); return v;
	case libvariant::ARGTYPE_UINT: if (!int_text(t, v, true)) throw Bad(); return v;
	case libvariant::ARGTYPE_FLOAT: { char *e; double d = strtod(t.c_str(), &e); if (t.empty() || *e) throw Bad(); return V::flt(d); }
	case libvariant::ARGTYPE_STRING: return V::str(t);
	case libvariant::ARGTYPE_BOOL: return V::boolean(bool_text(t));
	default: return ref::guess(t);
	}
}
inline long double num(const ref::V &v) { if (v.k == ref::V::Flt) return v.f; if (v.k == ref::V::Int) return v.i; return v.u; }
inline int cmp_num(const ref::V &a, const ref::V &b) { return num(a) < num(b) ? -1 : num(a) > num(b); }
inline bool equal(const ref::V &a, const ref::V &b) { return a.isnum() && b.isnum() ? cmp_num(a, b) == 0 && !(a.k == ref::V::Flt && a.f != a.f) : ref::same(a, b); }
inline void constrain(const Opt &o, const ref::V &v) {
	using ref::V;
	if (v.k == V::Str) {
		int n = 0;
		for (unsigned char c : v.s) n += (c & 0xC0) != 0x80;
		if (o.minlen >= 0 && n < o.minlen) throw Bad();
		if (o.maxlen >= 0 && n > o.maxlen) throw Bad();
		if (!o.pattern.empty()) {
			// the patterns used here, spelled out
			const std::string &p = o.pattern; bool m;
			if (p == "^a") m = !v.s.empty() && v.s[0] == 'a';
			else if (p == "b$|^$") m = v.s.empty() || v.s.back() == 'b';
			else if (p == ".") m = !v.s.empty();
			else { fprintf(stderr, "pattern not modelled\n"); abort(); }
			if (!m) throw Bad();
		}
	}
	if (v.isnum()) {
		bool nan = v.k == V::Flt && v.f != v.f;
		if (o.min.k != V::Null && !nan && cmp_num(v, o.min) < 0) throw Bad();
		if (o.max.k != V::Null && !nan && cmp_num(v, o.max) > 0) throw Bad();
	}
	if (!o.choices.empty()) {
		bool in = false;
		for (auto &c : o.choices) in |= equal(c, v);
		if (!in) throw Bad();
	}
}
inline bool has_arg(const Opt &o) {
	switch (o.act) {
	case libvariant::ARGACTION_STORE: case libvariant::ARGACTION_APPEND: case libvariant::ARGACTION_CONFIG: case libvariant::ARGACTION_CONFIG_JSON: case libvariant::ARGACTION_CONFIG_YAML: case libvariant::ARGACTION_CONFIG_PLIST: return true;
	default: return false;
	}
}
struct Model {
	const Decl &d; std::vector<Opt> opts; std::vector<ref::V> val; bool help = false;
	Model(const Decl &x) : d(x), opts(x.opts), val(x.opts.size()) {}
	void handle(size_t i, const ref::V &v, bool set) {     // set: v was given with it
		using namespace libvariant; using ref::V;
		const Opt &o = opts[i];
		switch (o.act) {
		case ARGACTION_STORE: constrain(o, v); val[i] = v; break;
		case ARGACTION_STORE_CONST: val[i] = o.cnst; break;
		case ARGACTION_STORE_TRUE: val[i] = set && v.k == V::Bool ? v : V::boolean(true); break;
		case ARGACTION_STORE_FALSE: val[i] = set && v.k == V::Bool ? v : V::boolean(false); break;
		case ARGACTION_APPEND: {
			if (val[i].k == V::Null) val[i] = V::list({});
			if (set && v.k == V::List) { for (auto &e : v.l) { constrain(o, e); val[i].l.push_back(e); } if (val[i].l.empty()) val[i] = V(); }
			else { constrain(o, v); val[i].l.push_back(v); }
			break;
		}
		case ARGACTION_COUNT: { intmax_t by = set && v.isnum() ? (v.k == V::Int ? v.i : intmax_t(v.u)) : 1; val[i] = V::integer((val[i].k == V::Null ? 0 : val[i].i) + by); break; }
		case ARGACTION_HELP: help = true; break;
		default: {
			auto f = config_docs.find(v.s);
			if (f == config_docs.end()) throw Bad();
			merge(f->second, "");
		}
		}
	}
	void merge(const ref::V &v, const std::string &path) {
		using ref::V;
		if (v.k == V::Null) return;
		if (v.k == V::Map) { for (auto &e : v.m) merge(e.second, path.empty() ? e.first : path + "/" + e.first); return; }
		for (size_t i = 0; i < opts.size(); ++i) if (opts[i].key == path) { handle(i, v, true); return; }
		if (v.k == V::List) for (size_t i = 0; i < v.l.size(); ++i) merge(v.l[i], path + mc::fmt("[%zu]", i));
	}
	bool occurs(size_t i, bool attached, const std::string &t) {
		if (has_arg(opts[i])) handle(i, opts[i].act == libvariant::ARGACTION_STORE || opts[i].act == libvariant::ARGACTION_APPEND ? convert(opts[i], t) : ref::V::str(t), false);
		else if (attached) return false;
		else handle(i, ref::V(), false);
		return true;
	}
};
inline void put(ref::V &root, const std::string &key, const ref::V &v) {
	ref::V *p = &root;
	for (size_t i = 0; i < key.size();) {
		if (key[i] == '/') { ++i; continue; }
		if (key[i] == '[') {
			size_t n = strtoul(key.c_str() + i + 1, 0, 10);
			if (p->k != ref::V::List) *p = ref::V::list({});
			if (p->l.size() <= n) p->l.resize(n + 1);
			p = &p->l[n];
			i = key.find(']', i) + 1;
			continue;
		}
		size_t e = std::min(key.find_first_of("/[", i), key.size());
		if (p->k != ref::V::Map) *p = ref::V::map({});
		p = &p->m[key.substr(i, e - i)];
		i = e;
	}
	*p = v;
}
inline Outcome model(const Decl &d, const std::vector<std::string> &line, const Env &env, bool addhelp = true) {
	using namespace libvariant; using ref::V;
	Model m(d);
	Outcome o;
	if (addhelp) {
		Opt h; h.lg = "help"; h.sh = 'h'; h.act = ARGACTION_HELP; h.key = "default-help-option";
		bool taken = false, adv = false;
		for (auto &x : m.opts) { if (x.sh == 'h') h.sh = 0; if (x.lg == "help" || x.key == h.key) taken = true; adv |= x.adv != 0; }
		if (!taken) {
			m.opts.push_back(h); m.val.push_back(V());
			if (adv) { h.lg = "adv-help"; h.sh = 0; h.key = "default-adv-help-option"; m.opts.push_back(h); m.val.push_back(V()); }
		}
	}
	try {
		std::vector<std::string> pos;
		size_t i = 0;
		// files named by the environment are read before the line
		for (size_t k = 0; k < m.opts.size(); ++k) if (m.opts[k].act > ARGACTION_HELP && has_arg(m.opts[k]) && !m.opts[k].env.empty() && env.count(m.opts[k].env)) m.occurs(k, true, env.at(m.opts[k].env));
		for (; i < line.size(); ++i) {
			const std::string &t = line[i];
			if (t == "--") { ++i; break; }
			if (t.size() < 2 || t[0] != '-') { pos.push_back(t); continue; }
			if (t[1] == '-') {
				size_t eq = t.find('=');
				std::string n = t.substr(2, eq == std::string::npos ? eq : eq - 2), v = eq == std::string::npos ? "" : t.substr(eq + 1);
				std::vector<size_t> c;
				bool exact = false;
				for (size_t k = 0; k < m.opts.size(); ++k) if (!m.opts[k].lg.empty() && !m.opts[k].arg) {
					if (m.opts[k].lg == n) { c.assign(1, k); exact = true; break; }
					if (m.opts[k].lg.compare(0, n.size(), n) == 0) c.push_back(k);
				}
				if (c.size() != 1) { o.kind = Outcome::USAGE; return o; }
				bool attached = eq != std::string::npos;
				if (has_arg(m.opts[c[0]]) && !attached) {
					if (i + 1 >= line.size()) { o.kind = Outcome::USAGE; return o; }
					v = line[++i];
				}
				if (!m.occurs(c[0], attached, v)) { o.kind = Outcome::USAGE; return o; }
				continue;
			}
			for (size_t k = 1; k < t.size(); ++k) {
				size_t f = 0;
				while (f < m.opts.size() && (m.opts[f].arg || m.opts[f].sh != t[k])) ++f;
				if (f == m.opts.size()) { o.kind = Outcome::USAGE; return o; }
				if (!has_arg(m.opts[f])) { m.occurs(f, false, ""); continue; }
				std::string v = t.substr(k + 1);
				if (v.empty()) { if (i + 1 >= line.size()) { o.kind = Outcome::USAGE; return o; } v = line[++i]; }
				m.occurs(f, false, v);
				break;
			}
		}
		for (; i < line.size(); ++i) pos.push_back(line[i]);
		// positional arguments take what they can, in order
		size_t at = 0;
		for (size_t k = 0; k < m.opts.size(); ++k) if (m.opts[k].arg) {
			int mx = m.opts[k].maxargs < 0 ? 1 : m.opts[k].maxargs;
			for (int n = 0; at < pos.size() && (mx == 0 || n < mx); ++n) m.occurs(k, false, pos[at++]);
		}
		if (at < pos.size()) throw Bad();
		auto exclusive = [&](const std::string &g) { for (auto &x : d.groups) if (x.name == g) return x.exclusive; return false; };
		for (size_t k = 0; k < m.opts.size(); ++k) {
			const Opt &p = m.opts[k];
			if (m.val[k].k == V::Null && p.act != ARGACTION_COUNT) {
				bool other = false;
				if (!p.group.empty() && exclusive(p.group)) for (size_t j = 0; j < m.opts.size(); ++j) other |= j != k && m.opts[j].group == p.group && m.val[j].k != V::Null;
				V x;
				bool given = p.hasdflt;
				x = p.dflt;
				if (!other && !p.env.empty() && env.count(p.env)) { x = convert(p, env.at(p.env)); given = true; if (p.act == ARGACTION_STORE || p.act == ARGACTION_APPEND) constrain(p, x); }
				if (given && !other && !(p.act >= ARGACTION_HELP)) m.val[k] = p.act == ARGACTION_APPEND ? V::list({x}) : x;
			}
			int mn = p.minargs < 0 ? (p.arg ? 1 : 0) : p.minargs, mx = p.maxargs < 0 ? (p.arg ? 1 : 0) : p.maxargs;
			if (m.val[k].k != V::Null) {
				if (p.act == ARGACTION_APPEND && ((mx && (int)m.val[k].l.size() > mx) || (int)m.val[k].l.size() < mn)) throw Bad();
			} else if (p.req == 1 || mn > 0) throw Bad();
		}
		for (auto &g : d.groups) if (g.exclusive) {
			int n = 0;
			for (size_t k = 0; k < m.opts.size(); ++k) n += m.opts[k].group == g.name && m.val[k].k != V::Null;
			if (n > 1 || (g.required && !n)) throw Bad();
		}
	} catch (const Bad &) { o.kind = m.help ? Outcome::HELP : Outcome::ERROR; return o; }
	if (m.help) { o.kind = Outcome::HELP; return o; }
	o.kind = Outcome::RESULT; o.v = V::map({});
	for (size_t k = 0; k < m.opts.size(); ++k) {
		const Opt &p = m.opts[k];
		if (p.act >= ARGACTION_HELP) continue;
		V v = m.val[k];
		if (v.k == V::Null && p.act == ARGACTION_COUNT) v = V::integer(0);
		if (v.k != V::Null) put(o.v, p.key, v);
	}
	return o;
}

// ---- for reports
inline std::string show(const Opt &o) {
	std::string s = o.arg ? "argument " + o.key : "option " + o.key;
	if (o.sh) s += mc::fmt(" -%c", o.sh);
	if (!o.lg.empty()) s += " --" + o.lg;
	s += " " + libvariant::ArgParseActionToStr(o.act);
	if (o.type != libvariant::ARGTYPE_GUESS) s += mc::fmt(" type %d", int(o.type));
	if (o.hasdflt) s += " default " + ref::show(o.dflt);
	if (o.min.k) s += " min " + ref::show(o.min);
	if (o.max.k) s += " max " + ref::show(o.max);
	if (!o.choices.empty()) s += " choices " + ref::show(ref::V::list(o.choices));
	if (!o.env.empty()) s += " env " + o.env;
	if (!o.pattern.empty()) s += " pattern " + o.pattern;
	if (o.minlen >= 0) s += mc::fmt(" minlen %d", o.minlen);
	if (o.maxlen >= 0) s += mc::fmt(" maxlen %d", o.maxlen);
	if (o.minargs >= 0) s += mc::fmt(" minargs %d", o.minargs);
	if (o.maxargs >= 0) s += mc::fmt(" maxargs %d", o.maxargs);
	if (o.req) s += o.req == 1 ? " required" : " not required";
	if (!o.group.empty()) s += " in " + o.group;
	return s;
}
inline std::string show(const Decl &d) {
	std::string s;
	for (auto &o : d.opts) s += show(o) + "; ";
	for (auto &g : d.groups) s += "group " + g.name + (g.exclusive ? " exclusive" : "") + (g.required ? " required" : "") + "; ";
	return s;
}
inline std::string show(const std::vector<std::string> &l, const Env &e) {
	std::string s;
	for (auto &x : e) s += x.first + "=" + mc::q(x.second) + " ";
	for (auto &x : l) s += mc::q(x) + " ";
	return s;
}
inline std::string show(const Outcome &o) {
	static const char *N[] = {"result", "error", "usage", "help", "print"};
	return o.kind == Outcome::RESULT ? "result " + ref::show(o.v) : mc::fmt("%s (status %d)", N[o.kind], o.code);
}
