// Reference values and an independent JSON reader, written from RFC 8259 and sharing no code
// with the library.
#pragma once
#include "mc.hpp"
#include <Variant/Variant.h>
#include <Variant/Blob.h>
#include <memory>

namespace ref {
using libvariant::Variant;

struct V {
	enum K { Null, Bool, Int, Uint, Flt, Str, List, Map, Blob } k = Null;
	bool b = false;
	intmax_t i = 0;
	uintmax_t u = 0;
	double f = 0;
	std::string s;                 // Str, Blob
	std::vector<V> l;
	std::map<std::string, V> m;

	static V null() { return V(); }
	static V boolean(bool x) { V v; v.k = Bool; v.b = x; return v; }
	static V integer(intmax_t x) { V v; v.k = Int; v.i = x; return v; }
	static V uinteger(uintmax_t x) { V v; v.k = Uint; v.u = x; return v; }
	static V flt(double x) { V v; v.k = Flt; v.f = x; return v; }
	static V str(const std::string &x) { V v; v.k = Str; v.s = x; return v; }
	static V blob(const std::string &x) { V v; v.k = Blob; v.s = x; return v; }
	static V list(std::vector<V> x = {}) { V v; v.k = List; v.l = x; return v; }
	static V map(std::map<std::string, V> x = {}) { V v; v.k = Map; v.m = x; return v; }
	bool isnum() const { return k == Int || k == Uint || k == Flt; }
};

// Integers compare by value whatever their signedness; floats by bit pattern (so -0 and 0
// differ and NaN equals itself); everything else structurally.
inline bool same(const V &a, const V &b) {
	auto isint = [](const V &x) { return x.k == V::Int || x.k == V::Uint; };
	if (isint(a) && isint(b)) {
		bool na = a.k == V::Int && a.i < 0, nb = b.k == V::Int && b.i < 0;
		if (na != nb) return false;
		if (na) return a.i == b.i;
		return (a.k == V::Int ? (uintmax_t)a.i : a.u) == (b.k == V::Int ? (uintmax_t)b.i : b.u);
	}
	if (a.k != b.k) return false;
	switch (a.k) {
	case V::Null: return true;
	case V::Bool: return a.b == b.b;
	case V::Flt: if (std::isnan(a.f) || std::isnan(b.f)) return std::isnan(a.f) && std::isnan(b.f);
		return memcmp(&a.f, &b.f, sizeof a.f) == 0;
	case V::Str: case V::Blob: return a.s == b.s;
	case V::List:
		if (a.l.size() != b.l.size()) return false;
		for (size_t i = 0; i < a.l.size(); ++i) if (!same(a.l[i], b.l[i])) return false;
		return true;
	case V::Map: {
		if (a.m.size() != b.m.size()) return false;
		auto i = a.m.begin(); auto j = b.m.begin();
		for (; i != a.m.end(); ++i, ++j) if (i->first != j->first || !same(i->second, j->second)) return false;
		return true; }
	default: return false;
	}
}

inline void show(const V &v, std::string &o) {
	switch (v.k) {
	case V::Null: o += "null"; break;
	case V::Bool: o += v.b ? "true" : "false"; break;
	case V::Int: o += mc::fmt("%jd", v.i); break;
	case V::Uint: o += mc::fmt("%juu", v.u); break;
	case V::Flt: o += mc::fmt("%.17gf", v.f); break;
	case V::Str: o += v.s.size() > 200 ? mc::q(v.s.substr(0, 40)) + mc::fmt("..(%zu bytes,%016llx)", v.s.size(), (unsigned long long)mc::hash(v.s)) : mc::q(v.s); break;
	case V::Blob: o += "blob" + (v.s.size() > 200 ? mc::fmt("(%zu bytes,%016llx)", v.s.size(), (unsigned long long)mc::hash(v.s)) : mc::q(v.s)); break;
	case V::List: { o += "["; bool f = true; for (auto &x : v.l) { if (!f) o += ","; f = false; show(x, o); } o += "]"; break; }
	case V::Map: { o += "{"; bool f = true; for (auto &x : v.m) { if (!f) o += ","; f = false; o += mc::q(x.first) + ":"; show(x.second, o); } o += "}"; break; }
	}
}
inline std::string show(const V &v) { std::string o; show(v, o); return o; }

// A blob of one to three buffers, some of them empty, depending on its length
inline libvariant::BlobPtr buffers(const std::string &s) {
	size_t n = s.size(), cut[4] = {0, n, n, n};
	if (n % 4 == 1) cut[1] = n / 2, cut[2] = n / 2;
	if (n % 4 == 2) cut[1] = 1;
	if (n % 4 == 3) cut[1] = n / 3, cut[2] = n - 1;
	if (n % 4 == 0) return libvariant::Blob::CreateCopy(s.data(), n);
	struct iovec v[3];
	for (int i = 0; i < 3; ++i) {
		v[i].iov_len = cut[i + 1] - cut[i];
		v[i].iov_base = malloc(v[i].iov_len + 1);
		memcpy(v[i].iov_base, s.data() + cut[i], v[i].iov_len);
	}
	return libvariant::Blob::CreateFree(v, 3);
}
inline Variant to(const V &v) {
	switch (v.k) {
	case V::Null: return Variant(Variant::NullType);
	case V::Bool: return Variant(v.b);
	case V::Int: return Variant((long long)v.i);
	case V::Uint: return Variant((unsigned long long)v.u);
	case V::Flt: return Variant(v.f);
	case V::Str: return Variant(v.s);
	case V::Blob: return Variant(buffers(v.s));
	case V::List: { Variant r = Variant::ListType; Variant::List &l = r.AsList(); for (auto &x : v.l) l.push_back(to(x)); return r; }
	case V::Map: { Variant r = Variant::MapType; Variant::Map &m = r.AsMap(); for (auto &x : v.m) m.insert(std::make_pair(x.first, to(x.second))); return r; }
	}
	return Variant();
}

inline std::string bytes(const libvariant::ConstBlobPtr &b) {
	std::string s;
	for (unsigned i = 0; i < b->GetNumBuffers(); ++i) s.append((const char *)b->GetPtr(i), b->GetLength(i));
	return s;
}

inline V from(const Variant &x) {
	V v;
	switch (x.GetType()) {
	case Variant::NullType: break;
	case Variant::BoolType: v.k = V::Bool; v.b = x.AsBool(); break;
	case Variant::IntegerType: v.k = V::Int; v.i = x.AsInt(); break;
	case Variant::UnsignedType: v.k = V::Uint; v.u = x.AsUnsigned(); break;
	case Variant::FloatType: v.k = V::Flt; v.f = x.AsDouble(); break;
	case Variant::StringType: v.k = V::Str; v.s = x.AsString(); break;
	case Variant::BlobType: v.k = V::Blob; v.s = bytes(x.AsBlob()); break;
	case Variant::ListType: v.k = V::List; { const Variant::List &l = x.AsList(); for (auto &y : l) v.l.push_back(from(y)); } break;
	case Variant::MapType: v.k = V::Map; { const Variant::Map &m = x.AsMap(); for (auto &y : m) v.m[y.first] = from(y.second); } break;
	default: throw std::runtime_error("unknown Variant type");
	}
	return v;
}

inline bool utf8(const std::string &s) {
	for (size_t i = 0; i < s.size();) {
		unsigned char c = s[i];
		int n; unsigned cp, lo;
		if (c < 0x80) { ++i; continue; }
		else if (c >= 0xc2 && c <= 0xdf) { n = 1; cp = c & 0x1f; lo = 0x80; }
		else if (c >= 0xe0 && c <= 0xef) { n = 2; cp = c & 0xf; lo = 0x800; }
		else if (c >= 0xf0 && c <= 0xf4) { n = 3; cp = c & 7; lo = 0x10000; }
		else return false;
		if (i + n >= s.size()) return false;
		for (int k = 1; k <= n; ++k) { unsigned char d = s[i + k]; if ((d & 0xc0) != 0x80) return false; cp = cp << 6 | (d & 0x3f); }
		if (cp < lo || cp > 0x10ffff || (cp >= 0xd800 && cp <= 0xdfff)) return false;
		i += n + 1;
	}
	return true;
}
inline void put_utf8(std::string &o, unsigned cp) {
	if (cp < 0x80) o += (char)cp;
	else if (cp < 0x800) { o += (char)(0xc0 | cp >> 6); o += (char)(0x80 | (cp & 63)); }
	else if (cp < 0x10000) { o += (char)(0xe0 | cp >> 12); o += (char)(0x80 | (cp >> 6 & 63)); o += (char)(0x80 | (cp & 63)); }
	else { o += (char)(0xf0 | cp >> 18); o += (char)(0x80 | (cp >> 12 & 63)); o += (char)(0x80 | (cp >> 6 & 63)); o += (char)(0x80 | (cp & 63)); }
}

// RFC 8259 reader.  Any value may be the root.
struct Json {
	const std::string &t;
	size_t p = 0;
	bool comments = false;       // also accept /* */
	bool bare_point = false;     // also accept 1. and 1.e5
	int depth = 0;
	std::string err;
	Json(const std::string &s) : t(s) {}
	bool ws() {
		for (;;) {
			while (p < t.size() && (t[p] == ' ' || t[p] == '\t' || t[p] == '\n' || t[p] == '\r')) ++p;
			if (comments && p + 1 < t.size() && t[p] == '/' && t[p + 1] == '*') {
				size_t e = t.find("*/", p + 2);
				if (e == std::string::npos) { p = t.size(); return false; }
				for (size_t i = p; i < e; ++i) if ((unsigned char)t[i] < 0x20 && !strchr("\t\n\r", t[i] ? t[i] : 1)) { p = i; return false; }
				p = e + 2;
			} else if (comments && p + 1 == t.size() && t[p] == '/') {
				p = t.size();
				return false;
			} else return true;
		}
	}
	static bool dig(char c) { return c >= '0' && c <= '9'; }
	bool lit(const char *s) {
		size_t n = strlen(s);
		if (t.compare(p, n, s)) { if (t.size() - p < n && !t.compare(p, t.size() - p, s, t.size() - p)) p = t.size(); return false; }
		p += n; return true;
	}
	bool hex4(unsigned &u) {
		if (p + 4 > t.size()) { p = t.size(); return false; }
		u = 0;
		for (int i = 0; i < 4; ++i) {
			char c = t[p++]; int d;
			if (c >= '0' && c <= '9') d = c - '0'; else if (c >= 'a' && c <= 'f') d = c - 'a' + 10; else if (c >= 'A' && c <= 'F') d = c - 'A' + 10; else return false;
			u = u << 4 | d;
		}
		return true;
	}
	bool string(std::string &o) {
		if (p >= t.size() || t[p] != '"') return false;
		++p;
		for (;;) {
			if (p >= t.size()) return false;
			unsigned char c = t[p++];
			if (c == '"') return true;
			if (c < 0x20) return false;
			if (c != '\\') { o += c; continue; }
			if (p >= t.size()) return false;
			switch (t[p++]) {
			case '"': o += '"'; break; case '\\': o += '\\'; break; case '/': o += '/'; break;
			case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break;
			case 'r': o += '\r'; break; case 't': o += '\t'; break;
			case 'u': {
				unsigned u;
				if (!hex4(u)) return false;
				if (u >= 0xdc00 && u <= 0xdfff) return false;
				if (u >= 0xd800 && u <= 0xdbff) {
					if (t.compare(p, 2, "\\u")) { if (t.size() - p < 2 && (p == t.size() || t[p] == '\\')) p = t.size(); return false; }
					p += 2; unsigned w;
					if (!hex4(w) || w < 0xdc00 || w > 0xdfff) return false;
					u = 0x10000 + ((u - 0xd800) << 10) + (w - 0xdc00);
				}
				put_utf8(o, u);
				break; }
			default: return false;
			}
		}
	}
	bool number(V &v) {
		size_t b = p;
		bool isf = false;
		if (p < t.size() && t[p] == '-') ++p;
		if (p >= t.size() || !dig(t[p])) return false;
		if (t[p] == '0') ++p; else while (p < t.size() && dig(t[p])) ++p;
		if (p < t.size() && t[p] == '.') {
			isf = true; ++p;
			if (p >= t.size() || !dig(t[p])) { if (!bare_point) return false; }
			while (p < t.size() && dig(t[p])) ++p;
		}
		if (p < t.size() && (t[p] == 'e' || t[p] == 'E')) {
			isf = true; ++p;
			if (p < t.size() && (t[p] == '+' || t[p] == '-')) ++p;
			if (p >= t.size() || !dig(t[p])) return false;
			while (p < t.size() && dig(t[p])) ++p;
		}
		std::string s = t.substr(b, p - b);
		if (!isf) {
			// exact integer if it fits, otherwise the nearest double
			bool neg = s[0] == '-'; unsigned __int128 x = 0; bool big = false;
			for (size_t i = neg; i < s.size(); ++i) { x = x * 10 + (s[i] - '0'); if (x > ((unsigned __int128)1 << 70)) { big = true; break; } }
			if (!big && neg && x <= (unsigned __int128)1 << 63) { v = V::integer(x == (unsigned __int128)1 << 63 ? INTMAX_MIN : -(intmax_t)x); return true; }
			if (!big && !neg && x <= UINTMAX_MAX) { v = x <= (unsigned __int128)INTMAX_MAX ? V::integer((intmax_t)x) : V::uinteger((uintmax_t)x); return true; }
		}
		v = V::flt(strtod(s.c_str(), 0));
		return true;
	}
	bool value(V &v) {
		if (!ws()) return false;
		if (p >= t.size()) return false;
		switch (t[p]) {
		case '{': {
			++p; v = V::map();
			if (!ws()) return false;
			if (p < t.size() && t[p] == '}') { ++p; return true; }
			for (;;) {
				if (!ws()) return false;
				std::string k; V x;
				if (!string(k) || !ws() || p >= t.size() || t[p] != ':') return false;
				++p;
				if (!value(x)) return false;
				v.m[k] = x;
				if (!ws() || p >= t.size()) return false;
				if (t[p] == ',') { ++p; continue; }
				if (t[p] == '}') { ++p; return true; }
				return false;
			} }
		case '[': {
			++p; v = V::list();
			if (!ws()) return false;
			if (p < t.size() && t[p] == ']') { ++p; return true; }
			for (;;) {
				V x;
				if (!value(x)) return false;
				v.l.push_back(x);
				if (!ws() || p >= t.size()) return false;
				if (t[p] == ',') { ++p; continue; }
				if (t[p] == ']') { ++p; return true; }
				return false;
			} }
		case '"': v = V::str(""); return string(v.s);
		case 't': v = V::boolean(true); return lit("true");
		case 'f': v = V::boolean(false); return lit("false");
		case 'n': v = V::null(); return lit("null");
		default: return number(v);
		}
	}
	// Could a continuation of the text be a document?  (Only meaningful after value() failed.)
	bool unfinished() const { return p >= t.size(); }
	bool document(V &v) { return value(v) && ws() && p == t.size(); }
};
inline bool json(const std::string &t, V &v) { Json j(t); return j.document(v); }

inline std::string b64(const std::string &s) {
	static const char *A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	std::string o;
	for (size_t i = 0; i < s.size(); i += 3) {
		unsigned n = (unsigned char)s[i] << 16; int k = 1;
		if (i + 1 < s.size()) { n |= (unsigned char)s[i + 1] << 8; ++k; }
		if (i + 2 < s.size()) { n |= (unsigned char)s[i + 2]; ++k; }
		o += A[n >> 18]; o += A[n >> 12 & 63]; o += k > 1 ? A[n >> 6 & 63] : '='; o += k > 2 ? A[n & 63] : '=';
	}
	return o;
}

// Pick a tree with at most `nodes` nodes (consumed by reference) from the given leaves and keys.
struct TreeGen {
	std::vector<V> leaves;
	std::vector<std::string> keys;
	int max_kids = 3;
	bool maps = true, lists = true;
	V gen(mc::Run &r, int &nodes, int depth, bool root_container = false) {
		--nodes;
		int nl = root_container ? 0 : (int)leaves.size();
		int c = r.choose(nl + (depth > 0 ? (lists ? 1 : 0) + (maps ? 1 : 0) : 0));
		if (c < nl) return leaves[c];
		c -= nl;
		if (lists && c == 0) {
			V v = V::list();
			while ((int)v.l.size() < max_kids && nodes > 0 && r.choose(2)) v.l.push_back(gen(r, nodes, depth - 1));
			return v;
		}
		V v = V::map();
		size_t from = 0;
		while (nodes > 0 && from < keys.size()) {
			int k = r.choose((int)(keys.size() - from) + 1);
			if (k == 0) break;
			size_t idx = from + k - 1;
			v.m[keys[idx]] = gen(r, nodes, depth - 1);
			from = idx + 1;
		}
		return v;
	}
};

} // namespace ref
