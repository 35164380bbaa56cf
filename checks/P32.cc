// P32: a document is read as the value it denotes, however it is written.
#include "guess.hpp"
#include <Variant/Parser.h>
using namespace libvariant;
using ref::V;

static std::string base64(const std::string &s) {
	static const char A[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	std::string o;
	for (size_t i = 0; i < s.size(); i += 3) {
		unsigned n = std::min<size_t>(3, s.size() - i), x = 0;
		for (unsigned k = 0; k < 3; ++k) x = x << 8 | (k < n ? (unsigned char)s[i + k] : 0);
		for (unsigned k = 0; k < 4; ++k) o += k <= n ? A[x >> (18 - 6 * k) & 63] : '=';
	}
	return o;
}
// The code points of a text in UTF-8
static std::vector<unsigned> points(const std::string &s) {
	std::vector<unsigned> o;
	for (size_t i = 0; i < s.size();) {
		unsigned char c = s[i];
		int n = c < 0x80 ? 0 : c < 0xe0 ? 1 : c < 0xf0 ? 2 : 3;
		unsigned p = n == 0 ? c : c & (0x3f >> n);
		for (int k = 1; k <= n; ++k) p = p << 6 | (s[i + k] & 0x3f);
		o.push_back(p); i += n + 1;
	}
	return o;
}
static std::string utf16(const std::string &s, bool big) {
	std::string o;
	auto put = [&](unsigned u) { o += char(big ? u >> 8 : u & 255); o += char(big ? u & 255 : u >> 8); };
	put(0xfeff);
	for (unsigned p : points(s)) { if (p < 0x10000) put(p); else { put(0xd800 + ((p - 0x10000) >> 10)); put(0xdc00 + ((p - 0x10000) & 0x3ff)); } }
	return o;
}
static std::string latin1(const std::string &s) { std::string o; for (unsigned p : points(s)) { if (p > 255) throw mc::Skip(); o += (char)p; } return o; }
static size_t middle(const std::string &s) { size_t h = s.size() / 2; while (h < s.size() && (s[h] & 0xc0) == 0x80) ++h; return h; }

// ---- XML property lists
struct Xml {
	mc::Run &r; std::string o; bool ent = false;
	Xml(mc::Run &r) : r(r) {}
	static std::string esc(const std::string &s) { std::string o; for (char c : s) { if (c == '<') o += "&lt;"; else if (c == '&') o += "&amp;"; else if (c == '>') o += "&gt;"; else o += c; } return o; }
	void gap() {
		switch (r.dev(8)) {
		case 1: o += " \n\t"; break; case 2: o += "<!-- a <b> &c; -->"; break; case 3: o += "<?pi <x> ?>"; break; case 4: o += "\n<!---->\n  "; break;
		case 5: o += "<!-- </plist> --><!--x-->"; break; case 6: o += "\r\n"; break; case 7: o += "<?pi?> <!-- <key>k</key><string>s</string> -->"; break;
		}
	}
	std::string tag(const std::string &n, std::string &close) {
		std::string name = n, attr;
		switch (r.dev(6)) {
		case 1: for (char &c : name) c = toupper(c); break; case 2: name[0] = toupper(name[0]); break; case 3: attr = " id=\"a>b\" x='1'"; break; case 4: attr = "\n  "; break; case 5: attr = " key=\"&lt;string/&gt;\""; break;
		}
		close = "</" + name + (attr == "\n  " ? "\n>" : ">");
		return "<" + name + attr;
	}
	// Text, written as it is or in other ways
	void text(const std::string &s) {
		size_t h = middle(s);
		auto cdata = [](const std::string &t) { std::string o = "<![CDATA["; for (size_t i = 0; i < t.size(); ++i) { o += t[i]; if (t.compare(i, 3, "]]>") == 0) { o += "]]]><![CDATA["; i += 1; } } return o + "]]>"; };
		auto refs = [](const std::string &t, bool hex) { std::string o; for (unsigned p : points(t)) o += mc::fmt(hex ? "&#x%X;" : "&#%u;", p); return o; };
		int c = r.dev(13);
		if (s.find('\r') != std::string::npos && c != 4 && c != 5) { o += refs(s, true); return; }   // a literal one would be a line feed
		switch (c) {
		case 0: o += esc(s); break;
		case 1: o += cdata(s); break;
		case 2: o += esc(s.substr(0, h)) + cdata(s.substr(h)); break;
		case 3: o += cdata(s.substr(0, h)) + esc(s.substr(h)); break;
		case 4: o += refs(s, false); break;
		case 5: o += refs(s, true); break;
		case 6: o += esc(s.substr(0, h)) + "<!-- c -->" + esc(s.substr(h)); break;
		case 7: o += "<!-- c -->" + esc(s) + "<!-- d -->"; break;
		case 8: o += esc(s.substr(0, h)) + "<?pi x?>" + esc(s.substr(h)); break;
		case 9: if (!ent) throw mc::Skip(); o += "&none;" + esc(s) + "&none;"; break;
		case 10: { if (s.find('e') == std::string::npos || !ent) throw mc::Skip(); std::string t; for (char c : esc(s)) { if (c == 'e' && (t.empty() || t.find('&') == std::string::npos)) t += "&ee;"; else t += c; } o += t; break; }
		case 11: { std::string t; for (char c : s) { if (c == '"') t += "&quot;"; else if (c == '\'') t += "&apos;"; else t += esc(std::string(1, c)); } o += t; break; }
		case 12: o += cdata(s.substr(0, h)) + cdata(s.substr(h)); break;
		}
	}
	void node(const std::string &name, const std::string &t) { std::string close; o += tag(name, close) + ">"; text(t); o += close; }
	void value(const V &v) {
		std::string close;
		switch (v.k) {
		case V::Null: case V::Bool: {
			std::string t = tag(v.k == V::Null ? "null" : v.b ? "true" : "false", close);
			switch (r.dev(4)) { case 0: o += t + "/>"; break; case 1: o += t + " />"; break; case 2: o += t + ">" + close; break; case 3: o += t + "><!-- x -->" + close; break; }
			break;
		}
		case V::Int: case V::Uint: {
			bool neg = v.k == V::Int && v.i < 0;
			uintmax_t a = v.k == V::Int ? (neg ? 0 - (uintmax_t)v.i : (uintmax_t)v.i) : v.u;
			std::string d = mc::fmt(neg ? "-%ju" : "%ju", a);
			switch (r.dev(6)) { case 1: d = (neg ? "" : "+") + d; break; case 2: d = " " + d + " "; break; case 3: d = "\n\t" + d + "\n"; break; case 4: d = mc::fmt(neg ? "-0x%jx" : "0x%jx", a); break; case 5: d = mc::fmt(neg ? "-0X%jX" : "0X%jX", a); break; }
			node("integer", d);
			break;
		}
		case V::Flt: {
			std::string d;
			switch (r.dev(5)) { case 0: d = mc::fmt("%.17g", v.f); break; case 1: d = mc::fmt(" %.17e\n", v.f); break; case 2: d = mc::fmt("%+.17g", v.f); break; case 3: d = mc::fmt("%.17E", v.f); break; case 4: d = mc::fmt("%.20f", v.f); if (fabs(v.f) < 1e-3 || fabs(v.f) > 1e15) throw mc::Skip(); break; }
			node("real", d);
			break;
		}
		case V::Str: node("string", v.s); break;
		case V::Blob: {
			std::string b = base64(v.s), t;
			switch (r.dev(5)) { case 0: t = b; break; case 1: for (char c : b) t += c, t += "\n"; break; case 2: t = "\n\t" + b.substr(0, b.size() / 2) + "\r\n\t" + b.substr(b.size() / 2) + "\n"; break; case 3: for (char c : b) t += std::string(" ") + c; break; case 4: t = b.substr(0, 1) + " \t " + (b.empty() ? "" : b.substr(1)) + " "; break; }
			if (t.find('\r') != std::string::npos) { o += tag("data", close) + ">" + t + close; } else node("data", t);
			break;
		}
		case V::List: case V::Map: {
			std::string t = tag(v.k == V::List ? "array" : "dict", close);
			if (v.l.empty() && v.m.empty()) { switch (r.dev(4)) { case 0: o += t + "/>"; return; case 1: o += t + ">" + close; return; case 2: o += t + ">\n " + close; return; case 3: o += t + "><!-- " + "<x/>" + " -->" + close; return; } }
			o += t + ">";
			for (auto &x : v.l) { gap(); value(x); }
			if (r.dev(2)) for (auto i = v.m.rbegin(); i != v.m.rend(); ++i) { gap(); node("key", i->first); gap(); value(i->second); }
			else for (auto &x : v.m) { gap(); node("key", x.first); gap(); value(x.second); }
			gap(); o += close;
			break;
		}
		}
	}
	std::string document(const V &v) {
		std::string pro, after;
		int enc = r.dev(6);      // as UTF-8, with a byte order mark, UTF-16 (big, little), ISO-8859-1, ASCII by references
		int decl = r.dev(4), type = r.dev(4);
		static const char *ENC[] = {"UTF-8", "UTF-8", "UTF-16", "UTF-16", "ISO-8859-1", "US-ASCII"};
		if (decl == 0 || enc >= 4) pro = mc::fmt("<?xml version=\"1.0\" encoding=\"%s\"?>\n", ENC[enc]);
		else if (decl == 1) pro = "<?xml version='1.0'?>";
		else if (decl == 2) pro = "";
		else pro = mc::fmt("<?xml version=\"1.0\" encoding=\"%s\" standalone=\"yes\" ?>\r\n", ENC[enc]);
		switch (type) {
		case 1: pro += "<!DOCTYPE plist PUBLIC \"-//Apple//DTD PLIST 1.0//EN\" \"http://127.0.0.1:9/none.dtd\">\n"; break;
		case 2: pro += "<!DOCTYPE plist [\n<!ENTITY none \"\"><!-- c --> <!ENTITY ee \"e\">\n]>\n"; ent = true; break;
		case 3: pro += "<!DOCTYPE plist [<!ENTITY n \"\"><!ENTITY none \"&n;&n;\"><!ENTITY ee '&#101;'>]>"; ent = true; break;
		}
		switch (r.dev(4)) { case 1: pro += "<!-- plist -->\n"; break; case 2: pro += "<?xml-stylesheet href=\"x\"?>"; break; case 3: pro += " \n\n"; break; }
		o = pro;
		std::string close, root = "plist";
		int plain = r.dev(4);
		if (plain != 3) o += tag("plist", close) + (plain == 0 ? " version=\"1.0\">" : plain == 1 ? ">" : " version='1.0' >");
		if (plain != 3) gap();
		value(v);
		if (plain != 3) { gap(); o += close; }
		switch (r.dev(5)) { case 1: o += "\n"; break; case 2: o += "\n<!-- end -->\n"; break; case 3: o += "<?end?>"; break; case 4: o += " \r\n "; break; }
		switch (enc) {
		case 1: return "\xef\xbb\xbf" + o;
		case 2: return utf16(o, true);
		case 3: return utf16(o, false);
		case 4: return latin1(o);
		case 5: { std::string a; for (unsigned p : points(o)) if (p < 128) a += (char)p; else a += mc::fmt("&#%u;", p); if (a.find("<![CDATA[") != std::string::npos && a != o) throw mc::Skip(); return a; }
		}
		return o;
	}
};

// ---- YAML
struct Yaml {
	mc::Run &r;
	std::string eol = "\n";
	int anchors = 0;
	std::vector<std::pair<std::string, V>> named;     // the anchors so far, with what they name
	Yaml(mc::Run &r) : r(r) {}
	static bool plain(const std::string &s, bool flow) {
		if (s.empty() || ref::guess(s).k != V::Str || ref::trim(s) != s || s == "---" || s == "...") return false;
		if (strchr("-?:,[]{}#&*!|>'\"%@`~=<", s[0]) && s != "-a") return false;
		for (size_t i = 0; i < s.size(); ++i) {
			unsigned char c = s[i];
			if (c < 0x20 || c == 0x7f) return false;
			if (c == ':' || c == '#') return false;
			if (flow && strchr(",[]{}?", c)) return false;
		}
		for (unsigned p : points(s)) if (p == 0x85 || p == 0x2028 || p == 0x2029 || p == 0xfeff || (p >= 0x80 && p < 0xa0)) return false;
		return true;
	}
	static bool printable(const std::string &s) { for (unsigned p : points(s)) if ((p < 0x20 && p != 9) || p == 0x7f || (p >= 0x80 && p < 0xa0) || p == 0x2028 || p == 0x2029 || p == 0xfeff) return false; return true; }
	static std::string dquote(const std::string &s, int how) {
		std::string o = "\"";
		for (unsigned p : points(s)) {
			static const std::map<unsigned, const char *> N = {{0, "\\0"}, {7, "\\a"}, {8, "\\b"}, {9, "\\t"}, {10, "\\n"}, {11, "\\v"}, {12, "\\f"}, {13, "\\r"}, {27, "\\e"}, {34, "\\\""}, {92, "\\\\"}, {0x85, "\\N"}, {0xa0, "\\_"}, {0x2028, "\\L"}, {0x2029, "\\P"}};
			auto n = N.find(p);
			if (how == 1 && p < 256) o += mc::fmt("\\x%02x", p);
			else if (how <= 2 && how >= 1 && p < 65536) o += mc::fmt("\\u%04X", p);
			else if (how == 3 || (how && p >= 65536)) o += mc::fmt("\\U%08x", p);
			else if (n != N.end()) o += n->second;
			else if (p < 0x20 || p == 0x7f || (p >= 0x80 && p < 0xa0) || p == 0xfeff) o += mc::fmt("\\u%04x", p);
			else ref::put_utf8(o, p);
		}
		return o + "\"";
	}
	static std::string squote(const std::string &s) { std::string o = "'"; for (char c : s) { o += c; if (c == '\'') o += c; } return o + "'"; }
	std::string anchor(const V &v) {
		if (!r.dev(2)) return "";
		std::string name = mc::fmt(anchors ? "b%d" : "a-1", anchors);
		if (anchors && r.dev(2)) name = named.back().first;         // the name of the last one, given again
		++anchors;
		for (auto &n : named) if (n.first == name) n.first.clear();
		named.push_back({name, v});
		return "&" + name + " ";
	}
	// A scalar on one line
	std::string scalar(const V &v, bool flow, bool key) {
		switch (v.k) {
		case V::Null: { static const char *T[] = {"null", "~", "Null", "NULL"}; return T[r.dev(4)]; }
		case V::Bool: { static const char *T[] = {"true", "True", "TRUE", "false", "False", "FALSE"}; return T[r.dev(3) + (v.b ? 0 : 3)]; }
		case V::Int: case V::Uint: {
			bool neg = v.k == V::Int && v.i < 0;
			uintmax_t a = v.k == V::Int ? (neg ? 0 - (uintmax_t)v.i : (uintmax_t)v.i) : v.u;
			switch (r.dev(neg ? 2 : 5)) { case 0: return mc::fmt(neg ? "-%ju" : "%ju", a); case 1: return mc::fmt(neg ? "-00%ju" : "00%ju", a); case 2: return mc::fmt("+%ju", a); case 3: return mc::fmt("0x%jx", a); default: return mc::fmt("0o%jo", a); }
		}
		case V::Flt: {
			if (std::isnan(v.f)) { static const char *T[] = {".nan", ".Nan", ".NAN"}; return T[r.dev(3)]; }
			if (std::isinf(v.f)) { static const char *T[] = {".inf", ".Inf", ".INF", "+.inf"}; return v.f < 0 ? "-.inf" : T[r.dev(4)]; }
			switch (r.dev(3)) { case 0: return mc::fmt("%.17e", v.f); case 1: return mc::fmt("%+.17E", v.f); default: { std::string s = mc::fmt("%.17g", v.f); return s.find_first_of(".e") == std::string::npos ? s + "." : s; } }
		}
		case V::Str: {
			int c = r.dev(9);
			switch (c) {
			case 0: return dquote(v.s, 0);
			case 1: case 2: case 3: return dquote(v.s, c);
			case 4: if (!printable(v.s)) throw mc::Skip(); return squote(v.s);
			case 5: if (!plain(v.s, flow)) throw mc::Skip(); return v.s;
			case 6: if (v.s.empty() || v.s.find_first_not_of("abcdefghijklmnopqrstuvwxyz0123456789.+-_~") != std::string::npos || strchr("-.~", v.s[0])) throw mc::Skip(); return (key ? "!!str " : "! ") + v.s;
			case 7: if (!printable(v.s)) throw mc::Skip(); return "!!str " + squote(v.s);
			default: if (!plain(v.s, flow)) throw mc::Skip(); return "!<tag:yaml.org,2002:str> " + v.s;
			}
		}
		case V::Blob: { std::string b = base64(v.s); switch (r.dev(3)) { case 0: return "!!binary \"" + b + "\""; case 1: return b.empty() ? "!!binary ''" : "!!binary " + b; default: return "!<tag:yaml.org,2002:binary> '" + b + "'"; } }
		default: return "";
		}
	}
	std::string alias(const V &v) {
		for (size_t i = named.size(); i--;) if (!named[i].first.empty() && ref::same(named[i].second, v)) { if (r.dev(2)) return "*" + named[i].first; break; }
		return "";
	}
	std::string flow(const V &v, bool key = false) {
		std::string a = alias(v);
		if (!a.empty()) return a;
		a = anchor(v);
		if (v.k != V::List && v.k != V::Map) return a + scalar(v, true, key);
		bool list = v.k == V::List;
		std::string sep = ", ", open = list ? "[" : "{", close = list ? "]" : "}";
		switch (r.dev(5)) { case 1: open += " "; close = " " + close; break; case 2: sep = "," + eol + "   "; break; case 3: open += eol + "   "; close = eol + "   " + close; break; case 4: sep = " , # c" + eol + "     "; break; }
		std::string t;
		size_t n = 0, size = v.l.size() + v.m.size();
		for (auto &x : v.l) { t += (n++ ? sep : "") + flow(x); }
		for (auto &x : v.m) {
			t += n++ ? sep : "";
			V k = V::str(x.first);
			bool q = r.dev(2);
			std::string ks = flow(k, true);
			if (q) t += "? " + ks + " : "; else t += ks + (ks[0] == '*' ? " : " : ": ");
			t += flow(x.second);
		}
		if (size && r.dev(2)) t += ",";
		return a + open + t + close;
	}
	// The text after "- " or "key:", up to and with the line break
	std::string block(const V &v, int indent, bool inmap) {
		std::string a = alias(v);
		if (!a.empty()) return a + eol;
		if (v.k == V::List || v.k == V::Map) {
			if ((v.l.empty() && v.m.empty()) || r.dev(2)) return flow(v) + eol;
			a = anchor(v);
			int ind = indent;
			if (v.k == V::List && inmap) { if (r.dev(2)) ind = indent; else ind = indent + 2; }    // a list need not be indented in a map
			else if (indent >= 0) { static const int W[] = {2, 1, 5}; ind = indent + W[r.dev(3)]; }
			else ind = 0;
			// on the line of the dash, or on lines of its own
			bool compact = indent >= 0 && !inmap && a.empty() && r.dev(2);
			std::string t, pad(ind, ' ');
			if (compact) { pad = std::string(indent + 2, ' '); ind = indent + 2; }
			else if (indent >= 0) { while (!a.empty() && a.back() == ' ') a.pop_back(); t = a + eol; }
			else if (!a.empty()) { while (!a.empty() && a.back() == ' ') a.pop_back(); t = "--- " + a + eol; }
			bool first = true;
			auto line = [&]() { if (first && compact) { first = false; return; } first = false; switch (r.dev(4)) { case 1: t += pad + "# c: [" + eol; break; case 2: t += eol; break; case 3: t += "  " + eol + "#" + eol; break; } t += pad; };
			for (auto &x : v.l) { line(); t += "- " + block(x, ind, false); }
			for (auto &x : v.m) {
				line();
				V k = V::str(x.first);
				std::string ks = alias(k);
				if (ks.empty()) { ks = anchor(k); ks += scalar(k, false, true); } else ks += " ";
				if (r.dev(2)) t += "? " + ks + eol + pad + ": " + block(x.second, ind, false);
				else t += ks + ": " + block(x.second, ind, true);
			}
			return t;
		}
		a = anchor(v);
		int ind = indent < 0 ? 1 : indent + 2;
		std::string pad(ind, ' ');
		if (v.k == V::Str) {
			int c = r.dev(8);
			if (c == 1 || c == 2) {      // literal and folded
				std::string s = v.s;
				if (s.empty() || !printable([&] { std::string x; for (char ch : s) if (ch != '\n') x += ch; return x; }())) throw mc::Skip();
				size_t e = s.size(); while (e && s[e - 1] == '\n') --e;
				std::string body = s.substr(0, e), tail = s.substr(e);
				if (body.empty()) throw mc::Skip();
				std::string head = c == 1 ? "|" : ">";
				if (body[0] == ' ' || body[0] == '\n') head += mc::fmt("%d", indent < 0 ? 1 : 2);
				if (c == 2 && (body.find("\n ") != std::string::npos || body.find("\n\t") != std::string::npos || body[0] == ' ' || body[0] == '\t')) throw mc::Skip();
				head += tail.empty() ? "-" : tail.size() > 1 ? "+" : "";
				std::string t = a + head + eol;
				size_t p = 0;
				while (p <= body.size()) {
					size_t n = body.find('\n', p);
					std::string l = body.substr(p, n == std::string::npos ? n : n - p);
					t += (l.empty() ? "" : pad + l) + eol;
					if (n == std::string::npos) break;
					if (c == 2 && !l.empty()) { t += eol; while (n + 1 < body.size() && body[n + 1] == '\n') { t += eol; ++n; } }
					p = n + 1;
				}
				for (size_t i = 1; i < tail.size(); ++i) t += eol;
				return t;
			}
			if (c == 3 || c == 4 || c == 5) {      // over two lines: at a blank in the middle
				size_t b = v.s.find(' ');
				if (b == std::string::npos || b == 0 || b + 1 == v.s.size() || v.s[b - 1] == ' ' || v.s[b + 1] == ' ' || strchr("\n\t", v.s[b + 1]) || strchr("\n\t", v.s[b - 1])) throw mc::Skip();
				std::string x = v.s.substr(0, b), y = v.s.substr(b + 1);
				if (c == 3) { if (!plain(v.s, false) || !plain(x + "z", false) || !plain("z" + y, false) || strchr("-?", y[0])) throw mc::Skip(); return a + x + eol + pad + y + eol; }
				if (c == 4) { if (!printable(v.s)) throw mc::Skip(); std::string q = squote(v.s), qx = squote(x), qy = squote(y); return a + qx.substr(0, qx.size() - 1) + eol + pad + "  " + qy.substr(1) + eol; }
				std::string qx = dquote(x, 0), qy = dquote(y, 0);
				return a + qx.substr(0, qx.size() - 1) + eol + pad + qy.substr(1) + eol;
			}
			if (c == 6) {                          // over two lines, with an escaped line break
				size_t h = middle(v.s);
				std::string qx = dquote(v.s.substr(0, h), 0), qy = dquote(v.s.substr(h), 0);
				std::string rest = qy.substr(1);
				if (rest[0] == ' ' || rest[0] == '\t') rest = "\\" + rest;
				return a + qx.substr(0, qx.size() - 1) + "\\" + eol + pad + rest + eol;
			}
			if (c == 7) return (a.empty() ? "" : a.substr(0, a.size() - 1)) + (indent < 0 ? "" : eol) + pad + scalar(v, false, false) + eol;
		}
		if (v.k == V::Blob && r.dev(2)) {
			std::string b = base64(v.s), t = a + "!!binary |" + eol;
			if (b.empty()) throw mc::Skip();
			for (size_t i = 0; i < b.size(); i += 5) t += pad + b.substr(i, 5) + eol;
			return t;
		}
		std::string t = a + scalar(v, false, false);
		switch (r.dev(3)) { case 1: t += " # c"; break; case 2: t += "  "; break; }
		return t + eol;
	}
	std::string document(const V &v) {
		static const char *EOL[] = {"\n", "\r\n", "\r"};
		eol = EOL[r.dev(3)];
		int enc = r.dev(4), start = r.dev(6);
		std::string o = block(v, -1, false);
		bool collection = v.k == V::List || v.k == V::Map;
		bool marked = o.compare(0, 3, "---") == 0;
		switch (start) {
		case 0: if (!marked) o = "---" + eol + o; break;
		case 1: if (o.compare(0, 2, "--") == 0 && !marked) throw mc::Skip(); break;
		case 2: if (marked || (collection && !strchr("[{", o[0]))) throw mc::Skip(); o = "--- " + o; break;
		case 3: o = "%YAML 1.1" + eol + (marked ? "" : "---" + eol) + o; break;
		case 4: o = "# c" + eol + eol + (marked ? "" : "---" + eol) + o; break;
		case 5: o = "%TAG !x! tag:x," + eol + (marked ? "" : "--- # c" + eol) + o; break;
		}
		switch (r.dev(4)) { case 1: o += "..." + eol; break; case 2: o += "# end" + eol; break; case 3: while (!o.empty() && (o.back() == '\n' || o.back() == '\r')) o.pop_back(); if (v.k == V::Str || collection) { if (o.find('|') != std::string::npos || o.find('>') != std::string::npos) throw mc::Skip(); } break; }
		switch (enc) { case 1: return "\xef\xbb\xbf" + o; case 2: return utf16(o, true); case 3: return utf16(o, false); }
		return o;
	}
};

static const std::vector<V> SCALARS = {
	V(), V::boolean(true), V::boolean(false), V::integer(0), V::integer(7), V::integer(-12), V::integer(INTMAX_MIN), V::uinteger(UINTMAX_MAX), V::integer(INTMAX_MAX), V::flt(0.5), V::flt(-2.25e20), V::flt(5e-324), V::flt(0.1),
	V::str(""), V::str("e"), V::str(" "), V::str("one two"), V::str("12"), V::str("null"), V::str("<a>&amp;\"'"), V::str("]]>"), V::str("line one\nline two\n"), V::str("\n\nx\n\n y\n\n"), V::str("t\tb: c #d"), V::str("\xc3\xa9t\xc3\xa9"), V::str("\xf0\x9f\x98\x80 \xe2\x82\xac"), V::str("- a"), V::str("it's"), V::str("a\rb"), V::str("end  "), V::str("\\n%{}[],"),
	V::blob(""), V::blob(std::string("\0\xff", 2)), V::blob("Hello, world"), V::blob(std::string(100, 'z'))};
static std::vector<V> documents() {
	std::vector<V> o;
	V a = V::str("a b"), n = V::integer(1);
	o.push_back(V::list()); o.push_back(V::map());
	o.push_back(V::list({n, n, V::list({n})}));
	o.push_back(V::list({a, V::str("x"), a}));
	o.push_back(V::list({V::list(), V::map(), V()}));
	o.push_back(V::list({V::list({V::list({a})})}));
	o.push_back(V::map({{"k", V::str("v")}}));
	o.push_back(V::map({{"a b", a}, {"e", V::str("e")}}));
	o.push_back(V::map({{"", V::str("")}, {"x", V::map({{"y", V::list({n, V::boolean(true)})}})}}));
	o.push_back(V::map({{"l", V::list({V::map({{"p", n}, {"q", V()}})})}, {"m", V::map({{"p", n}, {"q", V()}})}}));
	o.push_back(V::map({{"one", V::blob("bytes")}, {"two", V::blob("bytes")}}));
	o.push_back(V::map({{"\xc3\xa9", V::str("multi\nline\n")}, {"1", V::flt(1.5)}, {"- x", V::str("y: z")}}));
	return o;
}

static void judge(mc::Run &r, const V &v, const std::string &text, SerializeType t) {
	r.note("%s as %s", ref::show(v).c_str(), mc::q(text).c_str());
	std::unique_ptr<char[]> exact(new char[text.size() ? text.size() : 1]);
	memcpy(exact.get(), text.data(), text.size());
	V got;
	try { got = ref::from(Deserialize(exact.get(), (unsigned)text.size(), t)); }
	catch (const std::exception &e) { r.fail("refused", "%s", e.what()); }
	r.check(ref::same(got, v), "value", "read as %s", ref::show(got).c_str());
	r.state(mc::hash(text)); r.step(1); r.outcome(ref::show(got));
}
template<class W> static void run(mc::Run &r, const std::vector<V> &vs, SerializeType t, int quick, int thorough) {
	const V &v = vs[r.choose(vs.size())];
	r.budget = r.thorough ? thorough : quick;
	std::string text = W(r).document(v);
	if (r.fresh()) judge(r, v, text, t);
}

// Nodes with and without anchors, and aliases
static void aliases(mc::Run &r) {
	int form = r.choose(5), n = 1 + r.choose((form < 3 ? 4 : 2) + (r.thorough ? 1 : 0));
	std::map<std::string, V> env;
	std::string text;
	V list = V::list(), map = V::map();
	bool bad = false;
	for (int i = 0; i < n; ++i) {
		static const char *NAME[] = {"", "a", "b"};
		auto node = [&](const V &v, const std::string &t, int a) { if (a) env[NAME[a]] = v; return (a ? mc::fmt("&%s ", NAME[a]) : std::string()) + t; };
		auto alias = [&](int a, V &v) { auto e = env.find(NAME[a]); if (e == env.end()) bad = true; else v = e->second; return std::string("*") + NAME[a]; };
		V v, k = V::str(mc::fmt("k%d", i));
		std::string kt = k.s, t;
		if (form >= 3) {
			int c = r.choose(5);
			if (c < 3) kt = node(k, k.s, c); else { kt = alias(c - 2, k) + " "; if (!bad && k.k != V::Str) throw mc::Skip(); }
		}
		int c = r.choose(11);
		if (c < 3) { v = V::integer(i); t = node(v, mc::fmt("%d", i), c); }
		else if (c < 6) { v = V::str(mc::fmt("s%d", i)); t = node(v, v.s, c - 3); }
		else if (c < 8) t = alias(c - 5, v);
		else if (c == 8) { v = V::list({V::integer(i)}); t = node(v, mc::fmt("[%d]", i), 1); }
		else if (c == 9) { V x = V::integer(i); std::string in = node(x, mc::fmt("%d", i), 1); v = V::map({{"in", x}}); t = node(v, "{in: " + in + "}", 2); }
		else { V x; std::string in = alias(1, x); v = V::list({x}); t = "[ " + in + " ]"; }
		switch (form) {
		case 0: text += (i ? ", " : "[") + t + (i + 1 == n ? " ]\n" : ""); break;
		case 1: text += "- " + t + "\n"; break;
		case 2: case 3: text += kt + ": " + t + "\n"; break;
		case 4: text += (i ? ", " : "{") + kt + ": " + t + (i + 1 == n ? " }\n" : ""); break;
		}
		list.l.push_back(v); map.m[k.s] = v;
	}
	if (!r.fresh()) return;
	const V &want = form < 2 ? list : map;
	if (!bad) { judge(r, want, text, SERIALIZE_YAML); return; }
	r.note("%s", mc::q(text).c_str());
	bool threw = false;
	try { Deserialize(text, SERIALIZE_YAML); } catch (const std::exception &) { threw = true; }
	r.check(threw, "dangling", "an alias to nothing is accepted");
	r.state(mc::hash(text)); r.step(1); r.outcome("refused");
}

int main(int argc, char **argv) {
	mc::Check c;
	c.prop = "P32"; c.level = "model_checking";
	c.rule = "every document is written in every combination of up to a number of deviations from a usual form by a writer independent of the library, and read by the real parser; the value has to be the one written";
	c.assumptions = {"YAML empty plain scalars are empty strings, tags other than str, binary and ! are not claimed", "XML integers with leading zeros, empty elements and elements that are not part of property lists are not claimed", "an anchor inside a node with the same anchor is not claimed"};
	c.spaces.push_back({"xml scalars", mc::fmt("%zu scalars, up to 2 (thorough 3) deviations among encoding, declaration, document type, comments, instructions, tags, CDATA, references, numbers and base64 layout", SCALARS.size()), [](mc::Run &r) { run<Xml>(r, SCALARS, SERIALIZE_XMLPLIST, 2, 3); }, 2, true});
	c.spaces.push_back({"xml documents", mc::fmt("%zu lists and maps, up to 2 (thorough 3) of the same deviations", documents().size()), [](mc::Run &r) { static const std::vector<V> D = documents(); run<Xml>(r, D, SERIALIZE_XMLPLIST, 2, 3); }, 2, true});
	c.spaces.push_back({"yaml scalars", mc::fmt("%zu scalars, up to 3 (thorough 4) deviations among line breaks, encoding, markers, comments, quoting, folding, escapes, tags, anchors and number notation", SCALARS.size()), [](mc::Run &r) { run<Yaml>(r, SCALARS, SERIALIZE_YAML, 3, 4); }, 2, true});
	c.spaces.push_back({"yaml documents", mc::fmt("%zu lists and maps, up to 3 (thorough 4) deviations, with block and flow style, indentation, explicit keys, anchors given once or again, and aliases", documents().size()), [](mc::Run &r) { static const std::vector<V> D = documents(); run<Yaml>(r, D, SERIALIZE_YAML, 3, 4); }, 2, true});
	c.spaces.push_back({"yaml aliases", "up to 4 (thorough 5) nodes of 11 kinds with two anchors given any number of times and aliases to them, in lists and maps; up to 2 (thorough 3) with keys that have anchors or are aliases", aliases, 3, true});
	return mc::run(argc, argv, c);
}
