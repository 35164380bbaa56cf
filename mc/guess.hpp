// The typing of plain scalars, written from the documented pattern without regular expressions.
#pragma once
#include "ref.hpp"

namespace ref {
inline bool space(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
inline std::string trim(const std::string &s) {
	size_t b = 0, e = s.size();
	while (b < e && space(s[b])) ++b;
	while (e > b && space(s[e - 1])) --e;
	return s.substr(b, e - b);
}

inline V guess(const std::string &text) {
	std::string s = trim(text);
	auto is = [&](std::initializer_list<const char *> l) { for (auto x : l) if (s == x) return true; return false; };
	if (is({"null", "Null", "NULL", "~"})) return V::null();
	if (is({"true", "True", "TRUE"})) return V::boolean(true);
	if (is({"false", "False", "FALSE"})) return V::boolean(false);
	if (is({".inf", "+.inf", ".Inf", ".INF"})) return V::flt(INFINITY);
	if (is({"-.inf"})) return V::flt(-INFINITY);
	if (is({".nan", ".Nan", ".NAN"})) return V::flt(NAN);
	auto dig = [](char c) { return c >= '0' && c <= '9'; };
	size_t n = s.size(), p = 0;
	auto number = [&](size_t from, unsigned base, bool neg, V &v) {      // s[from..] in base, clamped
		unsigned __int128 x = 0; bool big = false;
		if (from >= n) return false;
		for (size_t i = from; i < n; ++i) {
			unsigned d = dig(s[i]) ? s[i] - '0' : s[i] >= 'a' && s[i] <= 'f' ? s[i] - 'a' + 10 : s[i] >= 'A' && s[i] <= 'F' ? s[i] - 'A' + 10 : 99;
			if (d >= base) return false;
			x = x * base + d;
			if (x > UINTMAX_MAX) big = true, x = (unsigned __int128)UINTMAX_MAX + 1;
		}
		if (neg) v = big || x > (unsigned __int128)1 << 63 ? V::integer(INTMAX_MIN) : V::integer((intmax_t)(0 - (uintmax_t)x));
		else v = V::uinteger(big ? UINTMAX_MAX : (uintmax_t)x);
		return true;
	};
	V v;
	if (n > 1 && s[0] == '0' && s[1] == 'o' && number(2, 8, false, v)) return v;
	if (n > 1 && s[0] == '0' && s[1] == 'x' && number(2, 16, false, v)) return v;
	bool neg = n && s[0] == '-';
	if (n && (s[0] == '-' || s[0] == '+')) p = 1;
	if (number(p, 10, neg, v)) return v;
	// [-+]? ( . digits+ | digits+ (. digits*)? ) ([eE][-+]?digits+)?
	size_t a = p;
	while (p < n && dig(s[p])) ++p;
	size_t whole = p - a, frac = 0;
	if (p < n && s[p] == '.') { ++p; size_t b = p; while (p < n && dig(s[p])) ++p; frac = p - b; }
	bool ok = whole || frac;
	if (ok && p < n && (s[p] == 'e' || s[p] == 'E')) {
		++p; if (p < n && (s[p] == '-' || s[p] == '+')) ++p;
		size_t b = p; while (p < n && dig(s[p])) ++p;
		ok = p > b;
	}
	if (ok && p == n) return V::flt(strtod(s.c_str(), 0));
	return V::str(text);
}

// Reader of the bundle header format: one "key: value" per line.
inline V bundle(const std::string &text) {
	V m = V::map();
	for (size_t p = 0; p < text.size();) {
		size_t e = text.find('\n', p);
		std::string l = text.substr(p, e == std::string::npos ? e : e - p);
		p = e == std::string::npos ? text.size() : e + 1;
		size_t i = 0;
		std::string key;
		while (i < l.size() && space(l[i])) ++i;
		while (i < l.size() && !strchr(": \t#", l[i])) key += l[i++];
		if (i < l.size() && l[i] == '#') continue;
		while (i < l.size() && space(l[i])) ++i;
		if (i >= l.size() || l[i] != ':') continue;
		std::string val = trim(l.substr(i + 1, l.find('#', i + 1) == std::string::npos ? std::string::npos : l.find('#', i + 1) - i - 1));
		if (key == "bundle.version") continue;
		if (val.find('|') == std::string::npos) { m.m[key] = guess(val); continue; }
		V list = V::list();
		if (val != "|") {
			if (val.back() == '|') val.pop_back();
			for (size_t b = 0;;) {
				size_t x = val.find('|', b);
				list.l.push_back(guess(val.substr(b, x == std::string::npos ? x : x - b)));
				if (x == std::string::npos) break;
				b = x + 1;
			}
		}
		m.m[key] = list;
	}
	return m;
}
} // namespace ref
