// Value generators shared by the checks of the text formats.
#pragma once
#include "ref.hpp"

namespace gen {
using ref::V;

// +-(2^k + d), +-(10^k + d), signed and unsigned
inline V integer(mc::Run &r) {
	int k = r.choose(84);
	unsigned __int128 base = 1;
	if (k < 64) base <<= k; else for (int i = 0; i < k - 64; ++i) base *= 10;
	uintmax_t u = (uintmax_t)base + (uintmax_t)(r.choose(5) - 2);
	switch (r.choose(3)) {
	case 0: return V::uinteger(u);
	case 1: return V::integer((intmax_t)u);
	default: return V::integer((intmax_t)(0 - u));
	}
}

// A list of doubles: every exponent x sign x mantissa patterns, and short decimals
inline V doubles(mc::Run &r, bool finite = false) {
	static const uint64_t M[] = {0, 1, 2, 0xfffffffffffffull, 0xffffffffffffeull, 0x8000000000000ull, 0x8000000000001ull, 0x7ffffffffffffull, 0x5555555555555ull, 0xaaaaaaaaaaaaaull, 0x123456789abcdull, 0x4000000000000ull};
	V v = V::list();
	int e = r.choose((finite ? 2047 : 2048) + 61);
	int ne = finite ? 2047 : 2048;
	if (e < ne) {
		int m = r.choose(3), neg = r.choose(2);
		for (int i = 0; i < 4; ++i) {
			uint64_t x = (uint64_t)neg << 63 | (uint64_t)e << 52 | M[m * 4 + i];
			double d; memcpy(&d, &x, 8);
			v.l.push_back(V::flt(d));
		}
	} else {
		int d = r.choose(13);
		for (int i = 0; i < 8; ++i) {
			double x = strtod(mc::fmt("%de%d", d * 8 + i, e - ne - 30).c_str(), 0);
			v.l.push_back(V::flt(x)); v.l.push_back(V::flt(-x));
		}
	}
	return v;
}

inline V surround(int form, const V &x) {
	switch (form) {
	case 0: return V::list({x});
	case 1: return V::map({{"k", x}});
	case 2: return V::list({V::integer(1), x, V::list({x}), V::null()});
	default: return V::map({{"a", x}, {"b", V::map({{"c", x}})}});
	}
}

inline std::string word(mc::Run &r, const std::vector<std::string> &alphabet, int maxlen) {
	std::string s;
	int n = r.choose(maxlen + 1);
	for (int i = 0; i < n; ++i) s += alphabet[r.choose((int)alphabet.size())];
	return s;
}
} // namespace gen
