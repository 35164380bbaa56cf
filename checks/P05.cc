// P05: blobs and base64.
#include "values.hpp"
#include "Base64.h"
using namespace libvariant;
using ref::V;

static int sign(int x) { return (x > 0) - (x < 0); }

// A blob whose buffers each lie in their own heap block of exactly their size.
struct Pieces {
	std::vector<std::vector<char> *> mem;
	std::vector<iovec> iov;
	Pieces(const std::string &s, const std::vector<int> &cut) {
		size_t p = 0;
		for (size_t i = 0; i < cut.size(); ++i) add(s.substr(p, cut[i])), p += cut[i];
	}
	void add(const std::string &s) { char *p = (char *)malloc(s.size() ? s.size() : 1); memcpy(p, s.data(), s.size()); iov.push_back({p, s.size()}); }
	BlobPtr blob() { BlobPtr b = Blob::CreateFree(iov.data(), (unsigned)iov.size()); iov.clear(); return b; }
};

// All divisions into up to `maxbuf` buffers, some of which may be empty.
static std::vector<int> division(mc::Run &r, int len, int maxbuf) {
	int nb = len ? 1 + r.choose(maxbuf) : r.choose(maxbuf + 1);
	std::vector<int> cut; int left = len;
	for (int i = 0; i + 1 < nb; ++i) { int k = r.choose(left + 1); cut.push_back(k); left -= k; }
	if (nb) cut.push_back(left);
	return cut;
}
static std::string show(const std::string &s, const std::vector<int> &cut) {
	std::string o = mc::q(s) + " in buffers of";
	for (int c : cut) o += mc::fmt(" %d", c);
	return o;
}

static std::string ref_decode(const std::string &t) {
	static const std::string A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	std::string o; unsigned acc = 0; int bits = 0;
	for (char c : t) {
		size_t v = A.find(c);
		if (c == 0 || v == std::string::npos) continue;
		acc = (acc << 6 | (unsigned)v) & 0xffffff; bits += 6;
		if (bits >= 8) { bits -= 8; o += (char)(acc >> bits); }
	}
	return o;
}

static void encode(mc::Run &r, const std::string &s, const std::vector<int> &cut, unsigned cpl) {
	Pieces p(s, cut);
	BlobPtr b = p.blob();
	unsigned room = Base64EncodeSize(s.size(), cpl);
	char *out = (char *)malloc(room);
	unsigned n = Base64Encode(out, b->GetIOVec(), b->GetNumBuffers(), cpl);
	r.check(n < room, "size", "%u characters written, size function said %u", n, room);
	std::string text(out, n);
	bool term = out[n] == 0;
	free(out);
	r.check(term, "terminator", "output is not null terminated");
	std::string flat, want = ref::b64(s); size_t line = 0, longest = 0;
	for (char c : text) { if (c == '\n') { line = 0; continue; } flat += c; longest = std::max(longest, ++line); }
	r.check(flat == want, "encode", "encoded as %s, expected %s", mc::q(flat).c_str(), want.c_str());
	r.check(cpl == 0 ? text.find('\n') == std::string::npos : cpl < 4 || longest <= cpl, "line-length", "line of %zu characters, limit %u", longest, cpl);
	char *in = (char *)malloc(text.size() + 1);      // exactly as large as the text
	in = (char *)realloc(in, text.size() ? text.size() : 1);
	memcpy(in, text.data(), text.size());
	unsigned droom = Base64DecodeSize(text.size());
	char *dec = (char *)malloc(droom);
	unsigned m = Base64Decode(dec, in, text.size());
	std::string back(dec, m);
	free(in); free(dec);
	r.check(back == s, "decode", "decoded to %s", mc::q(back).c_str());
	if (cut.size() == 1) {
		std::vector<char> o2(room);
		unsigned k = Base64Encode(o2.data(), s.data(), s.size(), cpl);
		r.check(std::string(o2.data(), k) == text, "encode", "the pointer form differs from the buffer form");
	}
	r.step(2); r.state(text); r.outcome(back);
}

// ---- ownership histories ------------------------------------------------------------------
struct FreeLog { std::map<void *, int> freed; std::map<void *, void *> ctx; };
static FreeLog *flog;
static void custom_free(void *p, void *ctx) { flog->freed[p]++; flog->ctx[p] = ctx; }

struct Obj { std::string content; int mode; std::vector<void *> bufs; void *ctx; };

static void ownership(mc::Run &r) {
	FreeLog log; flog = &log;
	std::vector<Obj> obj;
	std::vector<std::vector<char>> arena;      // outlives the blobs
	arena.reserve(64);
	static int tag[64];
	{
		BlobPtr b[2]; Variant v[2];
		int at[4] = {-1, -1, -1, -1};          // which object each holder has
		auto get = [&](int s) -> BlobPtr { return s < 2 ? b[s] : v[s - 2].AsBlob(); };
		auto put = [&](int s, BlobPtr p, int o) { if (s < 2) b[s] = p; else v[s - 2] = Variant(p); at[s] = o; };
		auto audit = [&] {
			for (size_t o = 0; o < obj.size(); ++o) {
				bool held = false;
				for (int s = 0; s < 4; ++s) if (at[s] == (int)o) held = true;
				if (obj[o].mode < 2) for (void *p : obj[o].bufs) {
					int n = log.freed.count(p) ? log.freed[p] : 0;
					r.check(n == (held ? 0 : 1), "release", "buffer of object %zu released %d times while %s", o, n, held ? "held" : "not held any more");
					if (n) r.check(log.ctx[p] == obj[o].ctx, "release-context", "release function called with another context");
				}
			}
			for (int s = 0; s < 4; ++s) {
				if (at[s] < 0) continue;
				BlobPtr p = get(s);
				std::string c = ref::bytes(p);
				r.check(c == obj[at[s]].content, "content", "holder %d reads %s, expected %s", s, mc::q(c).c_str(), mc::q(obj[at[s]].content).c_str());
				r.check(p->GetTotalLength() == c.size(), "length", "total length %u", p->GetTotalLength());
				for (int t = 0; t < s; ++t) if (at[t] >= 0) {
					r.check((get(t).get() == p.get()) == (at[t] == at[s]), "sharing", "holders %d and %d", s, t);
					if (at[t] != at[s] && c.size() && get(t)->GetTotalLength())
						r.check(get(t)->GetPtr(0) != p->GetPtr(0), "sharing", "different blobs share memory");
				}
			}
			uint64_t h = 7;
			for (int s = 0; s < 4; ++s) { h = h * 31 + (at[s] < 0 ? 99 : obj[at[s]].mode); for (int t = 0; t < s; ++t) h = h * 3 + (at[s] >= 0 && at[s] == at[t]); }
			r.state(h);
		};
		int depth = r.thorough ? 6 : 5;
		for (int d = 0; d < depth; ++d) {
			struct Op { int kind, a, b; };
			std::vector<Op> ops;
			for (int m = 0; m < 6; ++m) ops.push_back({0, d % 2, m});
			for (int a = 0; a < 4; ++a) if (at[a] >= 0) {
				for (int t = 0; t < 4; ++t) if (t != a) { ops.push_back({1, t, a}); ops.push_back({2, t, a}); }
				ops.push_back({3, a, 0}); ops.push_back({4, a, 0});
			}
			Op op = ops[r.choose((int)ops.size())];
			if (op.kind == 0) {
				Obj o; o.mode = op.b; o.ctx = &tag[obj.size()];
				std::string x = mc::fmt("obj%zu", obj.size());
				o.content = op.b == 1 || op.b == 5 ? x + x : x;
				auto mem = [&](const std::string &s) { arena.push_back(std::vector<char>(s.begin(), s.end())); return (void *)arena.back().data(); };
				BlobPtr p;
				int id = (int)obj.size();
				if (op.b == 0) { void *m = mem(x); o.bufs = {m}; p = Blob::Create(m, x.size(), custom_free, o.ctx); }
				else if (op.b == 1) { void *m = mem(x), *n = mem(x); o.bufs = {m, n}; iovec iv[2] = {{m, x.size()}, {n, x.size()}}; p = Blob::Create(iv, 2, custom_free, o.ctx); }
				else if (op.b == 2) { std::string t = x; p = Blob::CreateCopy(t.data(), t.size()); t[0] = '!'; }
				else if (op.b == 3) { void *m = malloc(x.size()); memcpy(m, x.data(), x.size()); p = Blob::CreateFree(m, x.size()); }
				else if (op.b == 4) { void *m = mem(x); p = Blob::CreateReferenced(m, x.size()); r.check(p->GetPtr(0) == m, "reference", "referenced buffer was copied"); }
				else { std::string t = x, u = x; iovec iv[2] = {{&t[0], t.size()}, {&u[0], u.size()}}; p = Blob::CreateCopy(iv, 2); t[0] = '!'; }
				obj.push_back(o);
				put(op.a, p, id);
				r.note("holder %d = create(mode %d)", op.a, op.b);
			} else if (op.kind == 1) {
				if (op.a >= 2 && op.b >= 2) { v[op.a - 2] = v[op.b - 2]; at[op.a] = at[op.b]; }
				else put(op.a, get(op.b), at[op.b]);
				r.note("holder %d = holder %d", op.a, op.b);
			} else if (op.kind == 2) {
				Obj o; o.mode = 2; o.content = obj[at[op.b]].content;
				int id = (int)obj.size();
				obj.push_back(o);
				if (op.b >= 2 && op.a >= 2) { v[op.a - 2] = v[op.b - 2].Copy(); at[op.a] = id; }
				else put(op.a, get(op.b)->Copy(), id);
				r.note("holder %d = copy of holder %d", op.a, op.b);
			} else if (op.kind == 3) {
				if (op.a < 2) b[op.a].reset(); else v[op.a - 2] = Variant();
				at[op.a] = -1;
				r.note("drop holder %d", op.a);
			} else {
				((char *)get(op.a)->GetPtr(0))[0] = (char)('A' + d);
				obj[at[op.a]].content[0] = (char)('A' + d);
				r.note("write through holder %d", op.a);
			}
			audit();
		}
		for (int s = 0; s < 2; ++s) { b[s].reset(); v[s] = Variant(); at[s] = at[s + 2] = -1; }
		audit();
	}
}

int main(int argc, char **argv) {
	mc::Check c;
	c.prop = "P05"; c.level = "model_checking";
	c.rule = "blobs built from enumerated contents and buffer divisions are compared, copied and encoded by the real code and judged against plain byte strings; ownership histories are judged against a model of which holder has which object";
	c.spaces.push_back({"compare", "all pairs of contents of up to 3 bytes over {0, 'a', 255} in all divisions into up to 3 (thorough 4) buffers including empty ones", [](mc::Run &r) {
		static const std::vector<std::string> A = {std::string(1, '\0'), "a", "\xff"};
		std::string s[2]; std::vector<int> cut[2]; BlobPtr b[2];
		int nb = r.thorough ? 4 : 3;
		for (int i = 0; i < 2; ++i) { s[i] = gen::word(r, A, 3); cut[i] = division(r, (int)s[i].size(), nb); }
		for (int i = 0; i < 2; ++i) b[i] = Pieces(s[i], cut[i]).blob();
		r.note("%s against %s", show(s[0], cut[0]).c_str(), show(s[1], cut[1]).c_str());
		int want = sign(s[0].compare(s[1]));
		r.check(sign(b[0]->Compare(b[1])) == want, "compare", "%s against %s: %d, expected %d", show(s[0], cut[0]).c_str(), show(s[1], cut[1]).c_str(), b[0]->Compare(b[1]), want);
		Variant x(b[0]), y(b[1]);
		r.check((x == y) == (want == 0) && (x != y) == (want != 0) && (x < y) == (want < 0) && (x > y) == (want > 0), "compare-variant", "comparison of values holding the blobs");
		r.check(b[0]->GetTotalLength() == s[0].size(), "length", "total length");
		r.check(ref::bytes(b[0]->Copy()) == s[0], "copy", "copy differs");
		r.step(4); r.state(show(s[0], cut[0])); r.outcome_hash(want + 5);
	}, 2, true});
	c.spaces.push_back({"compare-long", "pairs of 1..20 byte contents in two buffers each, at every pair of cut positions, equal, differing at each position, or one a prefix of the other", [](mc::Run &r) {
		int n = 1 + r.choose(r.thorough ? 20 : 12), d = r.choose(n + 3), c0 = r.choose(n + 1), c1 = r.choose(n + 1);
		std::string s, t;
		for (int i = 0; i < n; ++i) s += (char)(i * 37 + 1);
		t = s;
		if (d < n) t[d] ^= 0x80; else if (d == n + 1) t += '\0'; else if (d == n + 2) t.pop_back();
		if (c1 > (int)t.size()) c1 = (int)t.size();
		std::vector<int> k0 = {c0, n - c0}, k1 = {c1, (int)t.size() - c1};
		BlobPtr a = Pieces(s, k0).blob(), b = Pieces(t, k1).blob();
		r.note("%s against %s", show(s, k0).c_str(), show(t, k1).c_str());
		int want = sign(s.compare(t));
		r.check(sign(a->Compare(b)) == want && sign(b->Compare(a)) == -want, "compare", "%s against %s: %d", show(s, k0).c_str(), show(t, k1).c_str(), a->Compare(b));
		r.step(2); r.state(show(s, k0) + show(t, k1));
	}, 2, false});
	c.spaces.push_back({"encode-bytes", "every content of 0, 1 and 2 bytes", [](mc::Run &r) {
		int x = r.choose(257); std::string s;
		if (x) { s += (char)(x - 1); int y = r.choose(257); if (y) s += (char)(y - 1); }
		r.note("%s", mc::q(s).c_str());
		encode(r, s, {(int)s.size()}, 0);
	}, 1, false});
	c.spaces.push_back({"encode-lines", "lengths 0..230 (thorough 0..700) x line lengths 0,1,3,4,5,7,8,12,72,76 x three contents", [](mc::Run &r) {
		static const int C[] = {0, 1, 3, 4, 5, 7, 8, 12, 72, 76};
		int n = r.choose(r.thorough ? 701 : 231), cpl = C[r.choose(10)], k = r.choose(3);
		std::string s; for (int i = 0; i < n; ++i) s += (char)(k == 0 ? 0xff : k == 1 ? i * 7 : i * 113 + 200);
		r.note("length %d, line length %d", n, cpl);
		encode(r, s, {n}, cpl);
	}, 1, false});
	c.spaces.push_back({"encode-buffers", "contents of up to 9 (thorough 12) bytes in all divisions into up to 4 buffers including empty ones", [](mc::Run &r) {
		int n = r.choose(r.thorough ? 13 : 10);
		std::string s; for (int i = 0; i < n; ++i) s += (char)(i * 91 + 5);
		std::vector<int> cut = division(r, n, 4);
		r.note("%s", show(s, cut).c_str());
		encode(r, s, cut, 0);
	}, 2, true});
	c.spaces.push_back({"decode", "all texts of up to 5 (thorough 6) symbols over letters, signs, padding, line break and bytes outside the alphabet", [](mc::Run &r) {
		static const std::vector<std::string> A = {"A", "/", "z", "+", "=", "\n", "\x80", "!", "9"};
		std::string t = gen::word(r, A, r.thorough ? 6 : 5);
		r.note("%s", mc::q(t).c_str());
		char *in = (char *)malloc(t.size() ? t.size() : 1); memcpy(in, t.data(), t.size());
		unsigned room = Base64DecodeSize(t.size());
		char *o = (char *)malloc(room);
		unsigned n = Base64Decode(o, in, t.size());
		std::string got(o, n); free(o); free(in);
		std::string want = ref_decode(t);
		r.check(got == want, "decode", "%s decoded to %s, expected %s", mc::q(t).c_str(), mc::q(got).c_str(), mc::q(want).c_str());
		r.step(1); r.state(t); r.outcome(got);
	}, 2, false});
	c.spaces.push_back({"decode-bytes", "every byte value before, inside and after a group, and every pair of byte values", [](mc::Run &r) {
		int pos = r.choose(6), x = r.choose(256);
		std::string t = "QUJD";
		if (pos < 5) t.insert(pos, 1, (char)x); else { t = std::string(1, (char)x); t += (char)r.choose(256); t += "QQ"; }
		r.note("%s", mc::q(t).c_str());
		std::vector<char> o(Base64DecodeSize(t.size()));
		std::string got(o.data(), Base64Decode(o.data(), t.data(), t.size())), want = ref_decode(t);
		r.check(got == want, "decode", "%s decoded to %s, expected %s", mc::q(t).c_str(), mc::q(got).c_str(), mc::q(want).c_str());
		r.step(1); r.state(t); r.outcome(got);
	}, 2, false});
	c.spaces.push_back({"sizes", "size functions for lengths 2^k + d up to the largest representable result, 10 line lengths", [](mc::Run &r) {
		static const unsigned C[] = {0, 1, 3, 4, 5, 7, 8, 12, 72, 76};
		int k = r.choose(32), d = r.choose(9) - 4; unsigned cpl = C[r.choose(10)];
		uint64_t len = ((uint64_t)1 << k) + d;
		if ((int64_t)len < 0 || len > UINT32_MAX) return;
		uint64_t chars = (len + 2) / 3 * 4, lines = cpl >= 4 ? chars / (cpl / 4 * 4) + 1 : cpl ? 1 : 0, need = chars + lines + 1;
		r.note("length %llu line %u", (unsigned long long)len, cpl);
		if (chars + (cpl ? 2 * (chars / cpl + 1) : 0) + 64 <= UINT32_MAX)
			r.check(Base64EncodeSize((unsigned)len, cpl) >= need, "encode-size", "size for %llu bytes is %u, %llu needed", (unsigned long long)len, Base64EncodeSize((unsigned)len, cpl), (unsigned long long)need);
		r.check(Base64DecodeSize((unsigned)len) >= len * 6 / 8, "decode-size", "size for %llu characters is %u, %llu needed", (unsigned long long)len, Base64DecodeSize((unsigned)len), (unsigned long long)(len * 6 / 8));
		r.step(2); r.state(len * 100 + cpl);
	}, 1, false});
	c.spaces.push_back({"default", "a default blob value by every way of making one, measured, copied, compared and written in every format", [](mc::Run &r) {
		int how = r.choose(3), what = r.choose(7);
		Variant b; Variant l;
		if (how == 0) b = Variant(Variant::BlobType); else if (how == 1) b = Variant::BlobType; else { l.Append(Variant::BlobType); b = l[0u]; }
		Variant e(Blob::CreateCopy("", 0)), in; in.Append(b);
		r.note("default blob %d, use %d", how, what);
		SerializeType t = what == 4 ? SERIALIZE_JSON : what == 5 ? SERIALIZE_YAML : SERIALIZE_XMLPLIST;
		switch (what) {
		case 0: r.check(b.Size() == 0, "default", "size is %u", b.Size()); break;
		case 1: r.check(b == e && e == b, "default", "is not equal to an empty blob"); break;
		case 2: r.check(b.Copy() == b, "default", "is not equal to its copy"); break;
		case 3: r.check(b.AsBlob() && b.AsBlob()->GetTotalLength() == 0, "default", "has no content object"); break;
		default: { Variant back = Deserialize(Serialize(in, t), t); r.check(back == in, "default", "does not survive format %d", (int)t); }
		}
		r.step(1); r.state(how * 10 + what); r.outcome("ok");
	}, 1, true});
	c.spaces.push_back({"ownership", "all histories of 5 (thorough 6) creations (6 modes), shares, deep copies, drops and writes over two blob holders and two values", ownership, 2, true});
	return mc::run(argc, argv, c);
}
