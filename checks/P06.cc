// P06: header, null byte, payload.
#include "values.hpp"
#include "guess.hpp"
#include "vpath.hpp"
#include <Variant/Payload.h>
#include <Variant/ParserInput.h>
#include <Variant/EmitterOutput.h>
#include <fstream>
using namespace libvariant;
using ref::V; using ref::Steps;

static const SerializeType TYPES[] = {SERIALIZE_JSON, SERIALIZE_YAML, SERIALIZE_XMLPLIST, SERIALIZE_BUNDLEHDR};
static const char *NAMES[] = {"JSON", "YAML", "XML", "bundle"};

// Input that hands out at most `step` bytes per read.
struct Dribble : ParserStreamInput {
	const std::string &s; size_t p = 0; unsigned step;
	Dribble(const std::string &t, unsigned st, unsigned buf) : ParserStreamInput(buf), s(t), step(st) {}
	unsigned Read(void *ptr, unsigned len) override {
		unsigned n = (unsigned)std::min<size_t>(std::min(len, step), s.size() - p);
		memcpy(ptr, s.data() + p, n); p += n; return n;
	}
};

static V untyped(const V &v) {           // bundle headers are untyped
	if (v.k == V::Null) return V::str("");
	if (v.k == V::Bool) return V::integer(v.b);
	if (v.k == V::Str) return ref::guess(v.s);
	V o = v;
	for (auto &x : o.l) x = untyped(x);
	for (auto &x : o.m) x.second = untyped(x.second);
	return o;
}

struct Setup {
	int f; V v; Steps dpath, lpath; Variant params = Variant::MapType;
	bool ignore = false; bool override_len = false; unsigned len = 0;
};

// Reads the next message from an input made of `data` in one of several ways.
enum { WAYS = 5 };
struct Source {
	char *block = 0; size_t size; std::string data;
	shared_ptr<ParserInput> in; std::istringstream ss;
	Source(const std::string &d, int way) : size(d.size()), data(d) {
		if (way == 0) { block = (char *)malloc(size ? size : 1); memcpy(block, d.data(), size); in = CreateParserInput(block, size); }
		else if (way == 1) { ss.str(d); in = CreateParserInputFile(ss.rdbuf()); }
		else in.reset(new Dribble(data, way == 2 ? 1 : way == 3 ? 7 : 33, way == 4 ? 40 : 16));
	}
	~Source() { in.reset(); free(block); }
};

static std::string way_name(int w) { static const char *N[] = {"memory", "stream", "reads of 1", "reads of 7", "reads of 33"}; return N[w]; }

// Expected header, as read back.
static V header(mc::Run &r, const Setup &s, std::string &payload, uintmax_t &recorded) {
	V h = s.v;
	V *b = ref::find(h, s.dpath);
	payload.clear();
	bool exists = b != 0;
	if (exists) payload = b->s;
	recorded = exists ? payload.size() : 0;
	if (!exists && s.ignore) { V *l = ref::find(h, s.lpath); if (l && (l->k == V::Int || l->k == V::Uint)) recorded = l->k == V::Int ? l->i : l->u; }
	if (s.override_len) recorded = s.len;
	if (exists) {
		V *parent = ref::find(h, s.dpath, s.dpath.size() - 1);
		if (s.dpath.back().idx) *b = V::null(); else parent->m.erase(s.dpath.back().k);
	}
	if (!ref::set(h, s.lpath, V::uinteger(recorded))) r.fail("internal", "length path not settable");
	if (s.ignore) payload.clear();
	if (s.f == 3) h = untyped(h);
	return h;
}

static std::string write(mc::Run &r, const Setup &s) {
	Variant v = ref::to(s.v);
	std::string out = SerializeWithPayload(v, TYPES[s.f], s.params);
	r.check(ref::same(ref::from(v), s.v), "input-changed", "serializing changed the value to %s", ref::show(ref::from(v)).c_str());
	std::string payload; uintmax_t rec; V h = header(r, s, payload, rec);
	size_t z = out.find('\0');
	r.check(z != std::string::npos, "no-null", "no null byte in the output");
	r.check(out.substr(z + 1) == payload, "payload-bytes", "%zu bytes follow the null byte, expected the %zu payload bytes", out.size() - z - 1, payload.size());
	V got = ref::from(Deserialize(out.substr(0, z), TYPES[s.f]));
	r.check(ref::same(got, h), "header", "header says %s, expected %s", ref::show(got).c_str(), ref::show(h).c_str());
	r.step(2);
	return out;
}

// What reading must give.
static V expect(mc::Run &r, const Setup &s) {
	std::string payload; uintmax_t rec; V h = header(r, s, payload, rec);
	if (rec) ref::set(h, s.dpath, V::blob(payload.substr(0, rec)));
	return h;
}

static void round(mc::Run &r, const Setup &s, int way) {
	r.note("%s %s data %s length %s, read from %s", NAMES[s.f], ref::show(s.v).substr(0, 300).c_str(), ref::show(s.dpath).c_str(), ref::show(s.lpath).c_str(), way_name(way).c_str());
	std::string out = write(r, s);
	V want = expect(r, s);
	Source src(out, way);
	Variant got = DeserializeWithPayload(src.in, TYPES[s.f], s.params);
	r.check(ref::same(ref::from(got), want), "round-trip", "read back as %s, expected %s", ref::show(ref::from(got)).substr(0, 400).c_str(), ref::show(want).substr(0, 400).c_str());
	r.step(1); r.state(mc::hash(out)); r.outcome(ref::show(want));
}

static Setup basic(int f, const V &v, Steps d = {}, Steps l = {}) {
	Setup s; s.f = f; s.v = v;
	s.dpath = d; s.lpath = l;
	if (d.empty()) s.dpath = f == 3 ? Steps{ref::key("payload.data")} : Steps{ref::key("payload"), ref::key("data")};
	else s.params.Set("data_path", ref::text(d));
	if (l.empty()) s.lpath = f == 3 ? Steps{ref::key("payload.length")} : Steps{ref::key("payload"), ref::key("length")};
	else s.params.Set("length_path", ref::text(l));
	return s;
}
static std::string bytes(int n, int seed) { std::string s; for (int i = 0; i < n; ++i) s += (char)(i * 7 + seed); return s; }
static V with(int f, const V &base, const std::string &payload) {
	V v = base;
	if (f == 3) v.m["payload.data"] = V::blob(payload); else ref::set(v, {ref::key("payload"), ref::key("data")}, V::blob(payload));
	return v;
}

int main(int argc, char **argv) {
	mc::Check c;
	c.prop = "P06"; c.level = "model_checking";
	c.rule = "each value is written by the real code; the bytes are split at the first null byte and compared with the expected header and payload, then read back by the real code through several inputs and compared with the model";
	c.assumptions = {"an empty payload is recorded with length 0 and reads back as absent", "bundle headers are untyped (see P04)"};
	c.spaces.push_back({"sizes", "4 formats x header paddings 0..40 x payload sizes 0..40 (thorough 0..140) and 255..257, 4095..4097, 20000 x 5 inputs", [](mc::Run &r) {
		int f = r.choose(4), pad = r.choose(41), n = r.choose((r.thorough ? 141 : 41) + 7), way = r.choose(WAYS);
		static const int X[] = {255, 256, 257, 4095, 4096, 4097, 20000};
		int base = r.thorough ? 141 : 41;
		int len = n < base ? n : X[n - base];
		if (!r.thorough && n < base && (n + pad) % 3 && n > 3) return;
		round(r, basic(f, with(f, V::map({{"h", V::str(std::string(pad + 1, 'h'))}, {"z", V::integer(-3)}}), bytes(len, pad))), way);
	}, 3, false});
	c.spaces.push_back({"bytes", "every byte value as the only byte, first byte and last byte of a payload", [](mc::Run &r) {
		int f = r.choose(4), b = r.choose(256), pos = r.choose(3), way = r.choose(WAYS);
		std::string p = pos == 0 ? std::string(1, (char)b) : pos == 1 ? std::string(1, (char)b) + "xyz" : std::string("xyz") + (char)b;
		round(r, basic(f, with(f, V::map({{"h", V::integer(1)}}), p)), way);
	}, 2, false});
	c.spaces.push_back({"paths", "data and length paths: defaults, top level, nested, into lists, sharing a parent or not, with existing, missing or null parents, over 7 documents", [](mc::Run &r) {
		int f = r.choose(3);
		using ref::key; using ref::at;
		static const std::vector<Steps> D = {{key("payload"), key("data")}, {key("d")}, {key("a"), key("b"), key("c")}, {key("l"), at(1)}, {key("l"), at(0), key("x")}, {key("od/d\\y")}};
		static const std::vector<Steps> L = {{key("payload"), key("length")}, {key("n")}, {key("a"), key("b"), key("n")}, {key("l"), at(0)}, {key("l"), at(2)}, {key("l"), at(4)}, {key("l"), at(3), key("n")}, {key("a"), key("n")}, {key("q"), at(1), key("n")}, {key("we[i]rd")}};
		static const std::vector<V> B = {V::map(), V::map({{"l", V::list()}}), V::map({{"l", V::list({V::null(), V::null(), V::str("t")})}}), V::map({{"a", V::map({{"b", V::map({{"n", V::integer(99)}})}, {"n", V::str("old")}})}}),
			V::map({{"payload", V::map({{"length", V::integer(7)}, {"z", V::integer(1)}})}}), V::map({{"payload", V::null()}, {"q", V::null()}, {"zz", V::boolean(true)}}), V::map({{"n", V::integer(5)}, {"m", V::list({V::map(), V::list()})}})};
		Steps d = r.pick(D), l = r.pick(L); V v = r.pick(B);
		int blob = r.choose(3);
		if (blob && !ref::set(v, d, V::blob(blob == 1 ? "" : "pay\0load"))) return;
		{ V t = v; V *b = ref::find(t, d); if (b && b->k != V::Blob) return; }
		Setup s = basic(f, v, d, l);
		V t = v; if (!ref::set(t, l, V::integer(1))) return;
		{ V *x = ref::find(t, d); V *y = ref::find(v, d); if (bool(x) != bool(y)) return; }   // length stored under the data
		// a list on the data path addressed by a key (or the reverse) is an error, not a payload
		round(r, s, r.choose(2));
	}, 3, true});
	c.spaces.push_back({"options", "ignore_payload x payload_length override x payload present x stale length present x 4 formats", [](mc::Run &r) {
		int f = r.choose(4), ign = r.choose(2), ov = r.choose(4), pres = r.choose(2), stale = r.choose(2);
		V v = V::map({{"h", V::integer(1)}});
		if (pres) v = with(f, v, "0123456789");
		if (stale) { if (f == 3) v.m["payload.length"] = V::integer(4); else ref::set(v, {ref::key("payload"), ref::key("length")}, V::integer(4)); }
		Setup s = basic(f, v);
		s.ignore = ign; s.override_len = ov > 0; s.len = ov == 1 ? 0 : ov == 2 ? 3 : 20;
		if (ign) s.params.Set("ignore_payload", true);
		if (ov) s.params.Set("payload_length", s.len);
		r.note("%s ignore %d override %d present %d stale %d", NAMES[f], ign, ov ? (int)s.len : -1, pres, stale);
		std::string out = write(r, s), payload; uintmax_t rec; header(r, s, payload, rec);
		bool threw = false; V got;
		char *m = (char *)malloc(out.size()); memcpy(m, out.data(), out.size());
		try { got = ref::from(DeserializeWithPayload(m, out.size(), TYPES[f], s.params)); } catch (std::exception &) { threw = true; }
		free(m);
		r.check(threw == (rec > payload.size()), "truncated", "recorded length %ju, payload %zu bytes: %s", rec, payload.size(), threw ? "refused" : "accepted");
		if (!threw) { V want = expect(r, s); r.check(ref::same(got, want), "round-trip", "read back as %s, expected %s", ref::show(got).c_str(), ref::show(want).c_str()); }
		r.step(1); r.state(mc::hash(out));
	}, 2, true});
	c.spaces.push_back({"truncated", "every prefix of a message, in an exact heap block or as stream: refused unless the payload is complete, never a payload of the wrong size", [](mc::Run &r) {
		int f = r.choose(4), len = r.choose(3) * 20 + 1;
		Setup s = basic(f, with(f, V::map({{"h", V::str("v")}}), bytes(len, 5)));
		std::string out = write(r, s);
		int cut = r.choose((int)out.size() + 1), way = r.choose(3);
		r.note("%s cut at %d of %zu, %s", NAMES[f], cut, out.size(), way_name(way).c_str());
		bool threw = false; V got;
		{ Source src(out.substr(0, cut), way);
		try { got = ref::from(DeserializeWithPayload(src.in, TYPES[f], s.params)); } catch (std::exception &) { threw = true; } }
		if (cut == (int)out.size()) { r.check(!threw && ref::same(got, expect(r, s)), "round-trip", "complete message not read"); }
		else {
			size_t z = out.find('\0');
			if (cut > (int)z) r.check(threw, "truncated", "truncated payload accepted as %s", ref::show(got).c_str());
			if (!threw) { V *b = ref::find(got, s.dpath); r.check(!b || b->k != V::Blob, "truncated", "payload out of a cut header: %s", ref::show(got).c_str()); }
		}
		r.step(1); r.state(f * 10000 + len * 1000 + cut); r.outcome(threw ? "refused" : ref::show(got));
	}, 2, true});
	c.spaces.push_back({"sequence", "one to three messages of three kinds back to back in one input, read one after the other, 5 inputs", [](mc::Run &r) {
		int f = r.choose(4), n = 1 + r.choose(3), way = r.choose(WAYS);
		std::string all; std::vector<V> want;
		for (int i = 0; i < n; ++i) {
			int kind = r.choose(3);
			V v = V::map({{"id", V::integer(i)}, {"t", V::str(std::string(i * 11 + 1, 'x'))}});
			if (kind) v = with(f, v, kind == 1 ? bytes(50, i) : std::string(3, '\0'));
			Setup s = basic(f, v);
			all += write(r, s); want.push_back(expect(r, s));
		}
		r.note("%s %d messages, %s", NAMES[f], n, way_name(way).c_str());
		Source src(all, way);
		for (int i = 0; i < n; ++i) {
			V got = ref::from(DeserializeWithPayload(src.in, TYPES[f], Variant::MapType));
			r.check(ref::same(got, want[i]), "sequence", "message %d read as %s, expected %s", i, ref::show(got).c_str(), ref::show(want[i]).c_str());
			r.step(1);
		}
		r.state(mc::hash(all, way));
	}, 3, false});
	c.spaces.push_back({"buffers", "payload blobs of 0..8 bytes in all divisions into up to 3 buffers; safe reading copies, unsafe reading refers to the caller's memory", [](mc::Run &r) {
		int f = r.choose(2) ? 3 : 0, n = r.choose(9), nb = 1 + r.choose(3), safe = r.choose(2);
		std::string p = bytes(n, 1); std::vector<iovec> iv; int left = n, at = 0;
		for (int i = 0; i < nb; ++i) { int k = i + 1 == nb ? left : r.choose(left + 1); char *m = (char *)malloc(k ? k : 1); memcpy(m, p.data() + at, k); iv.push_back({m, (size_t)k}); at += k; left -= k; }
		Variant v = Variant::MapType; v.Set("h", 1);
		BlobPtr b = Blob::CreateFree(iv.data(), (unsigned)iv.size());
		if (f == 3) v.Set("payload.data", b); else v.SetPath("payload/data", b);
		std::string out = SerializeWithPayload(v, TYPES[f]);
		size_t z = out.find('\0');
		r.check(out.substr(z + 1) == p, "payload-bytes", "payload written as %s", mc::q(out.substr(z + 1)).c_str());
		char *m = (char *)malloc(out.size()); memcpy(m, out.data(), out.size());
		{
			Variant g = DeserializeWithPayload(m, out.size(), TYPES[f], Variant(), safe);
			if (n) {
				BlobPtr q = f == 3 ? g.Get("payload.data").AsBlob() : g.GetPath("payload/data").AsBlob();
				r.check(ref::bytes(q) == p, "round-trip", "payload read as %s", mc::q(ref::bytes(q)).c_str());
				const char *x = (const char *)q->GetPtr(0);
				bool inside = x >= m && x < m + out.size();
				r.check(inside == !safe, "sharing", "payload %s the caller's memory", inside ? "refers to" : "is a copy of");
			}
		}
		free(m);
		r.step(2); r.state(f * 100000 + n * 1000 + nb * 10 + safe);
	}, 2, true});
	c.spaces.push_back({"lengths", "recorded lengths that are negative, fractional, text, null, nested or larger than the data", [](mc::Run &r) {
		static const char *L[] = {"0", "1", "3", "4", "5", "-1", "4294967296", "4294967299", "18446744073709551615", "1e3", "\"3\"", "\"x\"", "null", "[]", "true", "3.0"};
		int k = r.choose(16); 
		std::string t = mc::fmt("{\"payload\":{\"length\":%s}}\n", L[k]); t += '\0'; t += "abcd";
		r.note("length %s", L[k]);
		char *m = (char *)malloc(t.size()); memcpy(m, t.data(), t.size());
		bool threw = false; V got;
		try { got = ref::from(DeserializeWithPayload(m, t.size(), SERIALIZE_JSON)); } catch (std::exception &) { threw = true; }
		free(m);
		if (!threw) { V *b = ref::find(got, {ref::key("payload"), ref::key("data")}); r.check(!b || (b->k == V::Blob && b->s == std::string("abcd").substr(0, b->s.size())), "payload-bytes", "read as %s", ref::show(got).c_str());
			if (k < 4 && k) r.check(b && b->s.size() == (k == 1 ? 1u : k == 2 ? 3u : 4u), "payload-bytes", "read as %s", ref::show(got).c_str()); }
		else r.check(k >= 4, "truncated", "available payload refused");
		if (k >= 4 && k <= 9) r.check(threw, "truncated", "length %s accepted as %s", L[k], ref::show(got).c_str());
		r.step(1); r.state(k); r.outcome(threw ? "refused" : ref::show(got));
	}, 1, true});
	c.spaces.push_back({"members", "headers with a member of each kind of value, beside, above and below the length, 4 formats x 3 payloads x every writing function (string, file, FILE, stream buffer, memory) x every reading function", [](mc::Run &r) {
		int f = r.choose(4), kind = r.choose(12), where = r.choose(4), len = r.choose(3), put = r.choose(5), take = r.choose(6);
		static const std::vector<V> K = {V::null(), V::boolean(true), V::boolean(false), V::integer(-7), V::uinteger(18446744073709551615ull), V::flt(2.5), V::flt(-1e300),
			V::str("two words"), V::str(""), V::list({V::boolean(false), V::uinteger(9), V::flt(.5), V::null()}), V::map({{"x", V::boolean(false)}, {"y", V::list()}, {"z", V::blob("in")}}), V::blob("other bytes")};
		V m = K[kind], v = V::map({{"h", V::integer(1)}});
		if (f == 3 && (kind == 9 || kind == 10 || where > 1)) throw mc::Skip();
		if (f == 3 && kind == 11) throw mc::Skip();
		if (len) v = with(f, v, bytes(len == 1 ? 3 : 5000, 2));
		if (where == 0) v.m["a"] = m; else if (where == 1) v.m["z"] = m;
		else if (!ref::set(v, {ref::key("payload"), ref::key(where == 2 ? "e" : "z")}, m)) r.fail("internal", "member not settable");
		Setup s = basic(f, v);
		r.note("%s %s, writing %d, reading %d", NAMES[f], ref::show(v).substr(0, 200).c_str(), put, take);
		std::string want = write(r, s), out;
		Variant x = ref::to(s.v);
		std::string path = mc::fmt("%s/p06-%d", getenv("MC_SCRATCH"), (int)getpid());
		auto slurp = [&] { std::ifstream i(path, std::ios::binary); std::stringstream t; t << i.rdbuf(); return t.str(); };
		if (put == 0) out = SerializeWithPayload(x, TYPES[f], s.params);
		else if (put == 1) { SerializeWithPayload(path, x, TYPES[f], s.params); out = slurp(); }
		else if (put == 2) { FILE *h = fopen(path.c_str(), "wb"); SerializeWithPayload(h, x, TYPES[f], s.params); fclose(h); out = slurp(); }
		else if (put == 3) { std::ostringstream o; SerializeWithPayload(o.rdbuf(), x, TYPES[f], s.params); out = o.str(); }
		else { std::string b(want.size() + 9, '#'); unsigned n = SerializeWithPayload(&b[0], b.size(), x, TYPES[f], s.params); out = b.substr(0, n); r.check(b.substr(n) == std::string(b.size() - n, '#'), "memory", "bytes written after the message"); }
		r.check(out == want, "writers", "writing function %d gives %zu bytes, expected the %zu bytes of the others", put, out.size(), want.size());
		{ std::ofstream o(path, std::ios::binary); o << out; }
		Variant got;
		if (take == 0) got = DeserializeWithPayload(out, TYPES[f], s.params);
		else if (take == 1) got = DeserializeWithPayload(out.data(), out.size(), TYPES[f], s.params);
		else if (take == 2) got = DeserializeWithPayloadFile(path.c_str(), TYPES[f], s.params);
		else if (take == 3) { FILE *h = fopen(path.c_str(), "rb"); try { got = DeserializeWithPayloadFile(h, TYPES[f], s.params); } catch (...) { fclose(h); throw; } fclose(h); }
		else if (take == 4) { std::ifstream i(path, std::ios::binary); got = DeserializeWithPayloadFile(i.rdbuf(), TYPES[f], s.params); }
		else { Source src(out, 2); got = DeserializeWithPayload(src.in, TYPES[f], s.params); }
		unlink(path.c_str());
		{ std::string gone; gone.swap(out); gone.assign(gone.size(), '!'); }      // what was read is kept
		V e = expect(r, s);
		r.check(ref::same(ref::from(got), e), "round-trip", "reading function %d gives %s, expected %s", take, ref::show(ref::from(got)).substr(0, 400).c_str(), ref::show(e).substr(0, 400).c_str());
		r.step(2); r.state(mc::hash(want)); r.outcome(ref::show(e));
	}, 3, true});
	return mc::run(argc, argv, c);
}
