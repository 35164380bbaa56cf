// P08: everything reaches the destination, or an error is reported.
#include "values.hpp"
#include <Variant/Payload.h>
#include <Variant/EmitterOutput.h>
using namespace libvariant;
using ref::V;

static const SerializeType TYPES[] = {SERIALIZE_JSON, SERIALIZE_YAML, SERIALIZE_XMLPLIST, SERIALIZE_BUNDLEHDR};
static const char *NAMES[] = {"JSON", "YAML", "XML", "bundle header", "JSON with payload", "bundle with payload"};
enum { FORMATS = 6 };

struct Docs {
	std::vector<Variant> docs[FORMATS];
	std::vector<Variant> par[FORMATS];
	std::vector<std::string> text[FORMATS];
};

static void emit(shared_ptr<EmitterOutput> out, int f, const Variant &v, const Variant &par, bool close, const std::function<void()> &done = [] {}) {
	if (f >= 4) { SerializeWithPayload(out, v, f == 4 ? SERIALIZE_JSON : SERIALIZE_BUNDLEHDR, par); return; }
	Emitter e = CreateEmitter(out, TYPES[f], par);
	e << v;
	if (close) e.Close();
	done();      // what the destructor does from here on is not reported to anyone
}

static Docs &docs() {
	static Docs d;
	if (!d.docs[0].empty()) return d;
	auto add = [&](int f, const V &v, Variant par = Variant()) {
		Variant x = ref::to(v);
		d.docs[f].push_back(x); d.par[f].push_back(par);
		d.text[f].push_back(f < 4 ? Serialize(x, TYPES[f], par) : SerializeWithPayload(x, f == 4 ? SERIALIZE_JSON : SERIALIZE_BUNDLEHDR, par));
	};
	Variant pretty = Variant::MapType; pretty.Set("pretty", true);
	Variant wide = Variant::MapType; wide.Set("pretty", true).Set("indent", 50);
	V small = V::map({{"a", V::list({V::integer(1), V::null()})}, {"b", V::str("x\ny")}});
	V longs = V::list({V::str(std::string(140, 'p')), V::map({{std::string(130, 'k'), V::str(std::string(600, 'q'))}}), V::list()});
	V big = V::list(); for (int i = 0; i < 90; ++i) big.l.push_back(V::str(mc::fmt("%08d", i)));
	V deep = V::integer(1); for (int i = 0; i < 6; ++i) deep = i % 2 ? V::list({deep}) : V::map({{"k", deep}});
	for (int f = 0; f < 3; ++f) {
		add(f, small); add(f, longs); add(f, big);
		if (f != 1) { add(f, small, pretty); add(f, deep, wide); } else add(f, deep);
		add(f, V::list());
	}
	add(3, V::map({{"a", V::integer(1)}, {"l", V::list({V::str("x"), V::str("y")})}}));
	add(3, V::map({{"long", V::str(std::string(300, 'z'))}, {"n", V::null()}}));
	add(4, V::map({{"h", V::str("v")}, {"payload", V::map({{"data", V::blob(std::string(70, '\x81'))}})}}));
	add(4, V::map({{"h", V::list()}}));
	add(5, V::map({{"h", V::str("v")}, {"payload.data", V::blob(std::string("\0\1\2payload", 10))}}));
	return d;
}

// A destination whose every answer is a decision of the explorer.
struct Env : EmitterOutput {
	mc::Run *r = 0;
	std::string got;
	int failures = 0, writes = 0;
	bool sticky = false, dead = false;
	bool last = false;       // the last call failed
	unsigned Write(const void *p, unsigned len) override {
		++writes; last = false;
		if (len == 0) return 0;
		if (dead) { ++failures; throw std::runtime_error("destination dead"); }
		switch (r->dev(6)) {
		case 0: break;
		case 1: len = 1; break;
		case 2: len = (len + 1) / 2; break;
		case 3: if (len > 1) --len; break;
		case 4: ++failures; if (sticky) dead = true; return 0;
		case 5: ++failures; if (sticky) dead = true; throw std::runtime_error("destination failed");
		}
		got.append((const char *)p, len);
		return len;
	}
	void Flush() override {
		last = true;
		if (dead) { ++failures; throw std::runtime_error("destination dead"); }
		if (r->dev(2)) { ++failures; if (sticky) dead = true; throw std::runtime_error("flush failed"); }
		last = false;
	}
	unsigned NumBytesWritten() const override { return got.size(); }
};

// A destination with room for `cap` bytes that takes at most `step` at a time.
struct Limited : EmitterOutput {
	std::string got; size_t cap = SIZE_MAX; unsigned step = UINT_MAX; int style = 0; int failures = 0;
	unsigned Write(const void *p, unsigned len) override {
		if (!len) return 0;
		if (style == 2 && len > cap - got.size()) { ++failures; throw std::length_error("full"); }
		unsigned n = (unsigned)std::min<size_t>(std::min(len, step), cap - got.size());
		if (n == 0) { ++failures; if (style == 1) return 0; throw std::runtime_error("full"); }
		got.append((const char *)p, n);
		return n;
	}
	unsigned NumBytesWritten() const override { return got.size(); }
};

static void judge(mc::Run &r, const std::string &text, const std::string &got, bool threw, bool must_throw, bool must_not) {
	if (!threw) {
		r.check(!must_throw, "unreported", "the destination failed but no error was raised; delivered %zu of %zu bytes", got.size(), text.size());
		r.check(got == text, "incomplete", "returned normally but delivered %s, expected %s", mc::q(got.substr(0, 400)).c_str(), mc::q(text.substr(0, 400)).c_str());
	} else {
		r.check(!must_not, "spurious-error", "an error was raised although the destination accepted everything");
		r.check(got == text.substr(0, got.size()), "not-a-prefix", "after the error the destination holds %s which is not a prefix of %s", mc::q(got.substr(0, 600)).c_str(), mc::q(text.substr(0, 600)).c_str());
	}
}

static void answers(mc::Run &r) {
	Docs &d = docs();
	int f = r.choose(FORMATS), k = r.choose((int)d.docs[f].size());
	bool close = r.choose(2) == 0, sticky = r.choose(2);
	if (f >= 4 && !close) return;
	shared_ptr<Env> env(new Env);
	env->r = &r; env->sticky = sticky;
	r.note("%s document %d close %d sticky %d", NAMES[f], k, close, sticky);
	r.budget = r.thorough ? 3 : 2;
	bool threw = false; std::string what;
	int fails = -1;
	try { emit(env, f, d.docs[f][k], d.par[f][k], close, [&] { if (close) fails = env->failures; }); }
	catch (std::exception &e) { threw = true; what = e.what(); }
	r.budget = 0;
	std::string got = env->got; if (fails < 0) fails = env->failures - (!threw && f >= 4 && env->last);
	const std::string &text = d.text[f][k];
	r.step(env->writes);
	env.reset();
	if (close) judge(r, text, got, threw, fails > 0, fails == 0);
	else if (fails == 0) judge(r, text, got, threw, false, true);
	else r.check(got == text.substr(0, got.size()), "not-a-prefix", "after a failure the destination holds %s, not a prefix", mc::q(got.substr(0, 600)).c_str());
	r.state(mc::hash(got, f * 100 + k * 4 + threw)); r.outcome(what);
}

static void capacity(mc::Run &r) {
	Docs &d = docs();
	int f = r.choose(FORMATS), k = r.choose((int)d.docs[f].size()), style = r.choose(3);
	const std::string &text = d.text[f][k];
	int cap = r.choose((int)text.size() + 2);
	shared_ptr<Limited> o(new Limited); o->cap = cap; o->style = style;
	r.note("%s document %d room for %d of %zu bytes style %d", NAMES[f], k, cap, text.size(), style);
	bool threw = false;
	try { emit(o, f, d.docs[f][k], d.par[f][k], true); } catch (std::exception &) { threw = true; }
	r.step(1);
	judge(r, text, o->got, threw, cap < (int)text.size(), cap >= (int)text.size());
	r.state(mc::hash(o->got, f * 100 + k)); r.outcome_hash(threw);
}

static void capacity_large(mc::Run &r) {
	static std::string text[3]; static Variant v;
	int f = r.choose(3);
	if (text[0].empty()) {
		V x = V::list(); for (int i = 0; i < 900; ++i) x.l.push_back(V::map({{mc::fmt("key%d", i), V::str(std::string(20 + i % 30, 'a' + i % 26))}}));
		v = ref::to(x);
		for (int i = 0; i < 3; ++i) text[i] = Serialize(v, TYPES[i]);
	}
	int steps = r.thorough ? 2000 : 300, style = r.choose(2), n = r.choose(steps + 1);
	size_t cap = text[f].size() * n / steps;
	shared_ptr<Limited> o(new Limited); o->cap = cap; o->style = style;
	r.note("%s large document room for %zu of %zu bytes", NAMES[f], cap, text[f].size());
	bool threw = false;
	try { emit(o, f, v, Variant(), true); } catch (std::exception &) { threw = true; }
	r.step(1);
	judge(r, text[f], o->got, threw, cap < text[f].size(), cap >= text[f].size());
	r.state(mc::hash(o->got));
}

static void dribble(mc::Run &r) {
	Docs &d = docs();
	int f = r.choose(FORMATS), k = r.choose((int)d.docs[f].size());
	const std::string &text = d.text[f][k];
	int n = 1 + r.choose((int)text.size() + 1);
	shared_ptr<Limited> o(new Limited); o->step = n;
	r.note("%s document %d at most %d bytes per write", NAMES[f], k, n);
	bool threw = false;
	try { emit(o, f, d.docs[f][k], d.par[f][k], true); } catch (std::exception &) { threw = true; }
	r.step(1);
	judge(r, text, o->got, threw, false, true);
	r.state(mc::hash(o->got, n));
}

static void memory(mc::Run &r) {
	Docs &d = docs();
	int f = r.choose(FORMATS), k = r.choose((int)d.docs[f].size());
	const std::string &text = d.text[f][k];
	int n = r.choose((int)text.size() + 4), how = r.choose(3);
	char *m = (char *)malloc(n ? n : 1);
	r.note("%s document %d memory of %d of %zu bytes", NAMES[f], k, n, text.size());
	bool threw = false; unsigned len = 0;
	try {
		if (how == 0) {
			if (f < 4) len = Serialize(m, n, d.docs[f][k], TYPES[f], d.par[f][k]);
			else len = SerializeWithPayload(m, n, d.docs[f][k], f == 4 ? SERIALIZE_JSON : SERIALIZE_BUNDLEHDR, d.par[f][k]);
		} else if (how == 1) emit(CreateEmitterOutput(m, n, &len), f, d.docs[f][k], d.par[f][k], true);
		else { emit(CreateEmitterOutput(m, n), f, d.docs[f][k], d.par[f][k], true); len = text.size(); }
	} catch (std::exception &) { threw = true; }
	std::string got(m, threw ? 0 : std::min<unsigned>(len, n));
	free(m);
	r.step(1);
	r.check(threw || len == text.size(), "size", "reported size %u, text has %zu bytes", len, text.size());
	judge(r, text, got, threw, n < (int)text.size(), n >= (int)text.size());
	r.state(mc::hash(got, n)); r.outcome_hash(threw);
}

// ---- stdio and iostream destinations -------------------------------------------------------
struct Cookie { std::string got; size_t cap; };
static ssize_t ck_write(void *c, const char *b, size_t n) {
	Cookie *k = (Cookie *)c; size_t room = k->cap - k->got.size();
	if (room == 0) { errno = ENOSPC; return 0; }
	n = std::min(n, room); k->got.append(b, n); return (ssize_t)n;
}
static void stdio_dest(mc::Run &r) {
	Docs &d = docs();
	int f = r.choose(FORMATS), k = r.choose((int)d.docs[f].size());
	const std::string &text = d.text[f][k];
	int buf = r.choose(3), cap = r.choose((int)text.size() + 2);
	Cookie c; c.cap = cap;
	cookie_io_functions_t io = {0, ck_write, 0, 0};
	FILE *fp = fopencookie(&c, "w", io);
	char small[64];
	if (buf == 0) setvbuf(fp, 0, _IONBF, 0); else if (buf == 1) setvbuf(fp, small, _IOFBF, sizeof small);
	r.note("%s document %d to a FILE with room for %d of %zu bytes, buffering %d", NAMES[f], k, cap, text.size(), buf);
	bool threw = false;
	try {
		if (f < 4) Serialize(fp, d.docs[f][k], TYPES[f], d.par[f][k]);
		else SerializeWithPayload(fp, d.docs[f][k], f == 4 ? SERIALIZE_JSON : SERIALIZE_BUNDLEHDR, d.par[f][k]);
	} catch (std::exception &) { threw = true; }
	std::string got = c.got;
	fclose(fp);
	r.step(1);
	judge(r, text, got, threw, cap < (int)text.size(), cap >= (int)text.size());
	r.state(mc::hash(got, buf)); r.outcome_hash(threw);
}
struct Sb : std::streambuf {
	std::string got; size_t cap; int mode; bool sync_fails = false;
	int overflow(int ch) override { if (got.size() >= cap) return EOF; got += (char)ch; return ch; }
	std::streamsize xsputn(const char *p, std::streamsize n) override {
		if (mode == 0) return std::streambuf::xsputn(p, n);
		n = std::min<std::streamsize>(n, cap - got.size()); got.append(p, n); return n;
	}
	int sync() override { return sync_fails ? -1 : 0; }
};
static void stream_dest(mc::Run &r) {
	Docs &d = docs();
	int f = r.choose(FORMATS), k = r.choose((int)d.docs[f].size());
	const std::string &text = d.text[f][k];
	int cap = r.choose((int)text.size() + 2), mode = r.choose(2), sf = r.choose(2);
	Sb sb; sb.cap = cap; sb.mode = mode; sb.sync_fails = sf;
	r.note("%s document %d to a streambuf with room for %d of %zu bytes, sync %s", NAMES[f], k, cap, text.size(), sf ? "fails" : "works");
	bool threw = false;
	try {
		if (f < 4) Serialize(&sb, d.docs[f][k], TYPES[f], d.par[f][k]);
		else SerializeWithPayload(&sb, d.docs[f][k], f == 4 ? SERIALIZE_JSON : SERIALIZE_BUNDLEHDR, d.par[f][k]);
	} catch (std::exception &) { threw = true; }
	r.step(1);
	judge(r, text, sb.got, threw, cap < (int)text.size() || sf, cap >= (int)text.size() && !sf);
	r.state(mc::hash(sb.got, sf)); r.outcome_hash(threw);
}
static void file_dest(mc::Run &r) {
	Docs &d = docs();
	int f = r.choose(FORMATS), k = r.choose((int)d.docs[f].size()), how = r.choose(3);
	const std::string &text = d.text[f][k];
	const char *scratch = getenv("MC_SCRATCH");
	std::string p = mc::fmt("%s/p08.%d", scratch ? scratch : "/tmp", (int)getpid());
	r.note("%s document %d to file, variant %d", NAMES[f], k, how);
	std::string got;
	bool threw = false;
	if (how == 1) { FILE *o = fopen(p.c_str(), "w"); fprintf(o, "%s", std::string(5000, 'o').c_str()); fclose(o); }   // older, longer content
	std::string name = how == 2 ? p + ".missing/x" : p;
	try {
		if (f < 4) Serialize(name, d.docs[f][k], TYPES[f], d.par[f][k]);
		else SerializeWithPayload(name, d.docs[f][k], f == 4 ? SERIALIZE_JSON : SERIALIZE_BUNDLEHDR, d.par[f][k]);
	} catch (std::exception &) { threw = true; }
	if (how != 2) { std::ifstream in(p); std::stringstream ss; ss << in.rdbuf(); got = ss.str(); unlink(p.c_str()); }
	r.step(1);
	judge(r, text, got, threw, how == 2, how != 2);
	r.state(mc::hash(got));
}

// The functions named after a format write what Serialize writes with the same settings.
static void functions(mc::Run &r) {
	Docs &d = docs();
	int f = r.choose(4), k = r.choose((int)d.docs[f].size()), to = r.choose(5), pretty = r.choose(2);
	if (pretty && (f == 1 || f == 3)) throw mc::Skip();
	static const char *TO[] = {"string", "file name", "FILE", "stream", "memory"};
	r.note("%s document %d to %s%s", NAMES[f], k, TO[to], pretty ? ", pretty" : "");
	Variant v = d.docs[f][k], par = Variant::MapType;
	if (f == 0 || f == 2) par.Set("pretty", bool(pretty));
	const std::string text = Serialize(v, TYPES[f], par);
	std::string got, path = mc::fmt("%s/p08f.%d", getenv("MC_SCRATCH") ? getenv("MC_SCRATCH") : "/tmp", (int)getpid());
	FILE *h = fopen(path.c_str(), "w");
	std::stringbuf sb;
	std::string room(text.size() + 5, '#');
	unsigned n = 0;
	bool p = pretty;
#define TO_ALL(G, ...) (to == 0 ? (void)(got = G(v, ##__VA_ARGS__)) : to == 1 ? G(path, v, ##__VA_ARGS__) : to == 2 ? G(h, v, ##__VA_ARGS__) : to == 3 ? G(&sb, v, ##__VA_ARGS__) : (void)(n = G(&room[0], (unsigned)room.size(), v, ##__VA_ARGS__)))
	switch (f) {
	case 0: if (p) TO_ALL(SerializeJSON, true); else if (k % 2) TO_ALL(SerializeJSON, false); else TO_ALL(SerializeJSON); break;
	case 1: TO_ALL(SerializeYAML); break;
	case 2: if (p) TO_ALL(SerializeXMLPLIST, true); else if (k % 2) TO_ALL(SerializeXMLPLIST, false); else TO_ALL(SerializeXMLPLIST); break;
	default: TO_ALL(SerializeBundleHdr);
	}
#undef TO_ALL
	fclose(h);
	if (to == 1 || to == 2) { std::ifstream in(path); std::stringstream ss; ss << in.rdbuf(); got = ss.str(); }
	else if (to == 3) got = sb.str();
	else if (to == 4) { got = room.substr(0, n); r.check(room.substr(n) == std::string(room.size() - n, '#'), "memory", "bytes written after the text"); }
	unlink(path.c_str());
	r.step(1);
	r.check(got == text, "text", "%zu bytes arrive, expected %zu: %s", got.size(), text.size(), mc::q(got.substr(0, 200)).c_str());
	r.state(mc::hash(got, to));
}

int main(int argc, char **argv) {
	docs();
	mc::Check c;
	c.prop = "P08"; c.level = "fault_enumeration";
	c.rule = "each document is serialized by the real emitter to a destination whose answers are enumerated; what arrived is compared with the complete text, and an error is required exactly when the destination failed";
	c.assumptions = {"a destination that accepts nothing of a non-empty write has failed"};
	c.spaces.push_back({"answers", "documents of 6 output forms x every sequence of write and flush answers with up to 2 (thorough 3) that are short (one byte, half, all but one), empty or exceptions; failing once or for good; closed explicitly or by the destructor", answers, 4, true});
	c.spaces.push_back({"capacity", "every capacity from 0 to the size of the text + 1, refusing by partial acceptance then exception, by accepting nothing, or by refusing the whole write", capacity, 3, true});
	c.spaces.push_back({"capacity-large", "documents of about 50 KB, 300 (thorough 2000) capacities", capacity_large, 3, true});
	c.spaces.push_back({"dribble", "every maximum write size from 1 to the size of the text", dribble, 2, true});
	c.spaces.push_back({"memory", "memory destinations of every size from 0 to the size of the text + 3, in exact heap blocks, three interfaces", memory, 3, true});
	c.spaces.push_back({"stdio", "stdio destinations failing after every number of bytes, unbuffered, small buffer, default buffer", stdio_dest, 4, false});
	c.spaces.push_back({"streambuf", "stream destinations failing after every number of bytes, with and without bulk writes, sync failing or not", stream_dest, 4, true});
	c.spaces.push_back({"file", "named files: new, replacing a longer one, not creatable", file_dest, 2, false});
	c.spaces.push_back({"functions", "every function named after a format x 5 destinations, plain and pretty", functions, 2, true});
	return mc::run(argc, argv, c);
}
