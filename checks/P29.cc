// P29: whichever allocation fails, the operation says so or succeeds, values survive, and nothing leaks.
#include "argdecl.hpp"
#include "EventBuffer.h"
#include <Variant/Emitter.h>
#include <Variant/Extensions.h>
#include <Variant/Parser.h>
#include <Variant/ParserInput.h>
#include <Variant/Path.h>
#include <Variant/Payload.h>
#include <Variant/Schema.h>
#include <Variant/SchemaLoader.h>
#include <errno.h>
#include <link.h>
#include <new>
#include <sstream>
using namespace libvariant;
using ref::V;

// ---- every allocation of the process goes through here
static bool armed = false, persist = false; static long count = 0, fail_at = -1, again_at = -1;
// what libxml2, libyaml and the C library allocate for themselves always succeeds
static uintptr_t lo[4], hi[4]; static int ranges = 0;
static int range(struct dl_phdr_info *i, size_t, void *) {
	if (!i->dlpi_name || (!strstr(i->dlpi_name, "libxml2") && !strstr(i->dlpi_name, "libyaml") && !strstr(i->dlpi_name, "libc.so")) || ranges == 4) return 0;
	uintptr_t a = ~(uintptr_t)0, b = 0;
	for (int k = 0; k < i->dlpi_phnum; ++k) if (i->dlpi_phdr[k].p_type == PT_LOAD) { a = std::min<uintptr_t>(a, i->dlpi_addr + i->dlpi_phdr[k].p_vaddr); b = std::max<uintptr_t>(b, i->dlpi_addr + i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz); }
	lo[ranges] = a; hi[ranges++] = b;
	return 0;
}
static inline bool refuse(void *from) {
	if (!armed) return false;
	for (int i = 0; i < ranges; ++i) if ((uintptr_t)from >= lo[i] && (uintptr_t)from < hi[i]) return false;
	long n = count++;
	return persist ? n >= fail_at : n == fail_at || n == again_at;
}
extern "C" {
void *__interceptor_malloc(size_t); void __interceptor_free(void *); void *__interceptor_calloc(size_t, size_t); void *__interceptor_realloc(void *, size_t); int __interceptor_posix_memalign(void **, size_t, size_t);
void *malloc(size_t n) { if (refuse(__builtin_return_address(0))) { errno = ENOMEM; return 0; } return __interceptor_malloc(n); }
void free(void *p) { __interceptor_free(p); }
void *calloc(size_t a, size_t b) { if (refuse(__builtin_return_address(0))) { errno = ENOMEM; return 0; } return __interceptor_calloc(a, b); }
void *realloc(void *p, size_t n) { if (refuse(__builtin_return_address(0))) { errno = ENOMEM; return 0; } return __interceptor_realloc(p, n); }
int posix_memalign(void **p, size_t a, size_t n) { if (refuse(__builtin_return_address(0))) return ENOMEM; return __interceptor_posix_memalign(p, a, n); }
}
void *operator new(size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { return operator new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return malloc(n ? n : 1); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return malloc(n ? n : 1); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
struct Armed { Armed(long k) { count = 0; persist = false; again_at = -1; fail_at = k; armed = true; } ~Armed() { armed = false; } };
struct Pause { bool was = armed; Pause() { armed = false; } ~Pause() { armed = was; } };

// ---- the values an operation works on
static const char *LONG = "a string too long to be stored without allocating";
struct Ctx {
	Variant list, map, str, blob, num, deep, other;
	Ctx() {
		list = Variant::ListType; list.Append(1).Append(LONG).Append(2.5);
		Variant in; in["x"] = LONG; in["y"] = Variant().Append(1).Append(2);
		map["a"] = 1; map["b"] = in.Copy(); map["key that is long enough to allocate"] = LONG;
		str = LONG; num = 5;
		blob = Blob::CreateCopy("\0\1\2data", 7);
		deep["l"] = list.Copy(); deep["m"] = map.Copy(); deep["d"] = blob; deep["n"] = Variant();
		other = Variant(); other["a"] = 2; other["b"]["x"] = "changed"; other["new"]["deep"] = Variant().Append(LONG);
	}
	std::vector<Variant *> all() { return {&list, &map, &str, &blob, &num, &deep, &other}; }
	std::string shot(size_t i) { return ref::show(ref::from(*all()[i])); }
};
enum Kind { CONST, ATOM, MULTI };
struct Op { const char *name; Kind kind; int target; std::function<std::string(Ctx &)> run; };
static std::string sv(const Variant &v) { Pause p; return ref::show(ref::from(v)); }
static std::string st(const std::string &s) { Pause p; return s; }
static const char *JSON = "{\"a\": [1, -2.5, \"some text that is long enough\", true, null], \"b\": {\"c\": \"\\u00e9\\ud83d\\ude00\", \"d\": [[[]]]}, \"big\": 18446744073709551615}";
static const char *YAML = "a: [1, -2.5, text that is long enough to allocate, true, ~]\nb: &x\n  c: \"quoted\"\n  d: [*x2, []]\n";
static const char *YAML2 = "a: &x [1, -2.5, text that is long enough to allocate, true, ~]\nb:\n  c: \"quoted\"\n  d: *x\n  e: !!binary AAECZGF0YQ==\n--- 2\n";
static const char *XML = "<?xml version=\"1.0\"?>\n<plist version=\"1.0\"><dict><key>a</key><array><integer>1</integer><real>2.5</real><string>text that is long enough to allocate &amp; more</string><true/></array><key>d</key><data>AAECZGF0YQ==</data></dict></plist>";
static const char *HDR = "bundle.version: 0.0\nkey.one: 1\nkey.two: text that is long enough to allocate\nlist: a|b|3\n";
static const char *SCHEMA = "{\"type\": \"object\", \"properties\": {\"a\": {\"type\": \"integer\", \"minimum\": 0}, \"b\": {\"$ref\": \"#/definitions/t\"}, \"z\": {\"default\": \"text that is long enough to allocate\"}}, \"patternProperties\": {\"^k\": {\"type\": \"string\", \"minLength\": 3}}, \"additionalProperties\": {\"enum\": [1, 2]}, \"required\": [\"a\"], \"definitions\": {\"t\": {\"anyOf\": [{\"type\": \"array\"}, {\"oneOf\": [{\"required\": [\"x\"]}, {\"not\": {\"type\": \"object\"}}]}], \"dependencies\": {\"x\": [\"y\"]}, \"properties\": {\"y\": {\"items\": {\"multipleOf\": 1}, \"uniqueItems\": true}}}}}";

static std::vector<Op> make_ops() {
	std::vector<Op> o;
	auto add = [&](const char *n, Kind k, int t, std::function<std::string(Ctx &)> f) { o.push_back({n, k, t, f}); };
	// values
	add("construct string", CONST, -1, [](Ctx &) { Variant v(LONG); return sv(v); });
	add("construct list", CONST, -1, [](Ctx &) { Variant v; v.Append(1).Append(LONG); return sv(v); });
	add("construct map", CONST, -1, [](Ctx &) { Variant v; v.Set("key that is long enough to allocate", LONG).Set("b", 2); return sv(v); });
	add("construct from vector", CONST, -1, [](Ctx &) { std::vector<std::string> x(3, LONG); return sv(Variant(x)); });
	add("share", CONST, -1, [](Ctx &c) { Variant v = c.deep, w; w = v; return sv(w); });
	add("copy", CONST, -1, [](Ctx &c) { return sv(c.deep.Copy()); });
	add("compare", CONST, -1, [](Ctx &c) { Variant v = c.deep.Copy(); return mc::fmt("%d%d", v == c.deep, v < c.other); });
	add("compare numbers in text", CONST, -1, [](Ctx &c) { Variant v = "5"; return mc::fmt("%d", c.num == v); });
	add("as string", CONST, -1, [](Ctx &c) { return st(c.num.AsString() + c.str.AsString()); });
	add("as number", CONST, -1, [](Ctx &) { Variant v = "12345678901234567"; return mc::fmt("%ld", (long)v.AsInt()); });
	add("get default", CONST, -1, [](Ctx &c) { return sv(c.map.Get("none", LONG)); });
	add("get path", CONST, -1, [](Ctx &c) { return sv(c.deep.GetPath("m/b/y[1]")); });
	add("has path", CONST, -1, [](Ctx &c) { return mc::fmt("%d%d", c.deep.HasPath("m/b/y[1]"), c.deep.HasPath("m/none/y")); });
	add("path strings", CONST, -1, [](Ctx &) { Path p = ParsePath("a name/with \\/ escapes[12]/and more"); return st(PathString(p)); });
	add("range error", CONST, -1, [](Ctx &c) { try { c.map.AsInt(); } catch (const std::bad_alloc &) { throw; } catch (const std::exception &) { return std::string("error"); } return std::string("none"); });
	add("append", ATOM, 0, [](Ctx &c) { c.list.Append(LONG); return std::string(); });
	add("append fourth", ATOM, 0, [](Ctx &c) { c.list.Append(Variant().Append(1)); return std::string(); });
	add("set new key", ATOM, 1, [](Ctx &c) { c.map.Set("another key that is long enough", LONG); return std::string(); });
	add("set old key", ATOM, 1, [](Ctx &c) { c.map.Set("a", LONG); return std::string(); });
	add("assign element", ATOM, 0, [](Ctx &c) { c.list[0u] = LONG; return std::string(); });
	add("assign string", ATOM, 2, [](Ctx &c) { c.str = "something else that needs memory to hold"; return std::string(); });
	add("assign list over string", ATOM, 2, [](Ctx &c) { c.str = Variant().Append(LONG); return std::string(); });
	add("assign number over map", ATOM, 1, [](Ctx &c) { c.map = 5; return std::string(); });
	add("add", ATOM, 4, [](Ctx &c) { c.num += 3; c.num *= Variant(2.5); return std::string(); });
	add("erase", ATOM, 1, [](Ctx &c) { c.map.Erase("a"); return std::string(); });
	add("erase path", ATOM, 5, [](Ctx &c) { c.deep.ErasePath("m/b/y[0]"); return std::string(); });
	add("index a new key", MULTI, 1, [](Ctx &c) { c.map["another key that is long enough"] = LONG; return std::string(); });
	add("set path", MULTI, 5, [](Ctx &c) { c.deep.SetPath("m/new one/and another/leaf", LONG); return std::string(); });
	add("set path in list", MULTI, 5, [](Ctx &c) { c.deep.SetPath("l[6]", LONG); return std::string(); });
	add("merge", MULTI, 5, [](Ctx &c) { c.deep.Merge(c.other); return std::string(); });
	add("merge into", MULTI, 1, [](Ctx &c) { c.map.Merge(c.other); return std::string(); });
	add("set index", ATOM, 0, [](Ctx &c) { c.list.Set(1u, Variant().Append(2)); return std::string(); });
	add("set index past the end", MULTI, 0, [](Ctx &c) { c.list.Set(9u, LONG); return std::string(); });
	add("erase index", ATOM, 0, [](Ctx &c) { c.list.Erase(2u); return std::string(); });
	add("erase path with what becomes empty", MULTI, 5, [](Ctx &c) { c.deep.ErasePath("m/b/x", true); return std::string(); });
	add("clear", ATOM, 1, [](Ctx &c) { c.map.Clear(); return std::string(); });
	add("clear string", ATOM, 2, [](Ctx &c) { c.str.Clear(); return std::string(); });
	add("find", CONST, -1, [](Ctx &c) { return mc::fmt("%u %u", c.list.Index(LONG), c.list.Index(7)); });
	add("contains", CONST, -1, [](Ctx &c) { return mc::fmt("%d%d", c.map.Contains("key that is long enough to allocate"), c.map.Contains("another key that is long enough")); });
	add("missing key", CONST, -1, [](Ctx &c) { try { c.map.Get("another key that is long enough"); } catch (const KeyError &) { return std::string("error"); } return std::string("none"); });
	add("reference", CONST, -1, [](Ctx &c) { VariantRef x = c.deep.Ref(); VariantRef y = x["m"]["b"]; return sv(y); });
	add("assign through a reference", ATOM, 5, [](Ctx &c) { VariantRef x = c.deep.Ref(); VariantRef y = x["m"]["b"]; y = LONG; return std::string(); });
	add("create through a proxy", MULTI, 5, [](Ctx &c) { VariantRef x = c.deep["m"]["one"]["two"]; x = LONG; return std::string(); });
	add("create a list through a proxy", MULTI, 5, [](Ctx &c) { VariantRef x = c.deep["m"]["one"]; x.Append(LONG); return std::string(); });
	add("at path with a default", MULTI, 5, [](Ctx &c) { c.deep.AtPath("m/one/two", LONG); return std::string(); });
	add("at with a default", ATOM, 1, [](Ctx &c) { c.map.At("one", LONG); return std::string(); });
	add("assign a vector", ATOM, 1, [](Ctx &c) { std::vector<std::string> x(3, LONG); c.map = x; return std::string(); });
	add("assign a map", ATOM, 0, [](Ctx &c) { std::map<std::string, std::string> x; x["key"] = LONG; c.list = x; return std::string(); });
	add("assign a blob", ATOM, 1, [](Ctx &c) { c.map = Blob::CreateCopy(LONG, 20); return std::string(); });
	add("assign a copy of a part of itself", ATOM, 5, [](Ctx &c) { c.deep = c.deep.GetPath("m/b").Copy(); return std::string(); });
	add("get into", CONST, -1, [](Ctx &c) { std::string t; c.map.GetInto(t, "key that is long enough to allocate"); int i = 0; c.deep.GetPathInto(i, "m/b/y[1]"); return mc::fmt("%d", i) + t; });
	add("sum", CONST, -1, [](Ctx &c) { return sv(c.num + c.list.Get(2u) * 3); });
	add("iterate", CONST, -1, [](Ctx &c) { std::string s; for (Variant::MapIterator i = c.map.MapBegin(); i != c.map.MapEnd(); ++i) s += i->first; for (Variant::ListIterator i = c.list.ListBegin(); i != c.list.ListEnd(); ++i) s += i->AsString(); return st(s); });
	add("blob", CONST, -1, [](Ctx &c) { BlobPtr b = c.blob.AsBlob()->Copy(); ConstBlobPtr d = b; return mc::fmt("%u %d", b->GetTotalLength(), b->Compare(d)); });
	add("blob from text", CONST, -1, [](Ctx &) { Variant v = Blob::CreateCopy(LONG, 40); return sv(v); });
	// extensions
	add("pointer get", CONST, -1, [](Ctx &c) { return sv((Variant)JSONPointerLookup("/m/b/y/1", c.deep.Ref())); });
	add("pointer add", ATOM, 5, [](Ctx &c) { JSONPointerAdd("/m/b/y/1", c.deep.Ref(), LONG); return std::string(); });
	add("pointer add key", ATOM, 5, [](Ctx &c) { JSONPointerAdd("/m/b/some new key of some length", c.deep.Ref(), LONG); return std::string(); });
	add("pointer replace", ATOM, 5, [](Ctx &c) { JSONPointerReplace("/m/b/y/1", c.deep.Ref(), LONG); return std::string(); });
	add("pointer remove", ATOM, 5, [](Ctx &c) { JSONPointerRemove("/m/b/y/1", c.deep.Ref()); return std::string(); });
	add("pointer move", ATOM, 5, [](Ctx &c) { JSONPointerMove("/m/b/y", "/l/1", c.deep.Ref()); return std::string(); });
	add("pointer move key", ATOM, 5, [](Ctx &c) { JSONPointerMove("/m/b", "/some new key of some length", c.deep.Ref()); return std::string(); });
	add("pointer copy", ATOM, 5, [](Ctx &c) { JSONPointerCopy("/m/b", "/l/-", c.deep.Ref()); return std::string(); });
	add("patch", MULTI, 5, [](Ctx &c) {
		static Variant p; { Pause x; p = Deserialize("[{\"op\":\"test\",\"path\":\"/m/a\",\"value\":1},{\"op\":\"add\",\"path\":\"/m/q\",\"value\":[\"some text that is long enough\"]},{\"op\":\"move\",\"from\":\"/l/1\",\"path\":\"/l/0\"},{\"op\":\"copy\",\"from\":\"/m\",\"path\":\"/mm\"},{\"op\":\"remove\",\"path\":\"/m/b\"},{\"op\":\"replace\",\"path\":\"/n\",\"value\":{}}]", SERIALIZE_JSON); }
		std::pair<bool, std::string> r = JSONPatch(c.deep.Ref(), p); if (!r.first) throw std::runtime_error("patch"); return std::string(); });
	add("diff", CONST, -1, [](Ctx &c) { return sv(JSONDiff(c.map, c.other)); });
	add("flatten", CONST, -1, [](Ctx &c) { return sv(FlattenPath(c.deep)); });
	add("expand", CONST, -1, [](Ctx &c) { Variant f; { Pause p; f = FlattenPath(c.deep.Copy()); } return sv(ExpandPath(f)); });
	add("recursive difference", CONST, -1, [](Ctx &c) { return sv(RDiff(c.map, c.other)); });
	add("recursive update", MULTI, 1, [](Ctx &c) { RUpdate(c.map.Ref(), c.other); return std::string(); });
	// text
	static const SerializeType F[] = {SERIALIZE_JSON, SERIALIZE_YAML, SERIALIZE_XMLPLIST, SERIALIZE_BUNDLEHDR};
	static const char *WN[] = {"write JSON", "write YAML", "write XML", "write bundle header"}, *PN[] = {"write JSON with payload", "write YAML with payload", "write XML with payload"}, *SN[] = {"stream JSON", "stream YAML", "stream XML"};
	for (int i = 0; i < 4; ++i) add(WN[i], CONST, -1, [i](Ctx &c) { if (i == 3) { Variant v; v["k"] = LONG; v["l"].Append(1).Append("x"); return st(Serialize(v, F[i])); } return st(Serialize(c.deep, F[i])); });
	for (int i = 0; i < 3; ++i) add(PN[i], CONST, -1, [i](Ctx &c) { return st(SerializeWithPayload(c.deep, F[i])); });
	for (int i = 0; i < 3; ++i) add(SN[i], CONST, -1, [i](Ctx &c) { std::stringbuf sb; Variant p; p["pretty"] = true; Serialize(&sb, c.deep, F[i], p); return st(sb.str()); });
	add("read JSON", CONST, -1, [](Ctx &) { return sv(Deserialize(JSON, SERIALIZE_JSON)); });
	add("read long JSON", CONST, -1, [](Ctx &) { static std::string t; { Pause p; t = "[\"" + std::string(8000, 'x') + "\", " + std::string(120, '[') + std::string(120, ']') + "]"; } return sv(Deserialize(t, SERIALIZE_JSON)); });
	add("read JSON blob", CONST, -1, [](Ctx &) { return sv(Deserialize("[\"\\u0000BLOBAAECZGF0YQ==\"]", SERIALIZE_JSON)); });
	add("read YAML", CONST, -1, [](Ctx &) { return sv(Deserialize(YAML2, SERIALIZE_YAML)); });
	add("read YAML with an error", CONST, -1, [](Ctx &) { try { Deserialize(YAML, SERIALIZE_YAML); } catch (const std::exception &) { return std::string("error"); } return std::string("none"); });
	add("read XML", CONST, -1, [](Ctx &) { return sv(Deserialize(XML, SERIALIZE_XMLPLIST)); });
	add("read bundle header", CONST, -1, [](Ctx &) { return sv(Deserialize(HDR, SERIALIZE_BUNDLEHDR)); });
	add("read and guess", CONST, -1, [](Ctx &) { return sv(Deserialize(XML, SERIALIZE_GUESS)); });
	add("read all", CONST, -1, [](Ctx &) { LoadAllIterator i = DeserializeAll(YAML2, SERIALIZE_YAML), e; std::string s; for (; i != e; ++i) { std::string x = sv(*i); Pause p; s += x; } return st(s); });
	add("read a stream", CONST, -1, [](Ctx &) { std::stringbuf sb(JSON); return sv(DeserializeFile(&sb, SERIALIZE_JSON)); });
	add("read payload", CONST, -1, [](Ctx &c) { std::string s; { Pause p; s = SerializeWithPayload(c.deep, SERIALIZE_JSON); } return sv(DeserializeWithPayload(s, SERIALIZE_JSON)); });
	add("record events", CONST, -1, [](Ctx &c) { EventBuffer b; Parser p = CreateParser(CreateParserInput(JSON, (unsigned)strlen(JSON)), SERIALIZE_JSON); b.Fill(p); EventBuffer d(b); std::stringbuf sb; Emitter e = CreateEmitter(CreateEmitterOutput(&sb), SERIALIZE_JSON); d.Playback(e); e.Close(); return st(sb.str()); });
	add("emit", CONST, -1, [](Ctx &c) { std::stringbuf sb; Emitter e = CreateEmitter(CreateEmitterOutput(&sb), SERIALIZE_YAML); e.BeginDocument(); e << c.deep; e.EndDocument(); e.BeginDocument(); e << c.list; e.EndDocument(); e.Flush(); return st(sb.str()); });
	add("write a bundle", CONST, -1, [](Ctx &c) { Variant v; v["k"] = LONG; v["payload.data"] = c.blob; return st(SerializeBundle(v)); });
	add("read a bundle", CONST, -1, [](Ctx &c) { std::string s; { Pause p; Variant v; v["k"] = LONG; v["payload.data"] = c.blob; s = SerializeBundle(v); } return sv(DeserializeBundle(s)); });
	add("read JSON with an error", CONST, -1, [](Ctx &) { try { Deserialize("{\"some long key of some length\": [1, 2, {\"a\": x}]}", SERIALIZE_JSON); } catch (const std::exception &) { return std::string("error"); } return std::string("none"); });
	add("read XML with an error", CONST, -1, [](Ctx &) { try { Deserialize("<plist><dict><key>some long key of some length</key><array><nonsense/></array></dict></plist>", SERIALIZE_XMLPLIST); } catch (const std::exception &) { return std::string("error"); } return std::string("none"); });
	// schemas
	add("load a schema", CONST, -1, [](Ctx &c) { SchemaLoader l; Variant s; { Pause p; s = Deserialize(SCHEMA, SERIALIZE_JSON); s["id"] = "http://example.com/some/schema.json"; } l.AddSchema("http://example.com/some/schema.json", s); Variant t; t["$ref"] = "http://example.com/some/./schema.json#/definitions/t"; SchemaResult r = SchemaValidate(t, c.map.Get("b"), &l); if (!r.GetSchemaErrors().empty()) throw std::runtime_error("schema"); return mc::fmt("%d", r.Error()); });
	add("validate", CONST, -1, [](Ctx &c) { static Variant s; { Pause p; s = Deserialize(SCHEMA, SERIALIZE_JSON); } SchemaResult r = SchemaValidate(s, c.map); if (!r.GetSchemaErrors().empty()) throw std::runtime_error("schema"); return mc::fmt("%d", r.Error()); });
	add("validate with errors", CONST, -1, [](Ctx &c) { static Variant s; { Pause p; s = Deserialize(SCHEMA, SERIALIZE_JSON); } SchemaResult r = SchemaValidate(s, c.other); std::string t = r.PrettyPrintMessage(); if (!r.GetSchemaErrors().empty()) throw std::runtime_error("schema"); return mc::fmt("%d %zu", r.Error(), r.GetErrors().size()); });
	add("fill in defaults", MULTI, 1, [](Ctx &c) { static Variant s; { Pause p; s = Deserialize(SCHEMA, SERIALIZE_JSON); } AddSchemaDefaults(s, c.map.Ref()); return std::string(); });
	// options
	auto parser = [](ArgParse &a) { a.AddOption("p/o", 'o', "opt", "help that is long enough").Type(ARGTYPE_INT).Minimum(0).Default(3); a.AddOption("c", 'c', "choice").AddChoice("one").AddChoice("two").Group("g"); a.AddFlag("f", 'f', "flag"); a.AddArgument("rest").Action(ARGACTION_APPEND).MinArgs(0).MaxArgs(0); a.AddGroup("g").MutuallyExclusive(); };
	add("declare options", CONST, -1, [parser](Ctx &) { ArgParse a("prog"); parser(a); return sv(a.GetDescription()); });
	add("parse a command line", CONST, -1, [parser](Ctx &) {
		std::unique_ptr<ArgParse> a; { Pause p; a.reset(new ArgParse("prog")); parser(*a); }
		char A[] = "prog", B[] = "--opt=5", C[] = "-f", D[] = "some argument that is long enough", E[] = "2"; char *av[] = {A, B, C, D, E, 0};
		optind = 0;
		try { Variant v = a->Parse(5, av); return sv(v); } catch (const Exit &e) { throw std::runtime_error(e.code ? "exit" : "success"); } });
	add("schema of options", CONST, -1, [parser](Ctx &) { std::unique_ptr<ArgParse> a; { Pause p; a.reset(new ArgParse("prog")); parser(*a); } return sv(a->GenerateSchema()); });
	add("merge options", CONST, -1, [parser](Ctx &) { std::unique_ptr<ArgParse> a; Variant d; { Pause p; a.reset(new ArgParse("prog")); parser(*a); d = a->GetDescription(); } ArgParse b("prog"); b.Merge(d); return sv(b.GetDescription()); });
	return o;
}
static const std::vector<Op> &ops() { static const std::vector<Op> o = make_ops(); return o; }

struct Clean { std::string result; std::vector<std::string> after; long n; };
static const Clean &clean(const Op &op) {
	static std::map<const Op *, Clean> known;
	Clean &k = known[&op];
	if (k.n) return k;
	for (int i = 0; i < 3; ++i) {           // twice to fill what is filled on first use
		Ctx c;
		{ Armed a(-1); k.result = op.run(c); }
		k.n = count;
		k.after.clear();
		for (size_t j = 0; j < 7; ++j) k.after.push_back(c.shot(j));
	}
	return k;
}
static void usable(mc::Run &r, Ctx &c) {
	for (Variant *v : c.all()) {
		Variant k = v->Copy();
		r.check(ref::same(ref::from(k), ref::from(*v)), "unusable", "a copy differs");
		if (v->IsMap()) { v->Set("more", LONG); r.check((*v)["more"] == LONG && v->Size() == k.Size() + (k.Contains("more") ? 0 : 1), "unusable", "cannot set"); }
		else if (v->IsList()) { v->Append(LONG); r.check((*v)[v->Size() - 1] == LONG && v->Size() == k.Size() + 1, "unusable", "cannot append"); }
		Serialize(Variant().Append(*v), SERIALIZE_JSON);
	}
}
static void single(mc::Run &r) {
	const Op &op = ops()[r.choose(ops().size())];
	const Clean &k = clean(op);
	long at = r.choose((int)k.n + 1);        // the last: none fails
	int gap = at < k.n ? r.choose(r.thorough ? 34 : 5) - 1 : 0;      // -1: all after it as well
	bool one = gap == 0;
	if (!r.fresh()) return;
	r.note("%s, allocation %ld of %ld fails%s", op.name, at, k.n, gap < 0 ? " and all after it" : gap ? mc::fmt(" and number %ld", at + gap).c_str() : "");
	Ctx c;
	std::vector<std::string> before;
	for (size_t j = 0; j < 7; ++j) before.push_back(c.shot(j));
	bool threw = false, memory = false; std::string res, what;
	{
		Armed a(at); persist = gap < 0; again_at = gap > 0 ? at + gap : -1;
		try { res = op.run(c); } catch (const std::bad_alloc &) { threw = memory = true; } catch (const std::exception &e) { Pause p; threw = true; what = e.what(); } catch (const Exit &e) { Pause p; threw = true; what = mc::fmt("exit %d", e.code); }
	}
	r.step(1);
	if (!threw) {
		r.check(res == k.result, "result", "no error, but the result is %s, not %s", res.c_str(), k.result.c_str());
		for (size_t j = 0; j < 7; ++j) r.check(c.shot(j) == k.after[j], "result", "no error, but value %zu is %s, not %s", j, c.shot(j).c_str(), k.after[j].c_str());
	} else {
		r.check(at < k.n, "error", "fails without a fault: %s", what.c_str());
		for (size_t j = 0; j < 7; ++j) {
			std::string now = c.shot(j);
			if ((int)j == op.target) { if (op.kind == ATOM && one) r.check(now == before[j] || now == k.after[j], "half", "%s: value is %s; it was %s", op.name, now.c_str(), before[j].c_str()); }
			else r.check(now == before[j], "harmed", "%s: value %zu is %s; it was %s", op.name, j, now.c_str(), before[j].c_str());
		}
	}
	usable(r, c);
	{
		Ctx d;
		std::string again;
		try { again = op.run(d); } catch (const std::exception &e) { r.fail("after", "%s fails afterwards: %s", op.name, e.what()); }
		r.check(again == k.result, "after", "%s gives %s afterwards, not %s", op.name, again.c_str(), k.result.c_str());
	}
	r.state(mc::hash(op.name) + at * 64 + gap); r.outcome(threw ? (memory ? "bad_alloc" : "error") : "success");
}

int main(int argc, char **argv) {
	quiet();
	dl_iterate_phdr(range, 0);
	mc::Check c;
	c.prop = "P29"; c.level = "fault_enumeration";
	c.rule = "with any one allocation refused, the operation raises an error or gives the result of a run without faults; values it does not change are as before, values it changes in one step are as before or after, all stay usable; the operation works afterwards and no memory is lost";
	c.assumptions = {"allocations libxml2, libyaml and the C library make for themselves succeed", "with more than one failure, a change may be left partly made"};
	c.spaces.push_back({"single", mc::fmt("%zu operations x every allocation made while they run failing, alone, with one of the next few, or with all after it", ops().size()), single, 1, true});
	return mc::run(argc, argv, c);
}
