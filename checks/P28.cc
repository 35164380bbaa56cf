// P28: threads that each work on values of their own do not disturb one another.
#include "sched.hpp"
#include "ref.hpp"
#include "EventBuffer.h"
#include <Variant/ArgParse.h>
#include <Variant/Emitter.h>
#include <Variant/Extensions.h>
#include <Variant/GuessFormat.h>
#include <Variant/Parser.h>
#include <Variant/ParserInput.h>
#include <Variant/Path.h>
#include <Variant/Payload.h>
#include <Variant/Schema.h>
#include <Variant/SchemaLoader.h>
#include <algorithm>
#include <map>
#include <fstream>
#include <sstream>
#include <sys/stat.h>
using namespace libvariant;

// `who` makes the two threads work on different data of the same shape
typedef std::function<std::string(int)> F;
struct Op { const char *name; F run; bool shared = false; };
static std::string sv(const Variant &v) { return ref::show(ref::from(v)); }
static std::string num(long n) { char b[32]; snprintf(b, sizeof(b), "%ld", n); return b; }
static std::string tag(int who) { return who ? "second" : "first"; }
static Variant value(int who) {
	Variant v;
	v["name"] = tag(who) + " value, long enough to need memory of its own";
	v["n"] = who ? -7 : 12345678901LL; v["u"] = who ? 18446744073709551615ULL : 3ULL; v["d"] = who ? 2.5 : 1e-300; v["t"] = who == 0; v["z"] = Variant();
	v["s"] = who ? "true" : "1.5e3"; v["text"] = who ? "\xc3\xa9 \xf0\x9f\x98\x80 \"\\\n" : "a & b < c\t";
	for (int i = 0; i < 3 + who; ++i) v["l"].Append(Variant().Append(i + who).Append(tag(who)));
	v["m"]["k"]["x"] = who; v["b"] = Blob::CreateCopy(who ? "\0\1\2three" : "\xff\xfe", who ? 8 : 2);
	return v;
}
static std::string errors(const SchemaResult &r) {
	std::string s = r.Error() ? "invalid" : "valid";
	return s + " " + num(r.GetErrors().size()) + " " + num(r.GetSchemaErrors().size()) + "\n" + r.PrettyPrintMessage();
}
static std::string attempt(const std::string &t, SerializeType f) { try { return sv(Deserialize(t, f)); } catch (const std::exception &e) { return std::string("error ") + e.what(); } }
static std::string scratch(int who) { return std::string(getenv("MC_SCRATCH") ? getenv("MC_SCRATCH") : ".") + "/" + num(getpid()) + tag(who); }

// a value both threads read and neither changes
static Variant *common = 0;
static void make_common() { common = new Variant(value(1)); (*common)["schema"] = Deserialize("{\"properties\": {\"n\": {\"$ref\": \"#/d\"}}, \"d\": {\"type\": \"string\"}}", SERIALIZE_JSON); }

static std::vector<Op> make_ops() {
	std::vector<Op> o;
	auto add = [&](const char *n, F f) { o.push_back({n, f}); };
	static const SerializeType T[] = {SERIALIZE_JSON, SERIALIZE_YAML, SERIALIZE_XMLPLIST};
	static const char *W[] = {"write JSON", "write YAML", "write XML"}, *P[] = {"write and read JSON with payload", "write and read YAML with payload", "write and read XML with payload"}, *RT[] = {"write and read JSON", "write and read YAML", "write and read XML"};
	static const char *FI[] = {"JSON in a file", "YAML in a file", "XML in a file"};
	for (int i = 0; i < 3; ++i) add(W[i], [i](int w) { Variant p; if (w) { p["pretty"] = true; p["indent"] = 3; } std::stringbuf sb; Serialize(&sb, value(w), T[i], p); return sb.str(); });
	for (int i = 0; i < 3; ++i) add(RT[i], [i](int w) { return sv(Deserialize(Serialize(value(w), T[i]), T[i])); });
	for (int i = 0; i < 3; ++i) add(P[i], [i](int w) { return sv(DeserializeWithPayload(SerializeWithPayload(value(w), T[i]), T[i])); });
	for (int i = 0; i < 3; ++i) add(FI[i], [i](int w) {
		std::string f = scratch(w); Serialize(f.c_str(), value(w), T[i]); std::string r = sv(DeserializeFile(f.c_str(), T[i])); unlink(f.c_str());
		FILE *t = tmpfile(); if (t) { Serialize(t, value(w), T[i]); rewind(t); r += sv(DeserializeFile(t, T[i])); fclose(t); }
		return r; });
	add("read JSON", [](int w) { std::string t = w ? "{\"a\": [1, -2.5e3, \"\\u00e9\\ud83d\\ude00\", true, null], \"big\": 18446744073709551615, \"d\": 0.1} " : "[9223372036854775807, -9223372036854775808, 1e400, \"plain\", {\"k\": {}}] "; return attempt(t, SERIALIZE_JSON); });
	add("read JSON from a stream", [](int w) { std::string t = w ? "{\"a\": [1, \"two\", 3.5]}" : "[[[[\"x\"]]], 12]"; std::stringbuf sb(t); return sv(DeserializeFile(&sb, SERIALIZE_JSON)); });
	add("read broken JSON", [](int w) { return attempt(w ? "{\"a\": [1, tru]}" : "[\"\\ud800\", 1", SERIALIZE_JSON); });
	add("read YAML", [](int w) { return attempt(w ? "a: &x [1, 0x1F, 0o17, -2.5, ~, .inf, \"3\", yes]\nb: *x\nc: !!binary AAEC\n" : "- {k: v, 1: true, null: .NaN}\n- |\n  block\n  text\n- 12e3\n- 99999999999999999999\n", SERIALIZE_YAML); });
	add("read broken YAML", [](int w) { return attempt(w ? "a: [1, 2\nb: }" : "a: *unknown\n", SERIALIZE_YAML); });
	add("read YAML documents", [](int w) { LoadAllIterator i = DeserializeAll(w ? "--- 1\n--- [two]\n" : "a: 1\n---\nb: 2\n---\n- c\n", SERIALIZE_YAML), e; std::string s; for (; i != e; ++i) s += sv(*i) + ";"; return s; });
	add("read XML", [](int w) { return attempt(w ? "<?xml version=\"1.0\"?>\n<plist version=\"1.0\"><dict><key>a</key><array><integer>1</integer><real>2.5</real><string>x &amp; y</string><true/></array><key>d</key><data>AAEC</data></dict></plist>" : "<plist><array><string>only</string><false/><integer>-9</integer></array></plist>", SERIALIZE_XMLPLIST); });
	add("read broken XML", [](int w) { return attempt(w ? "<plist><dict><key>a</key></dict></plist>" : "<plist><array><integer>1</array></plist>", SERIALIZE_XMLPLIST); });
	add("bundle header", [](int w) { Variant v; v["k"] = tag(w); v["l"].Append(1 + w).Append("x y"); v["m.n"] = w ? 2.5 : -1; return Serialize(v, SERIALIZE_BUNDLEHDR) + sv(Deserialize(w ? "a.b: 1\nlist: 1|2|x\n" : "t: yes\nf: 1.5\n", SERIALIZE_BUNDLEHDR)); });
	add("bundle", [](int w) { Variant v; v["k"] = tag(w); v["payload.data"] = Blob::CreateCopy(w ? "\0one" : "zero!", w ? 4 : 5); return sv(DeserializeBundle(SerializeBundle(v))); });
	add("guess the format", [](int w) { return attempt(w ? "<plist><array><integer>3</integer></array></plist>" : "{\"a\": 1}", SERIALIZE_GUESS) + attempt(w ? "a: 1\nb: [x]\n" : "[1, 2]", SERIALIZE_GUESS); });
	add("record and play events", [](int w) { std::string t = Serialize(value(w), SERIALIZE_JSON); EventBuffer b; Parser p = CreateParser(CreateParserInput(t.data(), (unsigned)t.size()), SERIALIZE_JSON); b.Fill(p); std::stringbuf sb; Emitter e = CreateEmitter(CreateEmitterOutput(&sb), SERIALIZE_YAML); b.Playback(e); e.Close(); return sb.str(); });
	add("base64", [](int w) { std::string s; for (int n = 0; n < 5; ++n) { BlobPtr b = Blob::CreateCopy(w ? "abcdefgh" : "\0\377\1\376\2\375", n); std::string x; Variant v = b; s += Serialize(Variant().Append(v), SERIALIZE_JSON); s += sv(Deserialize(s.substr(s.rfind('[')), SERIALIZE_JSON)); } return s; });
	add("compare", [](int w) { std::string s; Variant a = value(w), b = value(w), c = value(1 - w); b["l"].Append(1); s += num(a == value(w)) + num(a < b) + num(a > c) + num(a != c); for (int i = -2; i < 3; ++i) for (const char *t : {"1", "-1.5", "x", "0x2", "true"}) { s += num(Variant(i) == Variant(t)); s += num(Variant(i + 0.5) < Variant(t)); } return s; });
	add("convert", [](int w) { std::string s; for (const char *t : {"12", "-3.75", "0x1f", "yes", "false", "1e3", "nonsense", "18446744073709551615", ""}) { Variant v = tag(w) == "first" ? std::string(t) : std::string(t) + (*t ? "1" : "7"); try { s += num(v.AsInt()) + ","; } catch (const std::exception &e) { s += e.what(); } try { s += Variant(v.AsDouble()).AsString() + ","; } catch (const std::exception &e) { s += e.what(); } try { s += num(v.AsBool()) + ";"; } catch (const std::exception &e) { s += e.what(); } } s += Variant(w ? 0.1 : 1e22).AsString() + Variant(w ? -5 : 77).AsString(); return s; });
	add("arithmetic", [](int w) { Variant a = w ? 7 : 2.5, b = w ? 2u : 4u; a += b; a *= Variant(3); a -= 1; a /= Variant(2); ++a; return sv(a) + sv(Variant(w + 9) % Variant(4)); });
	add("paths", [](int w) { Variant v = value(w); v.SetPath("m/new/a[2]", tag(w)); std::string s = sv(v.GetPath("l[1][1]")) + num(v.HasPath("m/k/x")) + PathString(ParsePath(w ? "a/b[3]/c\\/d" : "x[0][1]")); v.ErasePath("m/k/x", true); try { v.GetPath("m/none/x"); } catch (const std::exception &e) { s += e.what(); } return s + sv(v); });
	add("merge", [](int w) { Variant v = value(w); v.Merge(value(1 - w)); Variant c = v.Copy(); c["m"]["k"] = 1; return sv(v) + sv(c); });
	add("pointer", [](int w) { Variant v = value(w); JSONPointerAdd("/l/1", v.Ref(), tag(w)); JSONPointerMove("/m", "/l/-", v.Ref()); JSONPointerCopy("/n", "/a~1b", v.Ref()); JSONPointerRemove("/d", v.Ref()); std::string s = sv((Variant)JSONPointerLookup("/l/0/1", v.Ref())); try { JSONPointerLookup("/no/1", v.Ref()); } catch (const std::exception &e) { s += e.what(); } return s + sv(v); });
	add("patch and diff", [](int w) { Variant v = value(w), d = JSONDiff(v, value(1 - w)); std::string s = sv(d); std::pair<bool, std::string> r = JSONPatch(v.Ref(), d); return s + num(r.first) + r.second + sv(v); });
	add("flatten and expand", [](int w) { Variant f = FlattenPath(value(w)); return sv(f) + sv(ExpandPath(f)); });
	add("recursive difference", [](int w) { Variant v = value(w); std::string s = sv(RDiff(v, value(1 - w))); RUpdate(v.Ref(), value(1 - w)); return s + sv(v); });
	static const char *SCHEMA = "{\"type\": \"object\", \"properties\": {\"n\": {\"type\": \"integer\", \"minimum\": 0}, \"m\": {\"$ref\": \"#/definitions/t\"}, \"z\": {\"default\": 1}, \"q\": {\"default\": [2]}}, \"patternProperties\": {\"^(na|te)\": {\"type\": \"string\", \"minLength\": 4, \"pattern\": \"^f|a\"}}, \"additionalProperties\": true, \"required\": [\"n\", \"w\"], \"definitions\": {\"t\": {\"anyOf\": [{\"type\": \"array\"}, {\"oneOf\": [{\"required\": [\"k\"]}, {\"not\": {\"type\": \"object\"}}]}]}}}";
	add("validate", [](int w) { return errors(SchemaValidate(Deserialize(SCHEMA, SERIALIZE_JSON), value(w))); });
	add("validate a schema", [](int w) { Variant s; s["$ref"] = "http://json-schema.org/draft-04/schema#"; Variant d = Deserialize(SCHEMA, SERIALIZE_JSON); if (w) d["properties"]["n"]["minimum"] = "none"; return errors(SchemaValidate(s, d)); });
	add("formats", [](int w) { std::string s; for (const char *f : {"date-time", "email", "hostname", "ipv4", "ipv6", "uri"}) for (const char *t : {"::1", "a@b.c"}) { Variant k; k["format"] = f; s += num(SchemaValidate(k, Variant(std::string(t) + (w ? "" : "0"))).Error()); } return s; });
	add("fill in defaults", [](int w) { Variant v = value(w); v["w"] = 1; AddSchemaDefaults(Deserialize(SCHEMA, SERIALIZE_JSON), v.Ref()); return sv(v); });
	add("schema loader", [](int w) { SchemaLoader l; Variant s = Deserialize(SCHEMA, SERIALIZE_JSON); s["id"] = "http://example.com/a/s.json"; l.AddSchema("http://example.com/a/s.json", s); Variant t; t["$ref"] = w ? "http://example.com/a/./s.json#/definitions/t" : "http://example.com/a/b/../s.json"; return errors(SchemaValidate(t, value(w), &l)); });
	add("missing schema", [](int w) { Variant t; t["$ref"] = "nowhere:" + tag(w) + "#/a"; return errors(SchemaValidate(t, value(w))); });
	add("URIs", [](int w) { std::string s; for (const char *u : {"a/b", "../c", "?q", "#f", "http://u@h:1/x/../y%20", "//h/z"}) s += SchemaLoader::ResolveURI(u, w ? "http://example.com/p/q?r#s" : "file:///p/q") + " "; return s; });
	add("report an error", [](int w) { std::string s; try { value(w).AsInt(); } catch (const std::exception &e) { s += e.what(); } try { value(w).Get(w ? "none" : "nothing"); } catch (const std::exception &e) { s += e.what(); } try { Variant().Append(1).Get(3u + w); } catch (const std::exception &e) { s += e.what(); } try { DeserializeFile((scratch(w) + "/none").c_str(), SERIALIZE_JSON); } catch (const std::exception &e) { s += "no file"; } return s; });
	auto both = [&](const char *n, F f) { o.push_back({n, f, true}); };
	both("look at a common value", [](int w) { const Variant &c = *common; std::string s = num(c.Size()) + num(c.Contains("l")) + c.Get("name").AsString() + num(c.Get("n").AsInt()) + sv(c.GetPath(w ? "l[1][1]" : "m/k/x")) + num(c.HasPath("m/k/y")) + sv(c.Get("none", w)); for (Variant::ConstMapIterator i = c.MapBegin(); i != c.MapEnd(); ++i) s += i->first + sv(i->second); return s; });
	both("compare with a common value", [](int w) { const Variant &c = *common; Variant v = value(w); return num(v == c) + num(v < c) + num(c == c) + num(c.Get("n") == v.Get("n")); });
	both("write a common value", [](int w) { return Serialize(*common, w ? SERIALIZE_JSON : SERIALIZE_YAML) + Serialize(*common, SERIALIZE_XMLPLIST); });
	both("copy a common value", [](int w) { Variant v = common->Copy(); v["l"].Append(w); v["m"]["k"] = tag(w); return sv(v) + sv(*common); });
	both("difference of a common value", [](int w) { const Variant &c = *common; return sv(FlattenPath(c)) + sv(RDiff(c, value(w))) + sv(RDiff(value(w), c)); });
	both("validate with a common schema", [](int w) { const Variant &c = *common; return errors(SchemaValidate(c.Get("schema"), w ? c : Variant(value(0)))); });
	return o;
}

// More of the library, each with itself only: what both threads run is the same code
static std::string tell(const std::function<std::string()> &f) { try { return f() + ";"; } catch (const std::exception &e) { return std::string("{") + e.what() + "};"; } }
static const SerializeType ALL[] = {SERIALIZE_JSON, SERIALIZE_YAML, SERIALIZE_XMLPLIST, SERIALIZE_BUNDLEHDR};
static std::vector<Variant> kinds(int w) {
	Variant l, m, b = Blob::CreateCopy(w ? "one" : "three", w ? 3 : 5);
	l.Append(w).Append(tag(w)).Append(Variant()); m["k"] = w; m["l"] = l;
	return {Variant(), Variant(w == 0), Variant(w - 3), Variant(4u + w), Variant(w ? 2.5 : -0.75), Variant(w ? "12" : "text"), l, m, b};
}
static const char *RULES[] = {
	"{\"oneOf\": 1}", "{\"oneOf\": [{}, {}]}", "{\"oneOf\": [{\"type\": \"null\"}, {\"type\": \"array\"}]}", "{\"anyOf\": {}}", "{\"anyOf\": [{\"type\": \"null\"}, {\"minimum\": 100}]}", "{\"allOf\": 3}", "{\"allOf\": [{}, {\"type\": [\"integer\", \"string\"]}]}", "{\"not\": {}}",
	"{\"dependencies\": 1}", "{\"dependencies\": {\"k\": \"none\"}}", "{\"dependencies\": {\"k\": [\"l\", \"none\"]}}", "{\"dependencies\": {\"k\": {\"maxProperties\": 1}}}", "{\"dependencies\": {\"k\": 1}}",
	"{\"patternProperties\": {\"^k\": {\"type\": \"string\"}}}", "{\"patternProperties\": {\"(\": {}}}", "{\"patternProperties\": 1}", "{\"properties\": 1}", "{\"properties\": {\"k\": {\"maximum\": -1}}}", "{\"additionalProperties\": false}", "{\"additionalProperties\": {\"type\": \"null\"}}",
	"{\"required\": 1}", "{\"required\": [1]}", "{\"required\": [\"none\"]}", "{\"minProperties\": 3}", "{\"minProperties\": \"x\"}", "{\"maxProperties\": 1}", "{\"maxProperties\": \"x\"}",
	"{\"items\": [{\"type\": \"string\"}], \"additionalItems\": false}", "{\"items\": [{}], \"additionalItems\": {\"type\": \"integer\"}}", "{\"items\": [{}], \"additionalItems\": false}", "{\"items\": {\"type\": \"integer\"}}", "{\"uniqueItems\": 1}", "{\"uniqueItems\": true}", "{\"minItems\": 4}", "{\"minItems\": []}", "{\"maxItems\": 1}", "{\"maxItems\": []}",
	"{\"format\": \"date\"}", "{\"format\": \"time\"}", "{\"format\": \"regex\"}", "{\"format\": \"date-time\"}", "{\"format\": \"ipv6\"}", "{\"format\": \"uri\"}", "{\"format\": \"email\"}", "{\"pattern\": \"^t\"}", "{\"pattern\": \"(\"}", "{\"pattern\": 1}", "{\"minLength\": 3}", "{\"minLength\": null}", "{\"maxLength\": 3}", "{\"maxLength\": null}",
	"{\"minimum\": 3}", "{\"minimum\": -3, \"exclusiveMinimum\": true}", "{\"minimum\": null}", "{\"maximum\": -1}", "{\"maximum\": 4, \"exclusiveMaximum\": true}", "{\"maximum\": null}", "{\"multipleOf\": 7}", "{\"multipleOf\": 0.5}", "{\"divisibleBy\": 0.3}", "{\"multipleOf\": 0}",
	"{\"enum\": [1, \"a\"]}", "{\"enum\": 1}", "{\"type\": \"integer\"}", "{\"type\": \"null\"}", "{\"type\": \"odd\"}", "{\"type\": [\"null\", \"object\"]}", "{\"type\": \"boolean\"}", "{\"type\": \"number\"}", "{\"$ref\": \"#\"}", "{\"$ref\": \"#/d/%41%7e1\", \"d\": {\"A/\": {\"type\": \"string\"}}}", "{\"id\": \"http://example.com/x#\", \"$ref\": \"#/d\", \"d\": {\"type\": \"string\"}}",
};
static const int NRULES = sizeof(RULES) / sizeof(*RULES);

static std::vector<Op> make_wide() {
	std::vector<Op> o;
	auto add = [&](const std::string &n, F f) { o.push_back({strdup(n.c_str()), f}); };
	add("every error", [](int w) { typedef VariantDefines D; std::string s; for (int t = D::NullType; t <= D::BlobType + 1; ++t) { D::Type_t y = D::Type_t(t); auto e = [&](const std::exception &x) { s += x.what(); s += "\n"; }; e(UnknownTypeError(y)); e(UnexpectedTypeError(y, D::MapType)); e(UnexpectedTypeError(std::vector<D::Type_t>(1 + w, y), D::ListType)); e(UnableToConvertError(y, tag(w))); e(TypeNotIndexableError(y)); e(NotNumericTypeError(y)); e(BadPathError(y)); e(BadPathError(tag(w))); e(InvalidReferenceError(tag(w))); e(InvalidOperationError(y, tag(w))); e(KeyError(tag(w))); } return s; });
	add("every conversion", [](int w) { std::string s; for (auto &k : kinds(w)) for (int how = 0; how < 3; ++how) { Variant v = k.Copy(), m; VariantRef r = v.Ref(), p = m["x"]; Variant &x = how == 0 ? v : how == 1 ? (Variant &)r : (Variant &)p; if (how == 2) m["x"] = k.Copy();
		s += tell([&] { return num(x.AsBool()); }) + tell([&] { return num(x.AsInt()); }) + tell([&] { return num(x.AsUnsigned()); }) + tell([&] { return num(long(x.AsLongDouble() * 100)); }) + tell([&] { return x.AsString(); }) + tell([&] { return num(x.Size()); }) + tell([&] { return num(x.Empty()); }) + tell([&] { return num(x.AsBlob()->GetTotalLength()); }) + tell([&] { return num(((const Variant &)x).AsBlob()->GetTotalLength()); })
			+ tell([&] { return num(((const Variant &)x).AsList().size()); }) + tell([&] { return num(((const Variant &)x).AsMap().size()); }) + tell([&] { return num(x.Contains(1u)); }) + tell([&] { return num(x.Contains("k")); }) + tell([&] { return num(x.Index(Variant(w))); }) + tell([&] { return sv(x.Get(1u)); }) + tell([&] { return sv(x.Get("k")); }) + tell([&] { return sv(x.Get(7u, w)); }) + tell([&] { return sv(x.Get("no", w)); }) + tell([&] { return sv(x.GetPath("l[0]")); }) + tell([&] { return sv(x.GetPath("[1]")); }) + tell([&] { return sv(x.Neg()); }) + tell([&] { return num(x.Exists()) + num(x.GetType()); }); }
		return s; });
	add("every change", [](int w) { std::string s; for (auto &k : kinds(w)) for (int how = 0; how < 3; ++how) for (int act = 0; act < 14; ++act) { Variant v = k.Copy(), m; VariantRef r = v.Ref(), p = m["x"]; Variant &x = how == 0 ? v : how == 1 ? (Variant &)r : (Variant &)p;
		s += tell([&]() -> std::string { switch (act) { case 0: ++x; break; case 1: --x; break; case 2: x.Clear(); break; case 3: x.Append(tag(w)); break; case 4: x.Set(2u, tag(w)); break; case 5: x.Set("k", tag(w)); break; case 6: x.Erase(1u); break; case 7: x.Erase("k"); break; case 8: x.SetPath("a[1]/b", w); break; case 9: x.ErasePath("l[0]"); break; case 10: x.At(3u, Variant(w)) = 1; break; case 11: x.At("n", Variant(w)) = 1; break; case 12: x.AtPath("q/r", Variant(w)) = tag(w); break; case 13: x.Resolve(Variant(w)); break; } return sv(v) + sv(m); }); }
		return s; });
	add("every operator", [](int w) { std::string s; auto K = kinds(w); for (auto &a : K) for (auto &b : K) for (int op = 0; op < 5; ++op) s += tell([&] { Variant x = a.Copy(); switch (op) { case 0: x += b; break; case 1: x -= b; break; case 2: x *= b; break; case 3: x /= b; break; case 4: x %= b; break; } return sv(x); }); s += tell([&] { Variant x = 5u + w; x /= Variant(0u); return sv(x); }) + tell([&] { Variant x = 5 + w; x %= Variant(0); return sv(x); }); Variant t = 9 + w; VariantRef r = t.Ref(); r += 2; r -= 1; r *= 3; r /= 2; r %= 4; ++r; --r; return s + sv(t); });
	add("every comparison", [](int w) { std::string s; auto K = kinds(w); for (auto &a : K) for (auto &b : K) s += tell([&] { return num(a.Compare(b)) + num(a.Comparable(b)) + num(a == b) + num(a < b); }); return s; });
	add("proxies", [](int w) { std::string s; for (int act = 0; act < 12; ++act) { Variant m; m["a"]["b"] = w; VariantRef p = m["a"]["none"]["x"], q = m["l"][2u]; if (act & 1) m["a"]["none"]["x"].Append(tag(w)); s += tell([&]() -> std::string { switch (act / 2) { case 0: return sv(p) + sv(q); case 1: p[1u] = w; q["k"] = w; break; case 2: p.Append(w); q.Append(1); break; case 3: p.Erase(0u); q = p; break; case 4: return sv(p.Copy()) + num(p.Exists()) + num(q.Exists()); case 5: { Variant t = m; m = Variant(); return sv(p); } } return sv(m); }); } return s; });
	add("events", [](int w) { EventBuffer b; b.BeginDocument(); b.BeginMap(-1); const char *K[] = {"n", "t", "f", "s", "i", "u", "d", "b", "l", "m"}; for (int i = 0; i < 10; ++i) { b.Emit(K[i]); switch (i) { case 0: b.EmitNull(); break; case 1: b.EmitTrue(); break; case 2: b.EmitFalse(); break; case 3: b.Emit(tag(w).c_str()); break; case 4: b.Emit(intmax_t(w - 3)); break; case 5: b.Emit(uintmax_t(7 + w)); break; case 6: b.Emit(w + 0.5); break; case 7: b.Emit(ConstBlobPtr(Blob::CreateCopy("bytes", 3 + w))); break; case 8: b.BeginList(-1); b.Emit(intmax_t(w)); b.BeginList(0); b.EndList(); b.EndList(); break; case 9: b.BeginMap(0); b.EndMap(); break; } } b.EndMap(); b.EndDocument();
		EventBuffer c(b), d; d = c; std::string s = num(b.Equal(c)) + num(d.Equal(b)); { std::ostringstream os; for (unsigned i = 0; i < b.NumEvents(); ++i) os << b.GetEvent(i) << "\n"; s += os.str(); } for (SerializeType t : {SERIALIZE_JSON, SERIALIZE_YAML, SERIALIZE_XMLPLIST}) s += tell([&] { std::stringbuf sb; Emitter x = CreateEmitter(CreateEmitterOutput(&sb), t); b.Playback(x); x.Close(); return sb.str(); }); return s; });
	for (int t = 0; t < 4; ++t) {
		static const char *T[] = {"JSON", "YAML", "XML", "bundle headers"};
		add(std::string("emit ") + T[t] + " event by event", [t](int w) { std::stringbuf sb; return tell([&] { Emitter e = CreateEmitter(CreateEmitterOutput(&sb), ALL[t]); e.BeginDocument(); e.BeginMap(); e.Emit("a"); e.Emit(tag(w)); e.Emit("l"); e.BeginList(); e.Emit(intmax_t(w)); e.Emit(uintmax_t(4)); e.Emit(w / 3.0); e.Emit(true); if (t < 3) e.EmitNull(); e.EndList(); e.EndMap(); e.EndDocument(); e.Flush(); e.Close(); return std::string(); }) + sb.str(); });
		add(std::string(T[t]) + " parameters", [t](int w) { std::stringbuf sb; std::string s = tell([&] { Emitter e = CreateEmitter(CreateEmitterOutput(&sb), ALL[t]); std::string q; static const std::pair<const char *, const char *> P[] = {{"pretty", "true"}, {"indent", "3"}, {"precision", "4"}, {"strict", "false"}, {"scalar_style", "double quoted"}, {"map_style", "flow"}, {"list_style", "flow"}, {"width", "40"}, {"implicit_document_begin", "false"}, {"implicit_document_end", "false"}}; for (auto &p : P) { if (w || p.first[0] != 'i') e.SetParam(p.first, p.second); q += sv(e.GetParam(p.first)); } Variant all = e.GetParams(); q += sv(all); e.SetParams(all); Variant v; v["x"] = 1 / 3.0; v["y"].Append(1).Append(tag(w)); v["s"] = "a long text that has to be wrapped somewhere in the middle of it all"; e << v; e.Close(); return q; }); return s + sb.str(); });
		add(std::string("unusual values in ") + T[t], [t](int w) { std::string s; double zero = 0; std::vector<Variant> V = {Variant(1 / (zero + 1e-320 * 0)), Variant(-1e308 * 10), Variant(0 / zero), Variant(w ? 1e300 : 100.0), Variant("a\1\x1f\x7f\b\f\r\t\n" + tag(w)), Variant(std::string("\0x", 2)), Variant(std::string(70 + w, 'x')), Variant(std::string(5000 + w, 'y')), Variant("\xf0\x9f\x98\x80"), Variant("\xff"), Variant("- a: b"), Variant(" "), Variant(""), Variant(Blob::CreateCopy(std::string(200 + w, 'b').data(), 200)), Variant(INTMAX_MIN), Variant(UINTMAX_MAX)}; for (auto &v : V) s += tell([&] { Variant m; m["v"] = v; std::string x = Serialize(m, ALL[t]); return x + tell([&] { return sv(Deserialize(x, ALL[t])); }); }); return s; });
		add(std::string("deep and long ") + T[t], [t](int w) { Variant v, d; for (int i = 0; i < 30; ++i) v["k" + num(i)] = i + w; if (t < 3) { d = w; for (int i = 0; i < 40; ++i) { Variant x; if (i % 2) x["in"] = d; else x.Append(d); d = x; } v["d"] = d; } Variant p; p["pretty"] = true; p["indent"] = 8; return tell([&] { std::string x = Serialize(v, ALL[t], p); return x + sv(Deserialize(x, ALL[t])); }); });
		add(std::string(T[t]) + " into memory, files and streams", [t](int w) { Variant v; v["a"] = tag(w); v["b"] = w; std::string s, f = scratch(w) + "w"; char buf[4000]; s += tell([&] { return std::string(buf, Serialize(buf, sizeof buf, v, ALL[t])); }); s += tell([&] { char tiny[4]; return num(Serialize(tiny, sizeof tiny, v, ALL[t])); }); s += tell([&] { Serialize(f.c_str(), v, ALL[t]); return sv(DeserializeFile(f.c_str(), ALL[t])) + sv(DeserializeGuessFile(f.c_str())); }); s += tell([&] { FILE *h = fopen(f.c_str(), "r"); std::string r = tell([&] { return sv(DeserializeGuessFile(h)); }); fclose(h); return r; }); s += tell([&] { std::filebuf b; b.open(f.c_str(), std::ios::in); return sv(DeserializeGuessFile(&b)); }); s += tell([&] { LoadAllIterator i = DeserializeAllFile(f.c_str(), ALL[t]), e; std::string r; for (; i != e; ++i) r += sv(*i); return r; }); s += tell([&] { std::string x = Serialize(v, ALL[t]); std::stringbuf b(x); LoadAllIterator i = DeserializeAllFile(&b, ALL[t]), e; std::string r = sv(DeserializeGuess(x)) + sv(DeserializeGuess(x.c_str())); for (; i != e; ++i) r += sv(*i); return r; }); unlink(f.c_str()); return s; });
		add(std::string("payload with ") + T[t], [t](int w) { Variant v; v["a"] = tag(w); const char *path = t == 3 ? "payload.data" : "payload/data"; if (t == 3) v[path] = Blob::CreateCopy("payload bytes", 8 + w); else v.SetPath(path, Variant(Blob::CreateCopy("payload bytes", 8 + w))); std::string f = scratch(w) + "p", s; char buf[4000]; s += tell([&] { return std::string(buf, SerializeWithPayload(buf, sizeof buf, v, ALL[t])); }); s += tell([&] { SerializeWithPayload(f.c_str(), v, ALL[t]); return sv(DeserializeWithPayloadFile(f.c_str(), ALL[t])); }); s += tell([&] { FILE *h = fopen(f.c_str(), "r"); std::string r = tell([&] { return sv(DeserializeWithPayloadFile(h, ALL[t])); }); fclose(h); return r; }); s += tell([&] { std::string x = SerializeWithPayload(v, ALL[t]); std::stringbuf b(x); return sv(DeserializeWithPayloadFile(&b, ALL[t])) + tell([&] { return sv(DeserializeWithPayload(x.data(), x.size(), ALL[t], Variant(), false)); }) + tell([&] { return sv(DeserializeWithPayload(x.substr(0, x.size() - 3), ALL[t])); }); }); unlink(f.c_str()); return s; });
	}
	add("parser steps", [](int w) { std::string s; for (int t = 0; t < 3; ++t) { Variant v; v["a"].Append(w).Append(Variant(Variant::MapType)); v["b"] = Variant(Variant::ListType); std::string x = Serialize(v, ALL[t]); if (w) x += x; s += tell([&] { std::string q; Parser p = CreateParser(CreateParserInput(x.data(), (unsigned)x.size()), ALL[t]); q += num(p.Ok()) + num(p.Error()) + num(p.Done()) + sv(ParseVariant(p)) + num(p.Ok()) + num(p.Error()) + p.ErrorStr(); p.Reset(); return q + num(p.Ok()) + num(p.Done()); }); } return s; });
	add("odd XML", [](int w) { std::string s; for (const char *t : {"<plist><dict/></plist>", "<plist><array/></plist>", "<plist><array><integer/></array></plist>", "<plist><array><real/></array></plist>", "<plist><array><string/></array></plist>", "<plist><array><data/></array></plist>", "<plist><dict><key/><true/></dict></plist>", "<plist><array><true></true><false></false><null></null><null/></array></plist>", "<plist><odd/></plist>", "<plist><array><integer>x</integer><real>1e400</real></array></plist>", "<plist><!-- c --><array><string>&lt;<![CDATA[&]]>&#65;</string></array></plist>"}) s += attempt(w ? t : std::string("<?xml version=\"1.0\"?>") + t, SERIALIZE_XMLPLIST); return s; });
	add("odd bundle headers", [](int w) { std::string s; for (const char *t : {"", "a: 1\n", "a: \"x\\\"y\"\n", "a: 1|2|\"b|c\"\n", "a\n", "a: 'q'\nb.c.d: -1\n", ": x\n", "a: |\n", "a: b\\nc\n", "l: |1|2\n"}) s += attempt((w ? "z: 9\n" : "") + std::string(t), SERIALIZE_BUNDLEHDR); return s; });
	add("odd JSON", [](int w) { std::string s; for (const char *t : {"", "[", "]", "[1,]", "{\"a\":}", "[1.5e+3, -0, 0.0, 1E2]", "[\"\\b\\f\\n\\r\\t\\/\\\\\\\"\\u0001\"]", "[tru]", "[\"a", "{\"a\" 1}", "/* c */ [1]", "[01]", "[-]", "[1.]", "[\"\\x\"]", "[\"\1\"]", "[1] x"}) s += attempt((w ? " " : "\n") + std::string(t), SERIALIZE_JSON); return s; });
	add("odd YAML", [](int w) { std::string s; for (const char *t : {"", "a: !!str 1", "a: !!int x", "a: !x y", "a: !!binary \"!\"", "? [a]\n: b", "{a: 1}: 2", "&x a: *x", "- -.inf\n- +.INF\n- .nan\n- 0b11\n- 1_000\n- 0x\n- ~\n- Null\n- TRUE\n- off\n- 1e5\n- +3\n- 007", "--- |\n x\n...\n--- >\n y", "a: \"\\x41\\u00e9\"", "a: 'it''s'", "[1", "a: b: c", "%x", "- a\n b: c", "a: *x", "\"\\q\"", "{a: 1", "a: 1\n\tb: 2"}) s += attempt((w ? "# c\n" : "") + std::string(t), SERIALIZE_YAML); return s; });
	add("unreadable input", [](int) { std::string s; for (SerializeType t : ALL) { FILE *f = fopen("/", "r"); s += tell([&] { return sv(DeserializeFile(f, t)); }); if (f) fclose(f); } return s; });
	add("odd paths", [](int w) { std::string s; for (const char *t : {"", "a", "a/b", "a[1]", "a[x]", "a[", "[0][1]/b", "a\\/b", "a\\[0\\]", "/", "a//b", "a[1]b", "a\\"}) s += tell([&] { Path p = ParsePath(t); return PathString(p) + num(p.size()); }); Variant v; v.SetPath("a[1]/b", tag(w)); return s + sv(v); });
	for (int k = 0; k < 4; ++k) add("schema rules " + num(k), [k](int w) { std::string s; for (int i = k; i < NRULES; i += 4) { Variant rule = Deserialize(RULES[i], SERIALIZE_JSON), twice; twice.Append(7 + w).Append(tag(w)).Append(tag(w)).Append(7 + w); std::vector<Variant> data = kinds(w); data.push_back(twice); data.push_back(4); data.push_back("a longer " + tag(w)); for (auto &v : data) s += tell([&] { SchemaResult r = SchemaValidate(rule, v); std::string q = errors(r); for (auto &e : r.GetErrors()) q += e.PrettyPrintMessage() + e.GetMessage() + e.GetSchemaPathStr() + e.GetDataPathStr(); for (auto &e : r.GetSchemaErrors()) q += e.PrettyPrintMessage(); return q; }); } return s; });
	add("schema defaults", [](int w) { std::string s; for (const char *t : {"{\"default\": {\"a\": 1}}", "{\"properties\": {\"k\": {\"default\": 1}, \"z\": {\"default\": {\"q\": []}}, \"y\": {\"properties\": {\"x\": {\"default\": 2}}}}}", "{\"items\": {\"default\": 7}}", "{\"items\": [{\"default\": 1}, {}, {\"default\": \"x\"}]}", "{\"properties\": {\"p\": {\"$ref\": \"#/d\"}}, \"d\": {\"default\": true}}"}) for (auto &k : kinds(w)) s += tell([&] { Variant v = k.Copy(); AddSchemaDefaults(Deserialize(t, SERIALIZE_JSON), v.Ref()); return sv(v); }); return s; });
	add("schema files", [](int w) { std::string d = scratch(w) + "d", s; mkdir(d.c_str(), 0700); std::string f = d + "/s.json"; FILE *h = fopen(f.c_str(), "w"); fputs("{\"type\": \"object\", \"d\": {\"type\": \"string\"}}", h); fclose(h); AdvSchemaLoader l; l.AddPath(d); for (const std::string &u : {std::string("s.json"), f, "file://" + f, std::string("s.json#/d"), std::string("none.json"), "file://" + d + "/none"}) { Variant t; t["$ref"] = u; std::string q = tell([&] { return errors(SchemaValidate(t, value(w), &l)); }); for (size_t i; (i = q.find(d)) != std::string::npos;) q.replace(i, d.size(), "DIR"); s += q; } unlink(f.c_str()); rmdir(d.c_str()); return s; });
	add("loader with handler", [](int w) { SchemaLoader base, l(&base); static auto H = [](SchemaLoader *x, const std::string &u, SchemaLoader::LoaderError &e, void *c) -> bool { if (u.find("yes") == std::string::npos) { e.AddError(u, "not here"); return false; } Variant t; t["type"] = *(int *)c ? "object" : "array"; x->AddSchema(u, t); return true; }; int me = w; l.SetMissingHandler(+H, &me); std::string s; for (const char *u : {"http://e/yes", "http://e/no", "http://e/%79es", "b/yes#/type"}) { Variant t; t["$ref"] = u; s += tell([&] { return errors(SchemaValidate(t, value(w), &l)); }); } l.ForgetSchema("http://e/yes"); return s + tell([&] { return sv(l.GetSchema("http://e/yes")); }); });
	add("odd URIs", [](int w) { std::string s; for (const char *b : {"", "http://h", "http://h/a/b/", "file:///a/./b", "a/../../b", "urn:x:y"}) for (const char *u : {"", "..", ".", "../..", "/x/../y", "%41%", "a%zz", "http:", "#%20f", "?a=b#c", "//o/p"}) s += SchemaLoader::ResolveURI(u, std::string(b) + (w ? "" : "q")) + " "; return s; });
	add("more pointers", [](int w) { std::string s; for (const char *p : {"", "/", "/l", "/l/0", "/l/-", "/l/01", "/l/9", "/m~1n", "/m~0n", "/m~2", "/none/x", "x"}) for (int act = 0; act < 7; ++act) s += tell([&] { Variant v; v["l"].Append(w).Append("x"); v["m/n"] = 1; v["m~n"] = 2; v["q"]["r"] = tag(w); switch (act) { case 0: return sv((Variant)JSONPointerLookup(p, v.Ref())); case 1: JSONPointerAdd(p, v.Ref(), tag(w)); break; case 2: JSONPointerRemove(p, v.Ref()); break; case 3: JSONPointerReplace(p, v.Ref(), w); break; case 4: JSONPointerMove("/q", p, v.Ref()); break; case 5: JSONPointerCopy(p, "/new", v.Ref()); break; case 6: return FormJSONPointer(ParsePath(p)); } return sv(v); }); return s; });
	add("failing patches", [](int w) { std::string s; for (const char *t : {"1", "[1]", "[{}]", "[{\"op\": \"odd\", \"path\": \"/a\"}]", "[{\"op\": \"add\", \"path\": \"/a\"}]", "[{\"op\": \"remove\", \"path\": \"/l/0\"}, {\"op\": \"test\", \"path\": \"/a\", \"value\": 9}]", "[{\"op\": \"move\", \"from\": \"/l\", \"path\": \"/z\"}, {\"op\": \"copy\", \"from\": \"/z\", \"path\": \"/y\"}, {\"op\": \"replace\", \"path\": \"/a\", \"value\": []}, {\"op\": \"remove\", \"path\": \"/none\"}]", "[{\"op\": \"add\", \"path\": \"/l/-\", \"value\": {\"q\": 1}}, {\"op\": \"test\", \"path\": \"/l/2/q\", \"value\": 1}]"}) s += tell([&] { Variant v; v["a"] = w; v["l"].Append(1).Append(tag(w)); std::pair<bool, std::string> r = JSONPatch(v.Ref(), Deserialize(std::string("{\"p\": ") + t + "}", SERIALIZE_JSON).Get("p")); return num(r.first) + r.second + sv(v); }); return s; });
	add("differences", [](int w) { std::string s; auto K = kinds(w); for (auto &a : K) for (auto &b : K) s += tell([&] { Variant x, y; x["v"] = a; y["v"] = b; return sv(JSONDiff(x, y)); }) + tell([&] { return sv(RDiff(a, b)); }) + tell([&] { Variant x = a.Copy(); RUpdate(x.Ref(), b); return sv(x); }); return s; });
	add("extension parameters", [](int w) { std::string s; Variant p = ExtensionParams(); for (int f = 0; f < 4; ++f) { p["noSimpleLists"] = (f & 1) != 0; p["pathPrefix"] = f & 2 ? "." : ""; p["pathDelimiter"] = f & 2 ? "." : "/"; s += tell([&] { Variant v = FlattenPath(value(w), p); std::string q = sv(v) + sv(ExpandPath(v, p)); for (auto &e : FlattenPathToStrStrMap(value(w), p)) q += e.first + e.second; return q; }); } return s; });
	add("blobs", [](int w) { std::string s; char mem[] = "referenced memory"; BlobPtr a = Blob::CreateCopy("abcdefgh", 4 + w), b = Blob::CreateReferenced(mem, 5 + w), c = a->Copy(); s += num(a->GetTotalLength()) + num(b->GetTotalLength()) + num(c->Compare(a)) + num(a->Compare(b)) + num(c->GetNumBuffers()); return s; });
	add("describe options", [](int w) { std::string s; auto make = [w](ArgParse &a) { a.SetDescription(tag(w)); a.SetEpilog("end"); a.AddOption("n", 'n', "num", "a number").Type(ARGTYPE_INT).Minimum(0).Maximum(5 + w).Default(1); a.AddOption("c", 'c', "choice").AddChoice("x").AddChoice(tag(w)); a.AddOption("l", 'l', "list").Action(ARGACTION_APPEND).Type(ARGTYPE_STRING).MinLength(1).Pattern("^a"); a.AddFlag("f", 'f', "flag").Env("NOT_SET"); a.AddArgument("file", "a file").MinArgs(0).MaxArgs(2); a.AddGroup("g", "Group", "of options").Add("n").Add("c").MutuallyExclusive(); a.AddConfigDefaults(); }; s += tell([&] { ArgParse a("prog"); make(a); a.Validate(); return sv(a.GetDescription()) + sv(a.GenerateSchema()) + a.GetProgramName(); }) + tell([&] { ArgParse a("prog"), b("other"); make(a); b.Merge(a.GetDescription()); b.Merge(a); b.At("n").Default(w); return sv(b.GetDescription()); }) + tell([&] { ArgParse b; Variant v; v["options"].Append(w); b.Merge(v); return sv(b.GetDescription()); }); return s; });
	return o;
}

struct Exec { bool ok; int status; int npoints, late, races, deadlock; std::string race, res[2]; long accesses, syncs; int switches; };
static Exec run(const Op &a, const Op &b, const sched::Plan &p) {
	Exec x; F fa = a.run, fb = b.run;
	sched::set_up = a.shared || b.shared ? make_common : 0;
	x.ok = sched::execute([fa]() { return fa(0); }, [fb]() { return fb(1); }, p, x.status);
	sched::Out *o = sched::out;
	x.npoints = o->npoints; x.late = o->late; x.races = o->races; x.deadlock = o->deadlock; x.race = o->race; x.accesses = o->accesses; x.syncs = o->syncs; x.switches = o->switches;
	for (int i = 0; i < 2; ++i) x.res[i].assign(o->res[i], o->len[i]);
	return x;
}
static std::string alone(const std::vector<Op> &ops, int i, int who) {
	static std::map<std::pair<const Op *, int>, std::string> memo;
	auto k = std::make_pair(&ops[i], who);
	if (!memo.count(k)) {
		int st; F f = ops[i].run; sched::Plan p = {0, 0, {0}, true}; int h = sched::nhot; sched::nhot = 0;
		sched::set_up = ops[i].shared ? make_common : 0;
		bool ok = sched::execute([f, who]() { return f(who); }, []() { return std::string(); }, p, st);
		sched::nhot = h;
		memo[k] = ok ? std::string(sched::out->res[0], sched::out->len[0]) : "died";
	}
	return memo[k];
}
static void judge(mc::Run &r, const std::vector<Op> &ops, int a, int b, const Exec &x) {
	std::string how = mc::fmt("\"%s\" and \"%s\"", ops[a].name, ops[b].name);
	if (x.races) r.fail("race", "%s: %s", how.c_str(), x.race.c_str());
	if (x.deadlock) r.fail("deadlock", "%s wait for one another for ever", how.c_str());
	if (!x.ok) r.fail("died", "%s: the process ended with status %d%s", how.c_str(), x.status, WIFSIGNALED(x.status) ? mc::fmt(" (signal %d)", WTERMSIG(x.status)).c_str() : "");
	for (int i = 0; i < 2; ++i) {
		std::string want = alone(ops, i ? b : a, i);
		if (x.res[i] != want) r.fail("result", "%s: thread %d got %.700s but alone gets %.700s", how.c_str(), i, mc::esc(x.res[i]).c_str(), mc::esc(want).c_str());
	}
}
// All executions of a pair of operations with up to one switch.  Which synchronisation objects both
// threads use is found on the way: whenever an execution shows another one, the pair starts over.
struct Pair {
	int a = -1, b = -1, restarts = 0; std::map<std::string, Exec> seen;
	static std::string key(const sched::Plan &p) { std::string s = mc::fmt("%d", p.first); for (int i = 0; i < p.n; ++i) s += mc::fmt(",%d", p.at[i]); return s; }
	bool once(const std::vector<Op> &ops, const sched::Plan &p) {
		Exec x = run(ops[a], ops[b], p);
		seen[key(p)] = x;
		if (!x.ok || x.races || !x.late) return true;
		std::vector<uintptr_t> all(sched::hot, sched::hot + sched::nhot);
		all.insert(all.end(), sched::out->hot, sched::out->hot + sched::out->nhot);
		std::sort(all.begin(), all.end()); all.erase(std::unique(all.begin(), all.end()), all.end());
		if (all.size() > sched::MAXHOT) all.resize(sched::MAXHOT);
		std::copy(all.begin(), all.end(), sched::hot); sched::nhot = all.size();
		return false;
	}
	bool sweep(const std::vector<Op> &ops, int maxpoints) {
		seen.clear();
		for (int first = 0; first < 2; ++first) { sched::Plan p = {first, 0, {0}, false}; if (!once(ops, p)) return false; }
		for (int first = 0; first < 2; ++first) {
			sched::Plan p = {first, 0, {0}, false}; int n = std::min(seen[key(p)].npoints, maxpoints);
			for (int k = 0; k < n; ++k) { p.n = 1; p.at[0] = k; if (!once(ops, p)) return false; }
		}
		return true;
	}
	void prepare(const std::vector<Op> &ops, int x, int y, int maxpoints) {
		if (a == x && b == y) return;
		a = x; b = y; sched::nhot = 0; restarts = 0;
		while (!sweep(ops, maxpoints) && ++restarts < 50) {}
	}
};

static void pairs(mc::Run &r, const std::vector<Op> &ops, bool alike, int maxswitch, int maxpoints) {
	int a = r.choose(ops.size()), b = alike ? a : a + r.choose(ops.size() - a);
	r.note("%s / %s", ops[a].name, ops[b].name);
	static Pair pairs[2]; Pair &pair = pairs[alike];
	pair.prepare(ops, a, b, maxpoints);
	sched::Plan p = {r.choose(2), 0, {0}, false};
	r.note("thread %d starts", p.first);
	for (;;) {
		auto it = pair.seen.find(Pair::key(p));
		if (it == pair.seen.end()) it = pair.seen.insert({Pair::key(p), run(ops[a], ops[b], p)}).first;
		const Exec &x = it->second;
		judge(r, ops, a, b, x);
		if (r.fresh()) { r.step(x.syncs); r.state(mc::fmt("%d %d ", a, b) + it->first); r.outcome(x.res[0] + "|" + x.res[1]); }
		if (p.n == maxswitch) break;
		int from = p.n ? p.at[p.n - 1] + 1 : 0, n = std::min(x.npoints, maxpoints) - from;
		int c = n > 0 ? r.choose(n + 1) : 0;
		if (!c) break;
		p.at[p.n++] = from + c - 1;
		r.note("switch at %d", from + c - 1);
	}
}

int main(int argc, char **argv) {
	mc::Check c;
	c.prop = "P28"; c.level = "model_checking";
	c.rule = "Threads that parse, serialize, convert, compare and validate values of their own, or read a value in common, at the same time each get what they would get alone, with no data race, also when they are the first to use the library.";
	c.assumptions = {
		"Two threads; each execution starts in a process in which the library has not been used.",
		"Sequentially consistent interleavings; memory ordering is judged by the happens-before order of the atomics, guards, mutexes and once-controls the code uses.",
		"Memory inside libxml2, libyaml, libcurl and the C library is theirs to protect (what the C++ library does to strings, streams and containers is judged like the code's own); calls that change process-wide state (locale, static buffers, libxml2 tear-down) count as writes to it.",
		"Parsing a command line keeps its place in variables of the C library's getopt and is left to one thread; declaring and describing options is among the operations.",
		"A value in common is only looked at, written out, copied, compared or used as a schema; functions that make references into it (non-const access, JSONDiff) are not among the readers.",
	};
	static std::vector<Op> ops = make_ops();
	c.spaces.push_back({"pairs", mc::fmt("every pair of %zu operations, either thread first, every way to switch up to N times (quick 1, thorough 2) at a synchronisation operation on an object both threads use (quick: the first 24, thorough: the first 40 of them)", ops.size()),
		[](mc::Run &r) { pairs(r, ops, false, r.thorough ? 2 : 1, r.thorough ? 40 : 24); }, 2, false, 120});
	static std::vector<Op> wide = make_wide();
	c.spaces.push_back({"alike", mc::fmt("%zu further operations, each of them many calls with the values, texts and parameters that are unusual, by both threads, either first, switches as above (quick 1, thorough 2; the first 24 and 40 points)", wide.size()),
		[](mc::Run &r) { pairs(r, wide, true, r.thorough ? 2 : 1, r.thorough ? 40 : 24); }, 1, false, 120});
	return mc::run(argc, argv, c);
}
