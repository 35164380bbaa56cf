#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below, so that both stay in step
with checks/."""
import json, os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# id, title, statement, over, quantifier text, why tests cannot, files, mechanism[(name, where)], level, level note
P = []


def prop(id, title, statement, over, text, why, files, mech, level="model_checking", note=""):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, level=level, note=note))


BASE = "Real code, compiled from the working tree with AddressSanitizer and UndefinedBehaviorSanitizer; decided by complete enumeration of the bounded spaces listed in the evidence. Nothing is claimed beyond those bounds. Trusted: the reference model in checks/, the sanitizers, the compiler."

prop("P01", "JSON output is valid JSON and reads back as the same value",
     "Serializing any list or map to JSON, in any output style, produces a text that is valid RFC 8259 JSON saying exactly that value, and deserializing the text gives an equal value: same structure, types, keys, strings byte for byte, integers exactly, doubles bit for bit, blobs byte for byte. Non-finite floats are written as null.",
     ["inputs", "configurations"], "every value tree (strings of arbitrary bytes and lengths, full integer and double ranges, blobs in any number of buffers, any nesting and width) and every formatting option",
     "The tests serialize a handful of fixed documents and some random ones without digits, blanks or control characters in strings.",
     ["src/JSONEmitter.cc", "src/JSONParser.cc", "lib/json/JSON_parser.c", "src/VariantEmitting.cc", "src/VariantParsing.cc", "src/Base64.cc"],
     [("string escaping and output buffering", "src/JSONEmitter.cc EmitString/EmitRaw/EmitIndent"), ("number formatting", "src/JSONEmitter.cc Emit(double)"), ("token assembly and number conversion", "src/JSONParser.cc"), ("state machine and growing parse buffer", "lib/json/JSON_parser.c")])
prop("P02", "YAML output reads back as the same value",
     "Serializing any value to YAML, with any style, indent, width or document-marker setting, and deserializing the text gives an equal value. In particular strings that look like numbers, booleans, null or YAML syntax come back as those strings, as values and as keys, and non-finite floats survive.",
     ["inputs", "configurations"], "every value whose strings are valid UTF-8, and every emitter setting",
     "The tests use random strings that exclude digits, blanks and '~', so strings that resemble other types are never tried.",
     ["src/YAMLEmitter.cc", "src/YAMLParser.cc", "src/GuessScalar.cc", "src/VariantParsing.cc"],
     [("scalar emission and quoting", "src/YAMLEmitter.cc"), ("plain scalar typing", "src/GuessScalar.cc"), ("event to value construction", "src/VariantParsing.cc")])
prop("P03", "XML property list output reads back as the same value",
     "Serializing any value to an XML property list, compact or pretty with any indentation, produces well-formed XML, and deserializing it gives an equal value, including empty and whitespace-only strings, markup characters, nested empty containers and blobs.",
     ["inputs", "configurations"], "every value whose strings consist of characters XML can represent, every formatting option",
     "The tests round-trip one fixed document and random strings without blanks.",
     ["src/XMLPLISTEmitter.cc", "src/XMLPLISTParser.cc", "src/VariantParsing.cc"],
     [("element and text emission", "src/XMLPLISTEmitter.cc"), ("reader state machine", "src/XMLPLISTParser.cc ProcessNode")])
prop("P04", "Bundle headers read back as the same map",
     "Serializing a flat map of scalars and lists of scalars as a bundle header and deserializing the text gives the same keys with the same values, each scalar read back with the type its text denotes (headers are untyped: null comes back as the empty string and booleans as 1 or 0). Values the format cannot hold (nested maps, lists in lists, a root that is not a map) are refused with an exception.",
     ["inputs"], "every flat map whose keys and strings avoid the format's delimiters",
     "The tests round-trip one fixed map.",
     ["src/BundleHdrEmitter.cc", "src/BundleHdrParser.cc", "src/GuessScalar.cc"],
     [("line emission", "src/BundleHdrEmitter.cc"), ("line splitting and list detection", "src/BundleHdrParser.cc")])
prop("P05", "Blobs keep their bytes, ordering and ownership",
     "A blob's content is the concatenation of its buffers: its total length, copies, equality and ordering depend only on those bytes, whatever the buffer boundaries, and its base64 form encodes exactly those bytes and decodes to them, ignoring line breaks. Memory handed to a blob is released through the agreed function exactly once per buffer, when the last owner goes away, and copies never share memory with the original.",
     ["inputs", "histories"], "every byte content, every division into buffers, every creation mode and every order of copying and dropping",
     "The tests encode random data of one buffer layout and never compare differently divided blobs.",
     ["src/Blob.cc", "include/Variant/Blob.h", "src/Base64.cc"],
     [("buffer-wise comparison", "src/Blob.cc Compare"), ("copy and release", "src/Blob.cc Copy, ~Blob"), ("streaming encoder", "src/Base64.cc Base64Encode(iovec)")])
prop("P06", "Payload framing preserves header and payload",
     "Serializing a value with a binary payload writes the header text, a null byte and exactly the payload bytes, with the recorded length equal to the payload size unless overridden; deserializing gives the same header values, length and payload bytes back whatever the sizes of header and payload. A truncated or missing payload is reported, never read past the data.",
     ["inputs", "configurations"], "every header format, header length, payload content and length, and path setting",
     "The tests use two fixed sizes of one bundle.",
     ["src/Payload.cc", "src/BundleHdrEmitter.cc", "src/BundleHdrParser.cc"],
     [("length prediction and alignment", "src/Payload.cc"), ("header/payload split", "src/Payload.cc ProxyInput")])
prop("P07", "How input arrives does not change what is parsed",
     "For every format, deserializing a given text produces the same value or the same failure whether it comes from memory, a string, a file, a stream or a custom input, and however the input divides it into reads.",
     ["inputs", "fault_sequences"], "every text and every division of it into successive reads, including reads of one byte and boundaries inside tokens, escapes and multi-byte characters",
     "The tests feed whole strings or small files; a read never ends inside a token.",
     ["src/ParserInput.cc", "src/Parser.cc", "src/JSONParser.cc", "src/YAMLParser.cc", "src/XMLPLISTParser.cc", "src/BundleHdrParser.cc"],
     [("buffered input window", "src/ParserInput.cc ParserStreamInput"), ("read callbacks of the format parsers", "src/YAMLParser.cc, src/XMLPLISTParser.cc")])
prop("P08", "Output reaches the destination completely or an error is reported",
     "For every format and destination, when serialization returns normally the destination has received exactly the serialized text, however few bytes each write accepts; when the destination fails or is full an exception is raised, what was delivered is a prefix of the text, and nothing crashes, hangs or leaks. A memory destination is never written beyond its stated size and the reported size is exact.",
     ["fault_sequences", "inputs"], "every sequence of full, partial, and failing writes at every point of the output, and every memory buffer size",
     "The tests only write to destinations that accept everything.",
     ["src/EmitterOutput.cc", "src/JSONEmitter.cc", "src/YAMLEmitter.cc", "src/XMLPLISTEmitter.cc", "src/BundleHdrEmitter.cc", "src/VariantEmitting.cc"],
     [("destination writes", "src/EmitterOutput.cc"), ("write loops of the emitters", "EmitRaw, WriteHandler, DoWrite"), ("closing on destruction", "emitter destructors")], "fault_enumeration")
prop("P09", "The JSON reader accepts exactly JSON and reads it correctly",
     "Deserializing a text whose first document is a JSON object or array succeeds if and only if that document conforms to RFC 8259, extended only by /* */ comments (without control characters) where whitespace may stand and by numbers with nothing after the decimal point, and the result is the value the text denotes; bytes above 0x7f in strings are taken as they are. Every other text is refused with an exception.",
     ["inputs"], "every byte string",
     "The tests check some dozen good and bad texts.",
     ["lib/json/JSON_parser.c", "src/JSONParser.cc"],
     [("transition table and comment handling", "lib/json/JSON_parser.c"), ("number conversion", "src/JSONParser.cc")])
prop("P10", "No input can crash, corrupt, leak or hang a parser",
     "For any bytes whatsoever, each parser terminates with a value or an exception without invalid memory access, undefined behaviour or leaked memory, and other parsers and later parses are unaffected.",
     ["inputs"], "every byte string in every input format, including truncations and corruptions of valid documents",
     "The tests parse well-formed documents and a few malformed ones without memory checking.",
     ["src/JSONParser.cc", "src/YAMLParser.cc", "src/XMLPLISTParser.cc", "src/BundleHdrParser.cc", "src/VariantParsing.cc", "src/Base64.cc", "lib/json/JSON_parser.c"],
     [("event handling and action stack", "src/VariantParsing.cc"), ("format parsers", "src/*Parser.cc")])
prop("P11", "Values behave as shared containers and independent scalars",
     "Copying a value that holds a list or map makes both names refer to one container, so a change through either is seen through both; assigning, deep-copying or changing scalars and strings never affects any other value; a null becomes a container when used as one and no other type changes implicitly. Failed operations leave everything as it was, and memory is freed when the last holder is gone.",
     ["histories"], "every sequence of construction, copy, assignment, element access, append, set, erase, merge, clear and deep copy over several variables",
     "The tests walk single scenarios; aliasing defects need particular sequences.",
     ["src/Variant.cc", "include/Variant/Variant.h"],
     [("shared storage and assignment", "src/Variant.cc Assign/storage"), ("auto-conversion of null", "src/Variant.cc Null"), ("element access", "src/Variant.cc List, Map")])
prop("P12", "References follow their target, or report that it is gone",
     "A reference to a value or element reads and writes exactly that value or element for as long as it exists and raises an error once it has been destroyed, never touching freed memory. Accessing a missing element through a mutable value creates nothing until something is stored through it, then creates exactly that path; reading it meanwhile raises an error and existence queries answer truthfully.",
     ["histories"], "every sequence of taking references, element proxies and paths, writing through them, re-aiming them, and destroying or reshaping their targets",
     "The tests never use a reference after its target changed shape.",
     ["src/Variant.cc", "include/Variant/VariantInternal.h", "include/Variant/Variant.h"],
     [("reference validity record", "src/Variant.cc RefData"), ("lazy proxies", "src/Variant.cc Proxy")])
prop("P13", "Paths address the element they spell",
     "Printing a path and parsing the text gives the same path back, for any keys and indices, and parsing follows the documented syntax. Getting, setting, testing and erasing by path agree with doing the same step by step; setting creates exactly the missing containers, erasing removes exactly the named element (and, on request, the containers it leaves empty), and a path that leads through a scalar is an error that changes nothing.",
     ["inputs", "histories"], "every path text, every path and every document",
     "The tests use a dozen paths over one document.",
     ["src/Path.cc", "src/Variant.cc", "include/Variant/Path.h"],
     [("path text syntax and escaping", "src/Path.cc"), ("path traversal", "src/Variant.cc GetPath, SetPath, ErasePath, HasPath")])
prop("P14", "Comparison is exact, symmetric and consistent with equality",
     "Two values compare equal exactly when they have the same content: numbers by exact mathematical value across signed, unsigned and float, strings and blobs by bytes, containers element by element, and values of different kinds never. For numbers, strings, booleans and blobs the ordering is total, antisymmetric and transitive and agrees with the usual order; equality is symmetric and transitive for all values.",
     ["inputs"], "every pair and triple of values",
     "The tests compare a few dozen pairs.",
     ["src/Variant.cc", "src/Blob.cc"],
     [("per-type comparison", "src/Variant.cc Compare"), ("numeric promotion", "src/Variant.cc numeric compare")])
prop("P15", "Numeric conversion and arithmetic give the mathematical result",
     "Reading a number as another type gives the value itself whenever the target can represent it (a fraction is dropped toward zero for an integer target), text conversions of numbers and booleans agree with their written form, and text without a leading number, containers and blobs raise an error when read as a number. Arithmetic on numbers computes in the wider of the two kinds (float over unsigned over signed) and gives the exact result whenever that kind can hold it (for division and remainder: and both operands); it raises an error for non-numbers and for integer division by zero, a failed operation changes nothing, and the other operand is never changed. Nothing crashes.",
     ["inputs"], "every pair of numeric kinds and boundary values, every operator and every conversion",
     "The tests cover about fifty operand pairs, none at the edges of the ranges.",
     ["src/Variant.cc", "include/Variant/Variant.h", "src/ParseBool.cc"],
     [("promotion and operators", "src/Variant.cc numeric operators"), ("conversions", "src/Variant.cc AsInt/AsUnsigned/AsBool/AsString")])
prop("P16", "JSON Pointer operations follow RFC 6901 and 6902",
     "Looking up, adding, removing, replacing, moving and copying by JSON Pointer does to the document exactly what RFC 6901 and RFC 6902 prescribe, including escapes, array insertion and removal with shifting, and the end-of-array marker; pointers that do not resolve, malformed pointers, invalid indices and moves into a child raise an error and leave the document unchanged. Copied values are independent of their source.",
     ["inputs", "histories"], "every document, pointer and operation",
     "The tests run the published examples, one operation each.",
     ["src/Extensions.cc", "include/Variant/Extensions.h"],
     [("pointer evaluation and escaping", "src/Extensions.cc JSONPointer*")])
prop("P17", "JSON Patch applies completely or not at all",
     "Applying an RFC 6902 patch performs its operations in order with the prescribed effect and reports success, or, if any operation or test fails or is malformed, reports failure and leaves the document exactly as it was before the patch. The patch document is never modified and shares no containers with the result, and a copied value is independent of its source.",
     ["histories", "fault_sequences"], "every document and every sequence of operations, failing at every position",
     "The tests contain few patches that fail after an earlier operation succeeded.",
     ["src/Extensions.cc"],
     [("operation sequencing and undo", "src/Extensions.cc JSONPatch")])
prop("P18", "A computed JSON diff, applied as a patch, produces the target",
     "For any two documents, applying the computed difference to the first as a patch succeeds and gives a document equal to the second; the difference of identical documents is empty, computing it changes neither document, and every pointer in it is valid for any keys.",
     ["inputs"], "every pair of documents",
     "The tests diff a few fixed pairs.",
     ["src/Extensions.cc"],
     [("recursive difference and pointer formation", "src/Extensions.cc JSONDiff, FormJSONPointer"), ("patch application", "src/Extensions.cc JSONPatch")])
prop("P19", "Flatten/expand and recursive diff/update are inverse",
     "Flattening a document lists exactly its leaves (and, when asked, lists of scalars as a whole), each under its path in the chosen style; expanding a flat form in the bracketed index style gives the document back when it has no empty containers and its keys are not empty and hold no character of the path syntax. The recursive difference of two maps holds exactly the elements of the second that the first lacks or has with another value (leaving out nulls and empty maps that would replace something); updating the first with it makes every other element of the second present with its value, leaves members the second does not name alone, and an update of a member that is missing adds it as it is. No operation changes its inputs or shares containers with them, and unusable options are refused.",
     ["inputs", "configurations"], "every document (and pair) whose keys contain no delimiter, every option",
     "The tests flatten one document.",
     ["src/Extensions.cc"],
     [("path prefixing and splitting", "src/Extensions.cc FlattenPathTo, ExpandPathTo"), ("recursion over maps and lists", "src/Extensions.cc RDiff, RUpdate")])
prop("P20", "Schema validation gives the JSON Schema draft 4 verdict",
     "Validating data against a valid schema reports an error exactly when the data violates some keyword of JSON Schema draft 4 that applies to it, for every keyword and every combination and nesting of keywords; a float without a fraction counts as an integer, lengths count characters, and a decimal fraction is a multiple when it is one in decimal. Date, time, date-time and regex formats are enforced on strings. Validation changes neither schema nor data, gives the same answer every time, gives an answer even for a wrong schema, and the built-in meta-schema accepts exactly the valid schemas.",
     ["inputs"], "every schema over the supported keywords and every data document",
     "The tests run the published suite, which exercises keywords mostly one at a time.",
     ["src/Schema.cc", "src/json-schema-v4.cc"],
     [("keyword evaluation", "src/Schema.cc"), ("meta-schema", "src/json-schema-v4.cc")])
prop("P21", "Schema references resolve to the schema they name",
     "A $ref accepts exactly the data that the schema its URI and fragment identify accepts: relative to the ids of the schemas that enclose it, by path or by an id within a document, through percent and pointer escapes, chains and recursion, whether the document was added, comes from a base loader, a missing-schema handler, a file or the network, delivered in whatever parts. A reference to a document nobody can supply, one whose fetching fails at whatever step, or to a member that is not there, is reported as an error rather than ignored. The schema given stays as it was. Splitting a URI into components and resolving a relative URI against a base follow the URI rules, for every pair of URIs whose path does not climb above its root.",
     ["inputs"], "every base/relative URI pair, every reference form, and every layout of ids and definitions",
     "The tests resolve a few fixed references.",
     ["src/SchemaLoader.cc", "src/Schema.cc"],
     [("URI resolution", "src/SchemaLoader.cc ResolveURI, ParseURI"), ("reference lookup", "src/SchemaLoader.cc GetSchema, NormSchema")])
prop("P22", "Schema defaults fill in exactly what is missing",
     "Adding schema defaults gives every absent or null property, list element and document the default its schema states, at any nesting and through references, whichever way the schema is supplied, and changes nothing else that is present. Where several schemas apply, the schema's own default comes first, then properties, items, allOf, oneOf and anyOf in order, and the first default found is kept; not, additional, pattern and dependency schemas give no defaults. A list whose items have a single schema is treated element by element, an empty or absent one as if its first element were missing. Recursive schemas come to an end, and keywords with values they cannot have are harmless. Default values arrive exactly as written, are independent copies, and the schema is unchanged.",
     ["inputs"], "every schema with defaults and every data document",
     "The tests apply defaults to two documents.",
     ["src/Schema.cc"],
     [("default propagation", "src/Schema.cc AddSchemaDefaults")])
prop("P23", "Command lines parse to the values the options declare",
     "For any set of declared options and arguments and any command line, parsing either returns a result holding for each option exactly the value its action, type and the order of occurrences determine, or ends in an error: an exception, or a message and a failure status of the program. A value from a configuration file named on the command line counts as given there; the environment variable of an option, and failing that its default, stands in only for an option that was not given. A result is returned only if every declared constraint (type, range, choice, length in characters, pattern, count, required, mutual exclusion) holds, and integers that do not fit are errors. Parsing again with the same parser is not affected by earlier parses or by changes to their results. A path into a list puts the value at that place, null before it where nothing else was given. The configuration a program prints is that result, and loading it again gives the same. However the same declarations are stated, and whatever became of the memory of earlier command lines, the outcome is the same. Option paths that lie inside one another are outside this statement.",
     ["inputs", "configurations"], "every declaration of options and every argument vector",
     "The tests parse a few dozen command lines.",
     ["src/ArgParse.cc", "src/argparse-schema.cc", "src/ParseBool.cc"],
     [("argument matching", "src/ArgParse.cc Parse"), ("type conversion", "src/ArgParse.cc"), ("constraint checking", "src/ArgParse.cc GenerateSchema")])
prop("P24", "An option parser rebuilt from its description behaves the same",
     "The description of an option parser is a valid document that states every declaration and, merged into a fresh parser, directly or through a text format, whole or in parts, gives the same description, the same generated schema and the same outcome for every command line; parsers that were merged stay independent. A description that is wrong is refused or merged without harm. Every result matches the generated schema, and the schema accepts exactly the documents the declarations allow.",
     ["configurations", "inputs"], "every declaration of options, arguments and groups, and every command line",
     "The tests merge one description.",
     ["src/ArgParse.cc", "src/argparse-schema.cc"],
     [("description export and import", "src/ArgParse.cc GetDescription, Merge"), ("description schema", "src/argparse-schema.cc")])
prop("P25", "Multi-document streams yield every document once, in order",
     "Iterating over a stream yields exactly its documents, each once and in order, including null, empty and scalar documents, then ends; a stream without documents yields none; copies of an iterator advance independently and see the same documents, and two are equal exactly when they are at the same document or both at the end; what is written to a document is seen there and nowhere else. An error in one document is reported when that document is reached and on every further try, and documents written one after another are read back.",
     ["histories", "inputs"], "every sequence of documents and every sequence of advancing, copying and comparing iterators",
     "The tests iterate over one stream of two documents.",
     ["src/VariantParsing.cc", "src/YAMLParser.cc", "src/YAMLEmitter.cc"],
     [("document iteration", "src/VariantParsing.cc LoadAllIterator"), ("document events", "src/YAMLParser.cc Run")])
prop("P26", "Event-by-event output equals serializing, and reading delivers the document",
     "Emitting a value through the event interface, with or without stated container lengths, through typed convenience operators, or by recording, copying and replaying the events, produces exactly the text that serializing the value produces, for each format. A parser delivers exactly the events of the document, whatever the events after which the handler is taken off and put back, and replayed into an emitter of the same format they reproduce the document. At every step its status tells the truth: Ok before the first step and after each that succeeded, Error with a description exactly after one that failed, Done when there is nothing more; and Reset, at any step, leaves it as good as a new parser.",
     ["histories", "inputs"], "every well-formed sequence of emitter events",
     "The tests replay random event sequences of one shape through each format.",
     ["src/Emitter.cc", "include/Variant/Emitter.h", "src/EventBuffer.cc", "src/EventBuffer.h", "src/VariantEmitting.cc"],
     [("event interface", "include/Variant/Emitter.h"), ("recording and replay", "src/EventBuffer.h")])
prop("P27", "Plain text is typed and formats are guessed by the stated rules",
     "An unquoted scalar is read as null, boolean, integer, float or string according to the documented patterns, with the exact value for every number in range, in YAML, in bundle headers and on command lines alike. When the format is not given, it is chosen from the first non-blank character, and the result equals deserializing with that format named.",
     ["inputs"], "every text",
     "The tests try a dozen scalars and one document per format.",
     ["src/GuessScalar.cc", "src/GuessFormat.cc", "src/Parser.cc"],
     [("scalar pattern", "src/GuessScalar.cc"), ("first-character rule", "src/GuessFormat.cc")])
prop("P28", "Threads working on separate values never disturb each other",
     "Threads that parse, serialize, convert, compare and validate values of their own at the same time, or that read one value in common through const access, each get the result they would get alone, with no data race, also when they are the first users of the library.",
     ["schedules"], "every interleaving of several threads' library calls on disjoint values",
     "The tests are single-threaded.",
     ["src/SchemaLoader.cc", "src/GuessScalar.cc", "src/Schema.cc", "src/XMLPLISTParser.cc"],
     [("lazily initialised shared data", "src/SchemaLoader.cc, src/GuessScalar.cc, src/argparse-schema.cc")])
prop("P29", "Running out of memory is reported and leaves values intact",
     "If a memory allocation of the library fails during an operation on values, parsing, serializing, validating or handling options, the operation raises an error or still gives the result it gives otherwise; it never crashes. Every value it does not change is unharmed, a value it changes in one step (assigning, appending, setting or erasing an element, a JSON Pointer operation) has its old or its new content, every value stays usable, the same operation works afterwards, and all memory is released.",
     ["fault_sequences"], "every operation and every allocation in it failing",
     "The tests never make an allocation fail.",
     ["src/Variant.cc", "src/VariantParsing.cc", "src/JSONParser.cc", "lib/json/JSON_parser.c", "src/Blob.cc"],
     [("exception safety of value operations", "src/Variant.cc"), ("C allocations in the JSON parser", "lib/json/JSON_parser.c")], "fault_enumeration")
prop("P30", "Emitter parameters do what they say and never change the value",
     "Every parameter of the JSON, YAML, XML and bundle header emitters reads back (GetParam, GetParams) as the value in effect, and acts the same whether it is given at creation, to Serialize, or set before or between writes, and whatever it was set to earlier. Pretty output puts each element on its own line, indented by indent spaces per level, compact output has no white space between elements; precision is the number of significant digits written; YAML styles, indent, width and explicit or implicit documents come out as asked; strict JSON refuses what JSON cannot say. With any combination of parameters the output reads back as the value written, floats to the precision asked for.",
     ["inputs", "histories"], "every combination of parameters, way to give them, and value",
     "The tests use a handful of parameters one at a time and never read them back.",
     ["src/JSONEmitter.cc", "src/YAMLEmitter.cc", "src/XMLPLISTEmitter.cc", "src/BundleHdrEmitter.cc", "src/Emitter.cc"],
     [("parameters", "include/Variant/Emitter.h"), ("indentation buffering", "src/JSONEmitter.cc:EmitIndent")])
prop("P31", "varsh writes what was asked for, or says why not and fails",
     "For each of its inputs varsh writes the requested part of the document (the path given, after setting values and flattening or expanding paths), its keys or its length, in the requested format, with the requested parameters, to the requested place, and ends with status 0 only if all of it worked. If an input, a value to set or a schema cannot be read, the path does not exist, a schema is not satisfied, the format cannot hold the value, the output cannot be opened or written, or the command line is wrong, it says so on standard error and ends with another status; it never crashes.",
     ["inputs", "configurations", "fault_sequences"], "every combination of options and inputs",
     "No test runs the tool at all.",
     ["src/varsh.cc", "src/ArgParse.cc"],
     [("the program", "src/varsh.cc:main"), ("command line errors", "src/ArgParse.cc:PrintHelp")])
prop("P32", "YAML and XML are read as the value they denote, however they are written",
     "A YAML document or XML property list denotes the same value in every presentation, and reading gives that value: in any encoding, with or without declarations, document types, directives and markers, with comments and processing instructions anywhere, in block or flow style with any indentation and line breaks, with plain, quoted, escaped, literal or folded scalars, CDATA sections and character and entity references, text in several pieces, numbers and base64 in any notation the format has, explicit keys, tags, and anchors and aliases, where an alias stands for the last node before it with the anchor; an alias to nothing is refused.",
     ["inputs"], "every value and every presentation of it",
     "The tests read a few fixed documents in one presentation each; presentations combine.",
     ["src/YAMLParser.cc", "src/XMLPLISTParser.cc", "src/VariantParsing.cc", "src/GuessScalar.cc", "src/Base64.cc"],
     [("scalar styles and tags", "src/YAMLParser.cc:ParseScalar"), ("text in pieces", "src/XMLPLISTParser.cc:ProcessText"), ("anchors", "src/VariantParsing.cc:Anchor")])
prop("P33", "Validation errors name the data and the part of the schema that disagree",
     "When data does not satisfy a schema, the result carries at least one error, and each error names a place in the data and a keyword in the schema, such that following the schema path together with the data path (through references, members, items and alternatives) leads to that keyword applied to exactly that part of the data, and that part really violates the keyword. A failed anyOf or oneOf reports why each alternative failed, each below that alternative. An error about the schema itself names the keyword that is wrong. The printed report shows the message and both paths of every error.",
     ["inputs"], "every schema and every data it refuses",
     "The tests look at verdicts; where an error points matters only for particular nestings, and each keyword builds its paths by hand.",
     ["src/Schema.cc", "include/Variant/Schema.h"],
     [("paths kept during validation", "src/Schema.cc:AutoSchemaPath"), ("errors of alternatives", "src/Schema.cc:ValidateAnyOf"), ("the printed report", "src/Schema.cc:PrettyPrintMessage")])
prop("P34", "ArgParse's help and messages tell what was declared and what went wrong",
     "Help, however it is asked for, ends with status 0 and shows the program's name, description and epilog, how many of each positional argument are needed and allowed, and every declared option and argument exactly once, under the heading of its group if that has one, with its short and long names, the value it takes or its choices, its environment variable, its description and its default. Options and groups marked advanced appear only in the advanced help. A command line that is not accepted ends with another status and a message that names the option or argument at fault (or quotes the text that is not a number); for exclusive groups it names the options in conflict, or all those of which one is required.",
     ["inputs", "configurations"], "every declaration of options and every way to ask for help or make a mistake",
     "The tests never look at the text; it is assembled from many independent attributes, so combinations matter.",
     ["src/ArgParse.cc", "include/Variant/ArgParse.h"],
     [("help", "src/ArgParse.cc:PrintHelp"), ("one entry", "src/ArgParse.cc:HelpLine"), ("names in messages", "src/ArgParse.cc:OptName")])

prop("P35", "Results do not depend on the locale of the program",
     "Whatever the C or C++ locale of the program (decimal comma, digit groups, other words for truth, character set, other upper and lower case), every format is written with the same bytes and read as the same value as in the \"C\" locale, numbers and strings convert into one another alike, paths, pointers, patches and flattened keys name the same places, schemas give the same verdict at the same places and command lines (save typed floats) the same result.",
     ["configurations", "inputs"], "every operation and value in every kind of locale",
     "The tests run in one locale only.",
     ["src/JSONEmitter.cc", "src/YAMLEmitter.cc", "src/XMLPLISTEmitter.cc", "src/BundleHdrEmitter.cc", "src/GuessScalar.cc", "src/XMLPLISTParser.cc", "lib/json/JSON_parser.c", "src/Variant.cc", "src/Path.cc", "src/Extensions.cc"],
     [("writing numbers", "src/JSONEmitter.cc:Emit"), ("typing plain text", "src/GuessScalar.cc"), ("decimal point of JSON", "lib/json/JSON_parser.c:new_JSON_parser"), ("string conversions", "src/Variant.cc:String::AsLongDouble"), ("indices", "src/Path.cc:PathString")])

NOTES = {}
TECH = {
    "model_checking": "explicit-state bounded model checking of the real code: exhaustive enumeration of choice sequences against a reference model",
    "fault_enumeration": "exhaustive enumeration of environment answers and fault points on the real code against a reference model",
}
DROP = {}   # property -> reason it is not claimed


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
            }) + "\n")
    checks, na = [], []
    for p in P:
        if p["id"] in DROP or not os.path.exists(os.path.join(VERIF, "checks", p["id"] + ".cc")):
            na.append({"property": p["id"], "reason": DROP.get(p["id"], "The check for this property is not built yet.")})
            continue
        c = "python3 run.py %s --tier " % p["id"]
        checks.append({"property": p["id"], "quick_cmd": c + "quick", "thorough_cmd": c + "thorough",
                       "evidence_file": "evidence/%s.json" % p["id"], "technique": TECH[p["level"]],
                       "level": p["level"], "level_note": (p["note"] + " " if p["note"] else "") + BASE})
    m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": na,
         "notes": "All checks build the library from /repo's working tree into /verif/.build and touch nothing else. See DESIGN.md."}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(P), "properties,", len(checks), "checks,", len(na), "not claimed")


main()
