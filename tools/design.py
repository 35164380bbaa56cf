#!/usr/bin/env python3
"""Writes DESIGN.md from design.head.md, the table below, the bounds the checks state in their
evidence files, design.tail.md and the planted-bug table."""
import glob, json, os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# id: (transition system and what a state is, oracle, what this reaches that tests do not)
D = {
"P01": ("A state is a document with its output style; the transition is write-then-read on the real emitter and parser.",
        "Two readers: an RFC 8259 reader written for this check (in mc/ref.hpp) and the library's own parser. Both must give the value back.",
        "Every byte pair, every code point, every double exponent and every fill of the emitter's 128-byte and parser's 3500-byte buffers is tried; a unit test meets such an alignment only by chance."),
"P02": ("As P01, with the emitter configuration as part of the state.",
        "Round trip through the real parser; the value enumerated is the expectation. (libyaml is trusted, but which scalars are quoted and how they are typed is libvariant's.)",
        "All words over the alphabets YAML gives meaning to, so that every string that could be mistaken for another type is met."),
"P03": ("As P01.", "libxml2's tree reader as second, independent reader; the value enumerated is the expectation.",
        "All words over markup characters and blanks; all fills of the writer's buffer."),
"P04": ("As P01; and the reverse: every text of a bounded alphabet is read.", "An independent line reader for the header format (mc/guess.hpp).",
        "Complete over texts of up to six symbols: every confusion of delimiter, blank, comment and list mark."),
"P05": ("Blob contents x buffer divisions; and for ownership, a state machine with two blob holders and two values whose operations are create (6 modes), share, copy, drop, write.",
        "Plain byte strings, a textbook base64, and an ownership model that counts releases per buffer.",
        "All divisions of both operands of a comparison and all orders of sharing and dropping; the offset bookkeeping only goes wrong for particular pairs of divisions."),
"P06": ("A message is header format x padding x payload size x paths x input; the reader's transitions are the reads of header, payload, next message.",
        "The bytes are split at the first NUL by the harness and compared with the model header and payload.",
        "All alignments of header end and payload end in the reader's window, every truncation point, sequences of messages."),
"P07": ("The environment is the model: the input answers every read with a prefix of what is left, and every such sequence of answers is explored for short texts, every cut and pair of cuts for longer ones, every failing read.",
        "The result of parsing the same bytes from one block.",
        "A file-based test delivers every text in one read; here each token, escape and multi-byte character is cut everywhere."),
"P08": ("The environment is the model: the destination answers each write and flush with full, short, empty or failing; all answer sequences with up to two deviations, and every crash point (capacity) of every document.",
        "The complete text, obtained from a destination that accepts everything; an error is required exactly if some byte was not delivered.",
        "Fault enumeration; no test makes a write fail."),
"P09": ("The text grows by one token or character per transition; branches are cut one symbol after no continuation can be valid JSON.",
        "Independent RFC 8259 reader giving both verdict and value.",
        "Exhaustive acceptance over six million texts; the state machine's tables are covered in every state for every character class."),
"P10": ("Sequences of syntax fragments, damage to good documents, deep, long and self-referential documents; after each the same process parses a good document.",
        "Sanitizers, leak check, time limit, and the good document afterwards.",
        "Memory safety for every fragment sequence, including parsers that carry on after an error."),
"P11": ("A reference heap of containers and variables; transitions are the operations of the value interface on two or three variables; every sequence up to the depth from 14 starting points.",
        "The reference heap, with container identity (sharing is part of the state).",
        "Aliasing bugs need particular sequences of copy, share and change."),
"P12": ("As P11 with references into containers as extra state.", "Reference heap in which a reference names a container and a position.",
        "Reference invalidation needs change-then-use sequences."),
"P13": ("Path texts grow by one character; operations are applied to documents with every path, and in sequences.", "Independent path reader and path operations (mc/vpath.hpp).",
        "All path texts up to six characters; every operation with every path over every document of the set."),
"P14": ("All ordered pairs of a set of boundary values in every operand form.", "Exact comparison in 128-bit and long double arithmetic.", "Integer/float boundaries around 2^53, 2^63 and 2^64 in both orders."),
"P15": ("All ordered pairs of numbers x operators x operand forms; all short texts as booleans and numbers.", "128-bit integers and long double.", "As P14."),
"P16": ("Pointer operations on documents, single, in pairs, and in sequences.", "Independent RFC 6901/6902 implementation (mc/jptr.hpp).", "Every pointer of a set of 2383, including escapes, '-', leading zeros and pointers through scalars."),
"P17": ("Patches are sequences of operations; all of one and two, three over a subset.", "Independent RFC 6902 implementation; the document before the patch for atomicity.", "Failure after any successful prefix must leave the document unchanged, also where the prefix changed shared containers."),
"P18": ("All ordered pairs of 739 documents.", "Applying the difference with the library and with the independent implementation.", "The difference algorithm is judged by its defining equation on all pairs."),
"P19": ("Documents x styles; pairs of maps.", "Independent recursive definitions.", "All pairs of settings for which flatten and expand are inverse."),
"P20": ("Schemas are sets of keyword settings; all pairs, full products of interacting groups, and two levels of combination; each against all data.", "Independent draft-4 evaluator.", "Interactions between keywords (additionalProperties with patternProperties, exclusive bounds, nesting of combinators)."),
"P21": ("URI splitting and resolution over enumerated references and bases; schema references over targets, suppliers, places, forms, escapings.", "Independent RFC 3986 implementation and the schema named.", "Products of how a schema is supplied, where the reference stands and how it is escaped."),
"P22": ("Schemas with defaults x documents x ways to supply; validation is run twice (second run is a transition from the first's result).", "Independent evaluator that fills defaults.", "Idempotence and isolation over all of them, including recursive schemas."),
"P23": ("Declarations x environments x configuration files x command lines, lines growing by one token.", "Independent command line model.", "Interactions of option kinds, defaults, environment, files and occurrences."),
"P24": ("Declarations, exported, merged and parsed again; lines and documents against the generated schema.", "The parser the description came from, the command line model of P23, and the draft-4 evaluator of P20.", "Two descriptions of one interface must agree on every line and document of the bound."),
"P25": ("Streams are sequences of documents; iterator histories are sequences of 14 operations (advance, copy, compare, write) on three iterators, over different or equal documents.", "The list the stream was composed of.", "Iterator copies at different positions share a parser; only histories show that."),
"P26": ("Event sequences of values; the set of events at which reading is suspended; points at which a recording is copied; steps after which a parser is reset, its status asked at each.", "The value, and the text Serialize gives.", "All subsets of suspension points."),
"P27": ("Scalar texts grow by one character; documents after blanks of all lengths.", "Independent recogniser of the documented pattern, without regular expressions.", "Complete over texts of five characters out of the fourteen that matter."),
"P28": ("Two threads under a scheduler of our own (mc/sched.hpp): every synchronisation operation on an object both use is a scheduling point; all schedules with one preemption (thorough: more) for every pair of operations, and for two threads running the same sweep over the rest of the interface, each in a fresh process. The C++ library's strings, streams and containers are compiled with the instrumentation, and counting references up or down is not taken to protect static objects, so a static buffer shows in every schedule.",
        "The result each operation gives alone, and a happens-before race detector over every memory access of the library (compiled with -fsanitize=thread instrumentation, our own runtime).",
        "First-use races need two threads inside an initialisation at once; the detector reports a missing order even if the explored schedule happened to be benign."),
"P29": ("The fault point is the state: each of 104 operations is run once per allocation it makes with that allocation failing, then with two failing, then with all from there on.",
        "The result without faults, the values before, and the leak check.", "Every allocation failure point of every operation."),
"P30": ("Parameter assignments x values x the five ways to hand them over; parameter changes in mid-document; parameters set one way and then another.", "Independent layout expectations; libyaml's scanner for styles; the value.", "Products of parameters."),
"P31": ("The command line tool's main function is run in process; inputs, outputs and their faults are the environment, explored up to two departures from the plain call.", "The library's own operations decided by the other properties, composed by an independent model of the tool; exit status and standard error.", "Combinations of options with failing inputs and outputs; the tests never run the tool."),
"P32": ("A writer independent of the library writes each document in every presentation up to a number of deviations from the usual form.", "The value the writer started from.", "The emitters only ever write one presentation; here readers meet the others (encodings, line ends, quoting, folding, anchors, references, CDATA)."),
"P33": ("The schemas and data of P20 (the same generator) that must be refused, and wrong schemas at three places.", "An independent walk: the schema path and the data path of each error are followed together, step by step by the meaning of the keyword, and the independent draft 4 evaluator must find that the part of the data reached violates exactly the keyword reached.", "Paths are pushed and popped by hand around every keyword; a missing or doubled step shows only in particular nestings."),
"P34": ("Declarations (attributes of one option in full product; several options in and out of groups; positional arguments with every count) x seven ways to ask for help; every kind of mistake.", "The declaration itself: the text is cut into entries at the names of options and each entry is searched for the words that were declared.", "Products of attributes; no test reads the text."),
"P35": ("Eight locales (four C++ number punctuations made in the check, four C locales compiled into the scratch directory with localedef: comma or point, UTF-8, Latin-1, Turkish) x operations: writing, reading, guessing every text of up to 5 characters of numbers, converting, places in lists of 1100 elements, characters of every final byte, names in either case, schema keywords, command lines.", "The same operation in the C locale, whose results the other checks judge.", "The global locale is state of the process that every formatted number depends on; enumerating locales against operations finds each one that uses it."),
}


def main():
    props = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl")) if l.strip()]
    out = [open(os.path.join(VERIF, "tools", "design.head.md")).read().rstrip(), "", "## Properties", ""]
    for p in props:
        e = json.load(open(os.path.join(VERIF, "evidence", p["id"] + ".json")))
        c = e["coverage"]
        d = D[p["id"]]
        n = c.get("traces_validated_against_impl", c.get("evaluations"))
        out += ["### %s %s" % (p["id"], p["title"]), "",
                "*Decided by:* " + d[0], "",
                "*Per execution:* " + c["rule"].rstrip(".") + ".", "",
                "*Oracle:* " + d[1], "",
                "*Reaches:* " + d[2], ""]
        if e["assumptions"]:
            out += ["*Scope:* " + "; ".join(a.rstrip(".") for a in e["assumptions"]) + ".", ""]
        out += ["*Bounds (quick: %s executions):*" % format(n, ","), ""]
        out += ["- %s: %s (%s)" % (s["name"], s["bounds"], format(s["executions"], ",")) for s in c["spaces"]]
        out += [""]
    out += [open(os.path.join(VERIF, "tools", "design.tail.md")).read().rstrip(), ""]
    caught = json.load(open(os.path.join(VERIF, "tools", "planted.json")))
    out += ["## Planted bugs", "", "Every one applies to `/repo`'s HEAD, builds, passes the tests and has a demonstration in `seeded/`.", "",
            "| planted bug | property | what it breaks | reported by |", "|---|---|---|---|"]
    for m in sorted(glob.glob(os.path.join(VERIF, "seeded", "*", "meta.json"))):
        i = os.path.basename(os.path.dirname(m))
        j = json.load(open(m))
        out += ["| %s | %s | %s | %s |" % (i, j["property"], j["what_it_breaks"].replace("|", "\\|"), caught.get(i, "?"))]
    out += [""]
    if os.path.exists(os.path.join(VERIF, "tools", "mutations.md")):
        out += [open(os.path.join(VERIF, "tools", "mutations.md")).read().rstrip(), ""]
    open(os.path.join(VERIF, "DESIGN.md"), "w").write("\n".join(out))


main()
