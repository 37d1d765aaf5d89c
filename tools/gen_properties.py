#!/usr/bin/env python3
"""Source of properties.jsonl (one place to edit the wording). Run: python3 tools/gen_properties.py"""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "Every public entry point is total: no panic, hang or UB on any input",
  "For every string whatsoever, parse, parse_loose, the strict and loose iterators, Vcard::try_from, every FromStr / helper parse function, and Display, validate, parse_photo_jpeg, Clone, Eq and Drop on whatever they produced return normally with Ok or Err: they never panic, overflow, abort, loop forever or touch invalid memory. Formatting a card that was obtained by parsing never fails.",
  ["inputs"], "All byte strings that are valid UTF-8, including truncated, mutated, control-laden and non-ASCII ones.",
  "Tests feed a few dozen well-formed cards and one proptest over plain text; slicing at a byte index, arithmetic on date parts or a non-advancing loop only fails on inputs nobody listed.",
  ["src/parser.rs", "src/helper.rs", "src/property.rs", "src/parameter.rs", "src/iter.rs", "src/vcard.rs"],
  [("logos lexer and token loops", "src/parser.rs"), ("FromStr impls and date helpers", "src/property.rs, src/helper.rs"), ("forbid(unsafe_code)", "src/lib.rs")],
  ["return values / unwinds at the public API", "process CPU time", "ASan and Miri reports"])

p("C02", "A well-formed card parses to exactly the properties it contains",
  "Parsing a well-formed vCard yields, for each property line, exactly one property of that kind in the field for that name, in line order, with the group, decoded value and parameters that were written, and nothing else; this holds for all 35 supported property names plus X- extensions, with VERSION 3.0 or 4.0. Parsing several concatenated cards (optionally separated by blank lines) yields exactly those cards in order.",
  ["inputs"], "Every combination of supported properties, groups, parameters and values of their documented types.",
  "Unit tests parse each property once in isolation with a fixed value; cross-talk between properties, ordering, groups on each name and value shapes are unsampled.",
  ["src/parser.rs", "src/name.rs", "src/vcard.rs", "src/property.rs"],
  [("parse_properties / parse_property_by_name dispatch", "src/parser.rs"), ("Vcard field per property", "src/vcard.rs")],
  ["Vec<Vcard> returned by parse compared with the generating model"])

p("C03", "Parameters are parsed exactly and survive re-serialization",
  "Every parameter of a property (LANGUAGE, VALUE, PREF, ALTID, PID, TYPE, MEDIATYPE, CALSCALE, SORT-AS, GEO, TZ, LABEL, X- and ENCODING), written quoted or unquoted where the grammar allows it, in any order and repeated where repeatable, is delivered with exactly the value written, including values containing colons, semicolons, commas, backslashes or newlines (quoted/escaped as required). Serializing and re-parsing any in-memory parameter set without double quotes or control characters gives the same parameter set and leaves the property value and neighbouring lines untouched.",
  ["inputs"], "All parameter sets on all properties that admit them.",
  "tests/parameters.rs has one hand-written example per parameter; delimiters and escapes inside parameter values, parameter order and parameter combinations are not explored.",
  ["src/parser.rs", "src/parameter.rs"],
  [("parse_parameters / parse_parameter_value", "src/parser.rs"), ("Parameters Display", "src/parameter.rs")],
  ["Parameters of parsed properties", "output of Display re-parsed"])

p("C04", "Escaping is exact: any text or component survives, nothing injects lines",
  "For every text without control characters other than newline and tab, writing it as a text value, list item (CATEGORIES), structured component (N, ORG, ADR, GENDER identity) or extension value and parsing it back gives the identical text with the identical number of items, whatever commas, semicolons, backslashes, newlines or CR LF sequences (read back as newline) it contains. Backslash escapes (\\\\ \\, \\; \\n \\N) in input decode to the character they denote, unescaped delimiters split, escaped ones never do, and no text value can terminate its line or create another property.",
  ["inputs"], "All strings over the text alphabet, as every text-bearing value.",
  "tests/escaping.rs fixes four strings; escape handling is a property of all interleavings of backslashes, delimiters and newlines.",
  ["src/lib.rs", "src/parser.rs", "src/property.rs"],
  [("escape_value", "src/lib.rs"), ("property value unescaping", "src/parser.rs"), ("DeliveryAddress / Gender / TextListProperty Display and FromStr", "src/property.rs")],
  ["text fields before/after a write-read cycle", "raw output lines"])

p("C05", "Parsed cards round-trip: parse(write(parse(x))) = parse(x)",
  "For every input that parses successfully (well-formed or merely tolerated), writing the cards with Display and parsing the result succeeds and yields equal cards, and writing those again gives byte-identical text. Non-finite floats (VALUE=float:NaN, INF), which never compare equal, are the only exception.",
  ["inputs"], "Every accepted input, including mutated, oddly quoted, folded and non-canonical ones.",
  "assert_round_trip in the tests runs on the fixed example cards only.",
  ["src/vcard.rs", "src/parser.rs", "src/property.rs", "src/parameter.rs", "src/helper.rs"],
  [("Display for Vcard and properties", "src/vcard.rs, src/property.rs"), ("parser", "src/parser.rs")],
  ["equality of Vec<Vcard> and of the two texts"])

p("C06", "Cards built through the API are written losslessly",
  "For every card assembled with VcardBuilder or by filling the public Vcard fields with representable values (at least one FN; MEMBER only with KIND group; whole seconds; a value variant consistent with its VALUE parameter), parse(card.to_string()) returns exactly that one card. Each VcardBuilder method and From conversion changes exactly the field it names (appending for repeatable properties, replacing for single ones) with the value given.",
  ["inputs", "histories"], "All sequences of builder calls and all field contents in the representable domain.",
  "The builder tests assert two fixed cards; no test covers call sequences or every From conversion with arbitrary values.",
  ["src/builder.rs", "src/vcard.rs", "src/property.rs"],
  [("VcardBuilder methods", "src/builder.rs"), ("From conversions", "src/property.rs"), ("Display for Vcard", "src/vcard.rs")],
  ["finished Vcard compared with a shadow model", "re-parse of Display"])

p("C07", "Output conforms to the RFC 6350 wire format",
  "Every written card starts with BEGIN:VCARD and VERSION:4.0, ends with END:VCARD, ends each physical line with CRLF (no bare CR or LF), and has no physical line longer than 75 octets except where one grapheme cluster alone exceeds it; folds never split a grapheme cluster. An independent RFC 6350 reader that unfolds and parses the text recovers exactly one content line per property with the same group, name, parameters and value, each property being emitted exactly once.",
  ["inputs"], "All writable cards, in particular long, multi-byte and combining-character values at every fold position.",
  "Fold tests use two strings; conformance to the line limit at every alignment of wide graphemes, and acceptance by a reader other than the library's own lenient parser, are not tested.",
  ["src/vcard.rs", "src/property.rs", "src/parameter.rs", "src/helper.rs"],
  [("content_line / fold_line", "src/vcard.rs"), ("Display impls", "src/property.rs, src/parameter.rs")],
  ["bytes produced by Display", "independent reader's view"])

p("C08", "Folding and line-ending style never change the meaning",
  "Inserting a fold (CRLF or LF followed by one space or tab) between any two characters of any content line inside a card, switching any subset of line endings between LF and CRLF, or dropping the final line ending does not change the result of parsing. Only the fold's own line break and single whitespace character are removed: any further leading blanks belong to the value.",
  ["inputs"], "All cards x all fold positions (including inside names, parameters, quoted strings and escape sequences) x all line-ending choices.",
  "tests/fold.rs folds at a few fixed positions inside FN values only.",
  ["src/parser.rs"],
  [("unfolding", "src/parser.rs"), ("newline tokens", "src/parser.rs")],
  ["parse(original) == parse(refolded)"])

p("C09", "Names and keywords are case-insensitive, values keep their case",
  "Changing the letter case of BEGIN:VCARD, VERSION, END:VCARD, property names (with or without a group), parameter names, and enumerated parameter values (VALUE types, TYPE home/work/telephone/related types) does not change which properties and parameters are parsed. Group names, text, extension names and other parameter values keep the exact case that was written.",
  ["inputs"], "All cards x all case patterns of every keyword.",
  "Tests use a single lower-case example (type=CELL); each keyword has its own token or match arm that could be case-sensitive.",
  ["src/parser.rs", "src/parameter.rs", "src/name.rs"],
  [("case-insensitive token regexes and to_uppercase dispatch", "src/parser.rs"), ("FromStr for TypeParameter/ValueType", "src/parameter.rs")],
  ["parse(original) == parse(re-cased)"])

p("C10", "Loose parsing drops exactly the properties that are in error",
  "For any input whose cards have an intact BEGIN/VERSION/END envelope and a valid FN, parse_loose and the loose iterator succeed and return what strict parsing returns for the same input with precisely the offending property lines removed: every good property before, between and after bad ones is kept unchanged. On an input that strict parsing accepts, loose parsing returns the same cards; an unknown VALUE type is the one error tolerated without dropping the property.",
  ["inputs", "fault_sequences"], "All cards x all placements and combinations of erroneous property lines of every error kind.",
  "tests/loose.rs has one duplicate KIND; each error kind leaves the parser at a different position within the line.",
  ["src/parser.rs", "src/lib.rs", "src/iter.rs"],
  [("loose error recovery in parse_properties", "src/parser.rs")],
  ["parse_loose(faulty) == parse(clean)"])

p("C11", "Cardinality and required-property rules are enforced",
  "Strict parsing succeeds only if the card has at least one FN, MEMBER only together with KIND:group, at most one each of KIND, N, BDAY, ANNIVERSARY, GENDER, PRODID, REV and UID, VERSION exactly once directly after BEGIN, and a terminating END:VCARD; otherwise it returns the documented error (NoFormattedName, MemberRequiresGroup, OnlyOnce, VersionMisplaced, IncorrectToken/TokenExpected). All other properties may repeat without limit, validate() accepts exactly the cards meeting the FN and MEMBER rules, and parse, both iterators and Vcard::try_from agree on it.",
  ["inputs"], "All multisets and orders of properties, in any case/group spelling.",
  "Tests duplicate each single property once, adjacent and bare; not with groups, parameters, distance, mixed case or in every order, and not via the iterator.",
  ["src/parser.rs", "src/vcard.rs", "src/iter.rs"],
  [("OnlyOnce checks", "src/parser.rs"), ("Vcard::validate", "src/vcard.rs")],
  ["Ok/Err and error variant"])

p("C12", "Strict parsing rejects each kind of invalid line with its documented error",
  "An otherwise well-formed card with exactly one invalid element (control character, missing delimiter, unknown or misplaced parameter, PREF outside 1..100, malformed PID, TYPE on a property that does not take it, LABEL off ADR, unquoted GEO, non-UTF-8 CHARSET, unsupported VALUE type, malformed URI, date, time, number, offset, gender, kind, address or CLIENTPIDMAP value, unterminated value, unknown property) is rejected by strict parsing with the error variant documented for it. The rejection does not depend on where the line stands or what else the card contains, and near-miss valid lines are accepted.",
  ["inputs"], "Every invalid-element kind x every property it can occur on x every surrounding card.",
  "tests/errors.rs has one fixed card per error; boundary values and the property/parameter cross product are untested.",
  ["src/parser.rs", "src/error.rs", "src/helper.rs", "src/property.rs", "src/parameter.rs"],
  [("error returns in parse_parameters / parse_property_by_name", "src/parser.rs"), ("Error enum", "src/error.rs")],
  ["Err variant from parse"])

p("C13", "The card iterator is faithful, terminates and isolates bad cards",
  "Iterating over a stream of cards yields exactly one item per card in stream order, Ok with the same card parse gives for it alone if it is valid and Err if it is not, and then None forever, so that skipping errors recovers every good card; trailing blank lines yield nothing. parse succeeds exactly when the stream is non-empty and every item is Ok, and then returns the same cards; otherwise it fails with the first item's error. Vcard::try_from gives the first item.",
  ["inputs", "histories", "fault_sequences"], "All streams of good and bad cards, any separators, any number of next() calls.",
  "tests/iter.rs covers one and two good cards and one truncated card, and stops calling next() immediately.",
  ["src/iter.rs", "src/parser.rs", "src/vcard.rs"],
  [("VcardIterator::next", "src/iter.rs"), ("parse loop", "src/parser.rs"), ("TryFrom<&str>", "src/vcard.rs")],
  ["sequence of items from next()"], [("offset", "resume position of the iterator", "src/iter.rs")])

p("C14", "Dates, times and timestamps are read and written exactly",
  "Every valid RFC 6350 date, time, date-time, date-and-or-time and timestamp form the library supports (full, reduced year / year-month / --MMDD / --MM / ---DD dates, reduced hour/hour-minute times, -MMSS and --SS times, Z / +-HH / +-HHMM zones), in BDAY, ANNIVERSARY, REV and typed X- properties and in the helper functions, denotes exactly the documented calendar date, time and offset (missing leading parts as year 0 / month 1 / hour 0, missing trailing parts as 1 or 0, missing zone as UTC). Writing any date 0000-9999, whole-second time and offset in those properties and reading it back gives the same value and type, and out-of-range dates and times are rejected.",
  ["inputs"], "All calendar dates, seconds of the day, offsets and spellings.",
  "tests/types.rs checks a handful of dates and times.",
  ["src/helper.rs", "src/property.rs", "src/date_time.rs"],
  [("parse_date / parse_time / parse_date_time / parse_timestamp", "src/helper.rs"), ("DateAndOrTime FromStr/Display", "src/property.rs")],
  ["parsed time::Date/Time/UtcOffset vs independent calendar arithmetic"])

p("C15", "UTC offsets round-trip for every sign, hour and minute",
  "Every offset +-HHMM with HH 00-23 and MM 00-59 is parsed to exactly that many seconds with the right sign (also +-HH and Z), as TZ property value, TZ parameter, X- utc-offset value and time zone of times, and is written back as the same instant offset, including negative offsets of less than one hour. Offsets outside that range or without a sign are rejected as offset values.",
  ["inputs"], "All 2880 signed offsets x every place an offset occurs; exhaustive.",
  "The unit test covers +1200 and -0500.",
  ["src/helper.rs", "src/property.rs", "src/parameter.rs"],
  [("parse_utc_offset / format_utc_offset", "src/helper.rs"), ("UtcOffsetProperty Display", "src/property.rs")],
  ["UtcOffset values and output text"])

p("C16", "Typed extension values decode and re-encode per VALUE type",
  "An X- property with VALUE=text, integer, float, boolean, date, date-time, time, date-and-or-time, timestamp, utc-offset, language-tag or uri is parsed into the matching variant with the exact value(s) written, lists split at commas in order; without VALUE it is text. Writing any such value with its VALUE parameter and parsing it back yields the same variant and values (all i64, all finite f64), and values not of the declared type are rejected; the corresponding helper functions behave the same.",
  ["inputs"], "All value types, list lengths and values including numeric extremes.",
  "tests/extensions.rs uses one or two values per type.",
  ["src/parser.rs", "src/helper.rs", "src/property.rs"],
  [("parse_extension_property_by_name", "src/parser.rs"), ("AnyProperty Display", "src/property.rs"), ("parse_*_list helpers", "src/helper.rs")],
  ["AnyProperty variants and values"])

p("C17", "Text-or-URI values are classified by VALUE, otherwise by syntax",
  "TEL, RELATED, UID and KEY values with VALUE=text are text even if they look like a URI, with VALUE=uri must be a valid URI (or the property is rejected), and without VALUE are a URI exactly when they are a syntactically valid URI; other VALUE types are rejected. PHOTO without VALUE=text is a URI when valid and text otherwise; URI-only properties (SOURCE, IMPP, LOGO, MEMBER, GEO, SOUND, URL, FBURL, CALADRURI, CALURI) and TZ;VALUE=uri reject non-URIs, TZ without VALUE or with VALUE=text is text, and the URI delivered is the one written.",
  ["inputs"], "All URI-like and non-URI strings x VALUE types x properties.",
  "Tests show one URI and one text example for some of these properties.",
  ["src/parser.rs", "src/uri.rs", "src/property.rs"],
  [("parse_text_or_uri", "src/parser.rs"), ("Uri FromStr/Display", "src/uri.rs")],
  ["variant and text of the parsed value"])

p("C18", "Dropping a card wipes its private strings from memory",
  "With the default zeroize feature, after a Vcard (or any property, parameter set or value taken from it) is dropped, none of the heap blocks that held its owned text - values, list items, address parts, groups, extension names, and string parameters of every property - still contains that text; only the documented external types (Uri, time types, LanguageTag, Mime) are exempt. Drop wipes everything however the card was obtained (parsed strict or loose, built, cloned) and however deep the data sits.",
  ["inputs", "histories"], "All card shapes and ways of producing and dropping cards or parts of them.",
  "No test looks at memory after drop.",
  ["src/vcard.rs", "src/property.rs", "src/parameter.rs"],
  [("Zeroize/ZeroizeOnDrop derives and zeroize(skip)", "src/vcard.rs, src/property.rs, src/parameter.rs")],
  ["contents of every heap block at the moment it is freed (instrumented global allocator)"])

p("C19", "JSON (serde) round-trips every card to the same typed value",
  "With the serde feature, for every card obtained by parsing or building from representable values (non-finite floats excepted), serializing to JSON and deserializing gives an equal card with the same variant for every value (text vs URI, each typed extension value, time zone kind, date kind), and the two cards are written to the same vCard text. This holds with and without the mime and language-tags features.",
  ["inputs", "configurations"], "All cards; serde with/without mime and language-tags.",
  "The serde round-trip assertions run on example cards only, and 17 of them fail on the pinned tree.",
  ["src/property.rs", "src/parameter.rs", "src/date_time.rs", "src/serde.rs", "src/vcard.rs"],
  [("Serialize/Deserialize derives, untagged enums", "src/property.rs"), ("Date/DateTime string forms", "src/date_time.rs"), ("media_type module", "src/serde.rs")],
  ["serde_json::from_str(to_string(card)) == card"])

p("C20", "Embedded JPEG photos are extracted exactly",
  "parse_photo_jpeg returns, in order, the exact bytes of every PHOTO text property that has ENCODING=b (any case of the name) and a TYPE of JPEG (any case), whatever other TYPEs, parameters, groups, folding or photos are present, and of no other photo. Invalid base64 in such a photo gives an error, never wrong bytes.",
  ["inputs"], "All byte strings and all combinations of photos and parameters.",
  "One fixture photo is decoded in tests.",
  ["src/vcard.rs", "src/parser.rs"],
  [("Vcard::parse_photo_jpeg", "src/vcard.rs"), ("ENCODING handling", "src/parser.rs")],
  ["decoded bytes vs bytes encoded"])

p("C21", "Results depend only on the input: not on time, history or threads",
  "Parsing, writing and validating give the same result for the same input whenever and however often they are run, at any system date and time, in any order relative to other calls, and from any number of threads at once, with cards shared between threads. Vcard, its parts, the errors and the iterator are usable from several threads without data races.",
  ["schedules", "inputs", "configurations"], "All interleavings of concurrent calls, any clock value, any call history.",
  "Tests run each input once, at one time.",
  ["src/helper.rs", "src/parser.rs", "src/date_time.rs", "src/lib.rs"],
  [("now_utc-based construction of date-times with every field replaced", "src/helper.rs"), ("no shared state", "src/parser.rs")],
  ["results across repetitions, threads, and shimmed clocks"])

p("C22", "Time and memory stay linear in the size of the input",
  "For every shape of input (long values, many properties, parameters, list items, folds, escapes, quotes, cards, unknown tokens, erroneous lines in loose mode, many bad cards in the iterator) the number of instructions executed and the bytes allocated by parsing, iterating, writing and dropping grow at most linearly with input length. Peak heap use is bounded by a constant multiple of the input plus a constant.",
  ["inputs"], "All input families, scaled.",
  "No test measures cost.",
  ["src/parser.rs", "src/iter.rs", "src/vcard.rs", "src/lib.rs"],
  [("single-pass lexing", "src/parser.rs"), ("iterator resume offset", "src/iter.rs"), ("fold_line", "src/vcard.rs")],
  ["instruction counts (valgrind) and allocator counters at doubling sizes"])

p("C23", "Enumerated tokens and small value types map one-to-one",
  "Kind, Sex, Gender, TelephoneType, RelatedType, ValueType, TypeParameter, Pid and ClientPidMap parse exactly their documented tokens to the corresponding value (case-insensitively for telephone, related, value and home/work types), reject others (unknown TYPE tokens become extensions carrying that token), and print to a token that parses back to the same value. Distinct values print distinct tokens, and inside a card they mean the same as on their own.",
  ["inputs"], "All enum values (exhaustive), all u64 pids, random tokens and near-misses.",
  "Tests check a subset of tokens in one direction.",
  ["src/parameter.rs", "src/property.rs"],
  [("Display/FromStr pairs", "src/parameter.rs, src/property.rs")],
  ["to_string().parse() and the token tables of RFC 6350"])

p("C24", "Cargo features do not change what is parsed or written",
  "Built with no features, default features or all features, the library accepts and rejects the same inputs, reports the same cards and writes byte-identical text, except that mime and language-tags may reject a MEDIATYPE, LANGUAGE, LANG or language-tag value that is not syntactically valid (case normalization of such a valid value aside).",
  ["configurations", "inputs"], "All feature sets x all inputs.",
  "The suite is run per configuration but never compares configurations.",
  ["src/parser.rs", "src/parameter.rs", "src/property.rs", "Cargo.toml"],
  [("cfg(feature) alternatives of fields and parse functions", "src/parser.rs, src/parameter.rs, src/property.rs")],
  ["transcripts of the same workload from differently configured builds"])

p("C25", "Parts stand alone: values and properties print and parse as in a card",
  "Display of every property, of its value (Uri, Kind, Gender, Sex, DeliveryAddress, ClientPidMap, DateAndOrTime, AnyProperty...) and of its Parameters is exactly that part of its unfolded content line in the written card, and taken alone means the same value. Uri, Kind, Gender, Sex, DeliveryAddress, ClientPidMap, DateAndOrTime, UtcOffsetProperty and UriProperty read back what they print; their FromStr, and the public helper functions, accept exactly the texts that are accepted as value of the corresponding property (or typed X- property) in a card and give the same value. Date and DateTime print RFC 3339 and read it back exactly.",
  ["inputs"], "All values of all property types; all texts for the value parsers.",
  "Tests print whole cards; parts on their own are tested for a handful of values.",
  ["src/property.rs", "src/parameter.rs", "src/date_time.rs", "src/uri.rs", "src/helper.rs", "src/parser.rs"],
  [("Display/FromStr of value types", "src/property.rs, src/date_time.rs, src/uri.rs"), ("Property trait", "src/property.rs"), ("public helper functions", "src/helper.rs")],
  ["to_string() of each property vs the lines of card.to_string()", "FromStr/helper results vs parse of a card with that value"])

p("C26", "Equality tells cards apart and clones are equal and independent",
  "Two cards compare equal whenever they hold the same properties, groups, parameters and values in the same order within each property name (non-finite floats excepted), however they were made (parsed, built, cloned), and unequal, in both directions, whenever any group, parameter, value, list item, or the number or order of the properties of a name differs; instants of date-times are compared as instants, and URIs, tags and media types without case as their libraries do. A clone has the same content and is not affected by dropping its original.",
  ["inputs"], "All cards and all single differences between cards.",
  "Tests compare a card with itself after a round trip, which an equality that ignores a field passes too.",
  ["src/vcard.rs", "src/property.rs", "src/parameter.rs", "src/date_time.rs", "src/uri.rs"],
  [("PartialEq/Clone of Vcard, properties, values, parameters", "src/vcard.rs, src/property.rs, src/parameter.rs")],
  ["a == b and b == a vs. equality of independent models", "content of a clone after its original is dropped"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for x in P: jsonschema.validate(x, s)
    print("valid", len(P))
except ImportError:
    print("written", len(P))
