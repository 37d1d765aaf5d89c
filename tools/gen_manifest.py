"""Writes MANIFEST.json. Run from /verif: python3 tools/gen_manifest.py"""
import json
T = {
 "C02": ("reference-model monitor over generated documents",
  "Every parsed field is compared with an independent model; assumes the reference writer is a correct reading of RFC 6350."),
 "C08": ("metamorphic monitor: refolded and re-ended texts",
  "Results before and after are compared on the executions produced, at every fold position of small documents."),
 "C09": ("reference-model monitor over re-cased documents",
  "Every keyword is exercised in several spellings; compared with a model that keeps value case."),
}
T.update({
 "C01": ("totality monitor (panics, CPU watchdog, heap limit, overflow checks; ASan and Miri in the thorough tier)",
  "Every public function is called on every input; unwinds, run time and heap growth are observed."),
 "C03": ("write/read monitor over all parameter sets with a reference reader and writer",
  "Values over a delimiter alphabet are enumerated up to a length, longer ones sampled."),
 "C04": ("write/read monitor over all text-bearing values with a reference unescaper",
  "Values over the escape alphabet are enumerated up to a length, longer ones sampled."),
 "C05": ("round-trip monitor over accepted inputs, mutated and hostile ones included",
  "The monitor checks parse(write(parse(x))) and byte stability on what the parser accepts."),
 "C06": ("shadow-model monitor over builder call sequences and field contents",
  "Every builder call is mirrored in a model that is compared after each step and after writing; run in the default build and in the build with all features."),
 "C07": ("independent RFC 6350 reader over everything written",
  "Bytes written are judged by a reader that shares no code with the library; fold positions enumerated."),
})
T.update({
 "C10": ("reference-model monitor over documents with planted invalid lines, strict and loose",
  "The loose result is compared with the strict result of the same document without the bad lines."),
 "C11": ("reference-model monitor over all small combinations of the constrained properties",
  "Presence counts of the constrained properties are enumerated in small cards and sampled in large ones."),
 "C12": ("fault-injection monitor: one invalid element per document, documented error variant expected",
  "36 classes of invalid lines at every position of generated cards, with near-miss valid lines as controls."),
 "C13": ("trace monitor over the card iterator on streams of good and bad cards",
  "Item sequences are compared with a model of the stream; termination by a step bound."),
 "C14": ("reference-model monitor over dates, times and timestamps",
  "Calendar days, times and all documented spellings are enumerated per tier and compared with an independent calendar."),
 "C15": ("reference-model monitor over all UTC offsets, enumerated",
  "All 2 x 24 x 60 offsets in every place an offset can stand, and all their near misses."),
 "C16": ("reference-model monitor over typed extension values, accepted and refused",
  "Integers, floats, booleans and every VALUE type in random spellings; 160 kinds of wrong values in documents and helpers."),
 "C17": ("differential monitor against an independent RFC 3986 recognizer",
  "Short texts over the URI alphabet are enumerated after eight prefixes, near-URIs sampled for all 16 properties and VALUE types."),
 "C18": ("heap monitor: an instrumented allocator inspects every byte block at the moment it is freed",
  "Marked text in every owned string; cards and their parts are dropped in all the ways there are, cards obtained in all the ways there are."),
 "C19": ("differential monitor: cards before and after JSON, compared by variant, equality, Debug form and text",
  "Run in two builds, with serde alone and with all features; five serde_json routes."),
 "C20": ("reference-model monitor over generated photo properties",
  "Bytes extracted are compared with the bytes encoded; every length enumerated, base64 faults injected."),
 "C21": ("transcript monitor over repetitions, orders, threads and an interposed system clock",
  "Everything observable about an input is compared between runs on the same and other threads, at other dates, in other orders, and with cards and iterators shared or moved."),
 "C22": ("cost monitor: control flow edges, bytes moved and heap counted by instrumentation, compared between input sizes",
  "The build instruments library, dependencies and standard library; about 200 regular and many random shapes of input, twelve operations."),
 "C24": ("differential monitor: transcripts of builds without, with default and with all features",
  "The same cases run in three builds; acceptance, model dumps and written text are compared exactly."),
 "C23": ("reference-table monitor over all tokens, their spellings and their neighbours",
  "Every documented token in all cases, alone and in cards; edits of tokens and short texts as negatives."),
})
T.update({
 "C25": ("differential monitor: each part printed or read alone against the same part in a card",
  "Every property of random cards is printed alone and found again as a line of the card, and read by an independent reader; 18 kinds of value texts, valid and nearly valid, are read both ways."),
 "C26": ("reference-model monitor over pairs of cards that differ in one place",
  "Equality of cards is compared with equality of independent models, for clones, rebuilt, parsed and altered cards."),
})
# families that use the second parser (reference.rs) and the sizes
for i in "C02 C03 C04 C09 C10 C12 C13 C14 C15 C16 C17 C23".split():
    t, n = T[i]
    T[i] = (t + " and an independent reference parser over recombined lines", n)
for i in "C02 C03 C04 C05 C07 C08 C10 C11 C12 C13 C14 C16 C17 C19 C20 C23".split():
    t, n = T[i]
    T[i] = (t, n + " Lengths and counts at which counters turn over are enumerated.")
for i, x in (("C01", "AddressSanitizer and Miri"), ("C21", "ThreadSanitizer and Miri")):
    t, n = T[i]
    T[i] = (t, n + f" The thorough tier repeats the workload under {x}.")
props = [json.loads(l) for l in open("properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T:
        t, n = T[i]
        checks.append({
            "property": i,
            "quick_cmd": f"bash check.sh {i}",
            "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {i}",
            "technique": "runtime monitoring: " + t,
            "level": "exploration",
            "level_note": n + " Held on the executions observed, not proved.",
        })
    else:
        na.append({"property": i, "reason": "the monitor for this property is still under construction"})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks,
           "not_applicable": na,
           "notes": "check.sh builds /verif/harness against /repo's working tree; no hooks in /repo are needed."},
          open("MANIFEST.json", "w"), indent=1)
