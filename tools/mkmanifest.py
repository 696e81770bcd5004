#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("fuzzing: generated sources of any shape through the whole pipeline; panic, CPU and memory oracle", "CPU and heap limits per case; growth is checked on inputs built by repetition"),
 "C02": ("property-based: sources of any shape, invariants of tree and error list", "error columns are checked against the source's own lines"),
 "C03": ("property-based: model bibliography, printed, parsed and compared (round trip)", "the printer is the reference for the grammar; every case is printed and re-read by an independent reader first"),
 "C04": ("property-based: model of string constructs, printed, parsed and compared (round trip)", "the domain is the constructs that the printer writes"),
 "C05": ("property-based: generated contents, round trip in raw mode", "the reference for where a string ends is a brace counter"),
 "C06": ("property-based: metamorphic; two layouts of one bibliography give one tree", "layout changes are those that the statement lists"),
 "C07": ("property-based: fault injection into well-formed sources; an error is due", "breakages are those that the statement lists, each verified to break the grammar by construction"),
 "C08": ("property-based: positions computed while printing, compared with the tree's", "ends of accents and white space are not claimed"),
 "C09": ("fuzzing: sources of any shape; a reader driven by the tree must reproduce the source", "the reader accepts exactly layout between elements"),
 "C10": ("property-based: comments placed while printing, compared with the file's comments and docs", "ParseComments mode"),
 "C11": ("fuzzing: sources of any shape; invariants of the token stream; scanner reuse", ""),
 "C12": ("property-based: differential over ways to deliver a source; read faults at every offset", "files live in a scratch directory"),
 "C13": ("property-based: differential; package against its files alone", "files live in a scratch directory"),
 "C14": ("property-based: model of entries from the printed bibliography", ""),
 "C15": ("property-based: instrumented resolvers against a model of the run", ""),
 "C16": ("property-based: reference renderer over the model; failing writers", ""),
 "C17": ("property-based: reference transformation over the model; idempotence", ""),
 "C18": ("property-based: names built from words, printed as a field, extracted and compared", "names in the three documented forms; words of unclear case are left out"),
 "C19": ("fuzzing: author fields of any content; conservation of text", "the text of the field is taken from the parsed tree"),
 "C20": ("exhaustive enumeration of marks, letters and spellings plus random words; reference compositions from Unicode data", "table made from Python's unicodedata"),
 "C21": ("property-based: reference walk by reflection over parsed and hand-built trees, random visitors", ""),
 "C22": ("property-based: reference renderer over random trees, renderers and failing writers", ""),
 "C23": ("stateful property-based: histories and goroutine schedules in fresh processes against each job alone; race detector", "goroutine schedules are those the runtime happens to choose; the race detector sees accesses that are not ordered"),
 "C24": ("enumeration of address characters in pairs plus random addresses; round trip", "addresses hold no braces, backslashes or single dollars outside of macros"),
 "C25": ("stateful property-based: histories of scope operations against maps", ""),
 "C26": ("fuzzing: differential over parser modes on sources of any shape", ""),
 "C27": ("property-based: differential against authors extracted tag by tag; similar field names, every kind of root", "the extraction itself is C18's and C19's"),
 "C28": ("property-based: random sequences of resolvers over printed bibliographies against a model of the pipeline", "names in the documented forms"),
 "C29": ("property-based: round trip render-parse-render, against the model of the string", "strings without macros"),
 "C30": ("fuzzing: sources of any shape; extents of nodes nest, siblings in order", ""),
 "C31": ("property-based: metamorphic; a source alone and behind another", ""),
 "C32": ("property-based: metamorphic; one expression in many places", ""),
 "C33": ("property-based: metamorphic; string contents alone, nested and joined", ""),
 "C34": ("property-based: metamorphic; names alone and in lists, with other spacing", ""),
 "C35": ("property-based, coverage-guided fuzzing: differential against a reference lexer", ""),
 "C36": ("property-based: differential; trees built by random choices of helpers against the model, the parsed tree and the library's behaviour on both", "a macro's several arguments and the unused fields of authors are left out"),
}
checks = []
for i, (tech, note) in sorted(T.items()):
    checks.append({
        "property": i, "quick_cmd": f"./run.sh {i}", "thorough_cmd": f"./run.sh {i} --thorough",
        "evidence_file": f"evidence/{i}.json", "technique": tech, "level": "exploration",
        "level_note": ("No violation among the generated cases; not a proof. " + note).strip(),
    })
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": [],
    "notes": "run.sh builds the harness against /repo's working tree; VERIF_SEED seeds every random choice; --thorough (or VERIF_TIER=thorough) raises the number of cases and adds coverage-guided fuzzing. ./run.sh ID --replay FILE runs a recorded case again. No hooks are compiled into /repo."},
    open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
