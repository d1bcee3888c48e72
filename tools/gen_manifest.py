#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property the harness implements."""
import json, subprocess, os
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
out = subprocess.run(["target/debug/vh", "list"], capture_output=True, text=True, check=True).stdout
have = {l.split()[0] for l in out.splitlines()}
TECH = {
 "C01": "fuzzing of texts (grammar-based, mutated, coverage-guided) with a work budget as termination oracle; reparse equality",
 "C02": "property-based fuzzing of every registered helper and of generated programs; oracle: no panic, abort or exhausted work budget",
 "C03": "property-based: piece lists printed to text, expected output computed from the pieces",
 "C04": "property-based: spelled values in all spellings against the value spelled; out-of-range spellings must fail",
 "C05": "model-based: generated expressions against a reference evaluator, with a log of every helper call",
 "C06": "model-based: generated first/select calls against a reference evaluator with a call log",
 "C07": "model-based: generated if chains against a reference interpreter with a call log",
 "C08": "model-based: generated loops against a reference interpreter; maps as multisets of entries",
 "C09": "model-based: generated let/block nests against a reference interpreter with lexical scopes",
 "C10": "model-based: generated values with patterns derived from them against a reference matcher",
 "C11": "model-based: generated template definitions and calls, stored templates and helpers, against a reference interpreter",
 "C12": "model-based: generated block helpers against a reference interpreter with a call log",
 "C13": "model-based: generated exports against a reference interpreter; front_matter against a reference evaluation",
 "C14": "differential/metamorphic: the same data in every parameter form, paths against a reference lookup",
 "C15": "stateful model-based: histories of runs on shared managers against runs on fresh ones",
 "C16": "differential: arithmetic helpers against exact 128-bit and IEEE reference folds",
 "C17": "differential and algebraic laws: comparison helpers against an exact reference order on pairs and triples",
 "C18": "model-based: sort/search results against a reference stable sort under an independent order",
 "C19": "differential: list and map helpers against reference sequence definitions",
 "C20": "differential and round-trip: string helpers against reference definitions",
 "C21": "round-trip and differential: escapes decoded by an independent decoder, attributes against reference formatting",
 "C22": "round-trip and differential: w_json/r_json against serde_json on generated documents and layouts",
 "C23": "round-trip and differential: base64 against a reference coder, cards printed from known data",
 "C24": "differential: path helpers against reference definitions on generated paths",
 "C25": "fuzzing of paths into a locked folder with canary files outside, tree snapshots before and after",
 "C26": "model-based: generated file trees, helpers against the tree they were generated from",
 "C27": "fuzzing of default helpers, parsing and rendering with canary files and environment and a watch on the system calls made; registry contents of each helper group",
 "C28": "round-trip: tables printed from known cells, parsed HTML compared with a reference",
 "C29": "property-based: range checks on samples and coverage of small ranges with a bounded miss probability",
 "C30": "property-based: an echoing child program, arguments and input compared byte by byte",
 "C31": "stateful model-based: operation sequences on the registries against a map",
 "C32": "property-based: wrapped text against invariants and a reference wrapper",
 "C33": "property-based: documents generated with their HTML, and plain texts, against expected HTML",
 "C34": "model-based and metamorphic: whole programs against a reference interpreter, in two formattings",
 "C37": "schedule fuzzing: threads in generated turns (switches at instrumented edges), differential against the same calls alone",
 "C36": "differential: accessors, text, JSON and comparison on the Rust side against a reference and against templates on the same values",
 "C35": "model-based: sequences of tags, well-nested and broken, against a reference structure parser and its rendering",
}
checks, na = [], []
for i in ids:
    if i in have:
        checks.append({
            "property": i, "quick_cmd": "./check.sh " + i, "thorough_cmd": "./check.sh " + i + " thorough",
            "evidence_file": "evidence/%s.json" % i, "technique": TECH[i], "level": "exploration",
            "level_note": "Randomised, coverage-guided search from VERIF_SEED; holds on every generated case, no proof beyond them.",
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./check.sh build", "checks": checks, "not_applicable": na}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
print(len(checks), "checks,", len(na), "not claimed")
