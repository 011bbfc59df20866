#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, the table below and the harness's list of checks."""
import json, os, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": "stateful property-based testing against an exact phase-accumulator model",
 "C02": "stateful property-based testing against an exact phase-accumulator model",
 "C03": "stateful property-based testing against an exact phase-accumulator model",
 "C04": "stateful property-based testing against an exact phase-accumulator model",
 "C05": "statistical property-based testing (moments, histogram, autocorrelation, cross-correlation)",
 "C06": "metamorphic property-based testing: clone at any point vs. freshly built object, over all types",
 "C07": "stateful property-based testing against an exact interpolation model",
 "C08": "differential property-based testing against playback of the unrolled track",
 "C09": "exhaustive round trips over all codes plus property-based testing against an exact model",
 "C10": "round-trip property-based testing with an independent WAV parser",
 "C11": "property-based testing with fault-injected sinks at generated points",
 "C12": "differential property-based testing against an independent WAV encoder, with chunked and interrupted readers",
 "C13": "structure-aware mutation fuzzing of WAV bytes and of failing readers",
 "C14": "property-based testing against component-wise arithmetic",
 "C15": "round-trip and metamorphic property-based testing",
 "C16": "property-based testing against the dB panning law, with metamorphic relations",
 "C17": "property-based testing against an f64 model and its postconditions",
 "C18": "round-trip property-based testing against exact arithmetic",
 "C19": "stateful property-based testing against a shift of the input, bit for bit",
 "C20": "property-based testing of the comb recurrence on observed histories",
 "C21": "stateful property-based testing against a double-precision reference filter",
 "C22": "stateful property-based testing against a double-precision reference filter",
 "C23": "stateful property-based testing against a reference filter and algebraic relations",
 "C24": "property-based testing of the one-step recurrence on observed histories",
 "C25": "stateful property-based testing against a nondeterministic envelope model",
 "C26": "property-based testing against the difference equation",
 "C27": "stateful property-based testing with recording generators, modifiers and interactors",
 "C28": "stateful property-based testing against an exact model with recording blocks",
 "C29": "stateful property-based testing of random graphs against an exact simulation",
 "C30": "property-based testing of random graphs and build orders against order invariants",
 "C31": "stateful property-based testing against an exact channel model",
 "C32": "stateful property-based testing against a registration model",
 "C33": "model-based testing of call histories with recording blocks",
 "C34": "property-based testing of the built tool with an independent parser, rustc and injected write failures",
 "C35": "property-based testing against model-derived output bounds and decay",
 "C36": "differential property-based testing: alone vs. interleaved vs. across threads",
 "C37": "model-based testing with generated read sequences",
 "C38": "differential property-based testing through generated WAV files",
 "C39": "property-based testing with long generated histories under a counting allocator",
}
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
have = subprocess.run([os.path.join(here, "target/harness/release/bae-check"), "list"], capture_output=True, text=True, check=True).stdout.split()
notes = {}
exec(open(os.path.join(here, "tools/notes.py")).read(), notes) if os.path.exists(os.path.join(here, "tools/notes.py")) else None
N = notes.get("NOTES", {})
generic = ("Random search over the stated input space, seeded, with shrinking; the oracle is written independently of the code. "
           "Not a proof: covers the cases generated. Trusts rustc, f64 arithmetic and the harness.")
m = {"version": 1, "setup_cmd": "./check.sh --build", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in have:
        m["checks"].append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json", "technique": T[i], "level": "exploration", "level_note": (N.get(i, "") + " " + generic).strip()})
    else:
        m["not_applicable"].append({"property": i, "reason": "check under construction, not claimed yet"})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
