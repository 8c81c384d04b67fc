#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {
 "C01": ("crash, hang, stack, memory and goroutine-leak monitor over worker processes fed with hostile RIDL",
         "Every execution observed ended with exactly one of schema or error. Says nothing about inputs beyond 64 KiB and those not generated; hangs and memory blow-ups are judged by generous watchdogs, twice."),
 "C02": ("crash, hang, stack and memory monitor over worker processes fed with mutated JSON schemas; structural invariant monitor on accepted schemas",
         "As C01, for JSON. Accepted schemas are also validated by an independent implementation of the rules, re-encoded and analysed."),
 "C03": ("reference-model monitor: parsed schema compared with the model the document was written from",
         "Held on the documents generated, which combine all documented features with random layout; trusts the model's reading of the language."),
 "C04": ("metamorphic monitor: schemas parsed from many layouts and declaration orders of one model must be equal",
         "Held on the pairs generated."),
 "C05": ("reference-model monitor of resolved type trees; reference checker for the verdict on well-formed and broken type expressions",
         "Held on the expressions generated, over declared types in random order, in RIDL and JSON."),
 "C06": ("rule-violation injection with verdict monitor, both directions, RIDL and JSON and across imports",
         "Each rule is violated at random positions; names outside the documented character sets are left out where webrpc defines nothing."),
 "C07": ("rule-violation injection with verdict and value monitor; uniqueness monitor on the built-in errors as templates see them",
         "Each rule is violated at random positions, in RIDL, in JSON and across imports."),
 "C08": ("rule-violation injection with verdict and value monitor, both directions, RIDL and JSON",
         "Each rule is violated at random positions."),
 "C09": ("round-trip monitor over repeated generations of RIDL -> JSON -> schema, with generation from both forms compared",
         "Held on the schemas generated."),
 "C10": ("reference-model monitor of merged schemas over random graphs of files; verdict monitor for broken graphs",
         "Held on the file graphs generated (in-memory file systems and real directories)."),
 "C11": ("Go race detector and output comparison over concurrent, repeated and separate-process parses and generations",
         "Held on the interleavings the scheduler produced; races are reported by happens-before analysis, not only when they bite."),
 "C12": ("independent SHA-1 over the model's JSON, sensitivity monitor over single-attribute mutants, in the library, templates and headers",
         "Held on the schemas and mutants generated."),
 "C13": ("reference-predicate and partition monitor over annotation filters, in the library and the command line",
         "Held on the schemas and filters generated."),
 "C14": ("reference reachability monitor over service selection and tree-shaking, in the library and the command line",
         "Held on the schemas and selections generated, recursive ones included."),
 "C15": ("reference fixpoint monitor over bigint analysis, under permutations of declarations",
         "Restricted to the documented forms of fields."),
 "C16": ("reference-implementation monitor over template functions run in real templates",
         "Held on the arguments generated within the documented domains."),
 "C17": ("reference-model monitor over everything a template can reach, for every kind of target",
         "Held on the schemas, option sets and targets generated; the built-in targets are stand-ins, as their modules cannot be fetched here."),
 "C18": ("monitor of exit status, streams and files of the real binary under generated command lines and faults",
         "Held on the command lines generated; faults are missing and unwritable files, full devices, broken templates."),
 "C19": ("history monitor against a cache model, with a recording stand-in for the remote and injected fetch failures and interrupted writes",
         "Held on the histories generated; the clock is moved by rewriting the timestamp file."),
 "C20": ("Go race detector, fault-injecting proxy and call monitor over concurrent calls between test client and server",
         "Held on the interleavings and faults produced."),
 "C21": ("reference-model monitor of comment placement, each comment carrying a unique token",
         "Held on the placements generated; see the known finding about enum declarations."),
 "C22": ("error-position monitor: an unexpected token is injected at a known place and the report compared with it",
         "Lines are exact, columns within the bounds stated in the property."),
 "C23": ("mutation monitor: words, symbols and lines inserted, removed, repeated or misspelt must show",
         "Held on the mutants generated; separators which webrpc documents nowhere but tolerates are left out."),
}
PENDING = set()
props = [json.loads(l) for l in open(f"{here}/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PENDING or i not in CHECKS:
        na.append({"property": i, "reason": "its check is still being built"})
        continue
    t, note = CHECKS[i]
    checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
                   "evidence_file": f"evidence/{i}.json", "technique": "runtime monitoring: " + t, "level": "exploration", "level_note": note})
m = {"version": 1, "setup_cmd": "./check.sh build", "checks": checks, "not_applicable": na,
     "notes": "No hooks: everything is observed at public interfaces (library calls, processes, files, HTTP). Known findings and fixed defects are listed in known-findings.txt."}
open(f"{here}/MANIFEST.json", "w").write(json.dumps(m, indent=1, ensure_ascii=False) + "\n")
