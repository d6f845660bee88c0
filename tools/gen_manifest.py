#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the notes below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N = {
 "C01": ("reference-model monitor over random fragment trees, both placeholder styles", "Every build of a generated tree is compared, placeholder by placeholder, with an independent evaluator; placeholders are resolved to the values the generator put in."),
 "C02": ("exhaustive small texts and random texts, compared with an independent tokenizer", "All texts to length 4 (quick; 6 thorough) over 15 special characters, and random longer ones."),
 "C03": ("reference-model monitor over random fragment trees with sharing", "The built text must be the composition computed by the model."),
 "C04": ("reference-model monitor of #join expansions", "Small templates/ranges are enumerated, larger ones sampled; query, args and usage are compared with the model."),
 "C05": ("fault injection into sound trees, outcome oracle from a reference model", "Each kind of fault is planted at each place of a sound tree; error/no error must be as the model says, in both directions."),
 "C06": ("crash and hang monitor (subprocess, watchdog, confirmation alone) over hostile inputs", "All texts to length 3 (quick; 5 thorough) over 24 special characters, token sequences, mutations, huge/deep inputs and API misuse that has a defined outcome."),
 "C07": ("metamorphic monitor: repeated builds against fresh twins, deep snapshots of everything supplied", "Sequences of builds, failed builds, appends and reuse; every supplied slice and fragment is compared with a snapshot, spare capacity included."),
 "C08": ("Go race detector plus result oracle over concurrent builds of shared values", "Real goroutines, GOMAXPROCS-wide, with injected yields; each concurrent result must equal the sequential one, and any race report in the library is a violation. Schedules are sampled, not enumerated."),
 "C09": ("metamorphic monitor comparing the two placeholder styles", "Both builds of a statement are normalised to a text with the bound values inlined, which must be equal."),
 "C10": ("generated functions (reflect.FuncOf) record the args they get; oracle from the written literals", "Signatures are generated from the supported grammar and beyond; the recorded calls are compared with what big-number arithmetic gives for the literals."),
 "C11": ("reference-model monitor of context scoping and immutability", "Chains and trees of contexts are modelled; lookup, shadowing and isolation are compared."),
 "C12": ("reference-model monitor of built statements (SQL segment comparison)", "Random builder call sequences; the built statement must be the one an independent renderer gives."),
 "C13": ("reference-model monitor plus label tracking of every supplied value", "Every label supplied must appear in its clause, in order, with its args."),
 "C14": ("reachability oracle over enumerated join graphs", "All graphs of up to three joins with every combination of optional flags and references, and random larger ones; the joins built must be exactly those the reachability over the model graph gives."),
 "C15": ("reachability oracle over enumerated CTE dependency graphs", "All dependency graphs of up to three CTEs with every use, and random larger ones; the WITH list must be what reachability over the model graph gives."),
 "C16": ("fault injection into builder call sequences, outcome oracle", "A misuse is inserted at a random place of a call history; every build must report it, and no sound builder may fail."),
 "C17": ("inverse oracle: interpolated literals are read back by an independent SQL literal reader", "All kinds of values; the literal read back must equal the arg and nothing else of the query may change."),
 "C18": ("fake database/sql driver with fault injection at every step, event log oracle", "Every call of the driver is logged; faults at each step of each scan; results, errors and Close are compared with the model."),
 "C19": ("reflection-free element oracle over generated and reflect-made types", "Flattening of every kind of list is compared element by element, inputs must be unchanged."),
 "C20": ("exhaustive small texts and rendered expression lists, compared with an independent parser", "All texts to length 5 (quick; 6 thorough) over two alphabets, and texts rendered from known lists."),
 "C21": ("fault injection of identifiable errors at every kind of component, error chain oracle", "One failing component with an error of its own identity is planted at a random place; errors.Is/As must find it in what is returned, and ErrInvalidIndex only where an index is the cause."),
}
ids = [json.loads(l)["id"] for l in open(root + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [],
  "notes": "No hooks in /repo: all observation is at the public API. Commits fix: in /repo repair genuine defects, listed in known_findings.txt."}
for i in ids:
    tech, note = N[i]
    m["checks"].append({"property": i, "quick_cmd": "./run.sh " + i, "thorough_cmd": "./run.sh " + i + " -tier thorough",
        "evidence_file": "evidence/%s.json" % i, "technique": "runtime monitoring: " + tech, "level": "exploration",
        "level_note": note + " Held on the executions observed; the counts are in the evidence file. Trusts the reference models in harness/ (see DESIGN.md)."})
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(root + "/MANIFEST.json", "a").write("\n")
