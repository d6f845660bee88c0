#!/usr/bin/env python3
"""Rewrites the list of planted bugs in DESIGN.md."""
import json, glob, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = {
    "c01-merged-by-text": "look-alike values",
    "c14-cached-dependencies": "builds between the calls",
    "c06-quadratic-text": "phase linear",
    "c07-stale-parse": "phase edits",
    "c02-escaped-separator": "escapes of other languages",
    "c12-distinct-toggles": "options set twice",
    "c19-valuer-lists": "types with methods",
    "c10-known-joinable": "hangs that need a history",
    "c18-retried": "well-known errors of databases",
    "c17-nil-text": "telling strings",
    "c21-uncounted-cause": "args of all kinds in failing counts",
}
out = []
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m, i = json.load(open(f)), f.split("/")[-2]
    out.append("* %s (%s): %s" % ("**%s** [%s]" % (i, missed[i]) if i in missed else i, m["property"], m["what_it_breaks"]))
p = root + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"(?s)<!-- seeds -->.*<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + "\n".join(out) + "\n<!-- /seeds -->", s)
open(p, "w").write(s)
