#!/usr/bin/env python3
"""Fills the generated parts of DESIGN.md, between the lines <!-- X --> and <!-- /X -->,
from properties.jsonl, checks.json, seeded/ and the evidence of the last quick runs (kept in
tools/quick.json by 'design.py counts')."""
import json, os, re, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(V)
FIRST_MISSED = """P02-excess-drop P02-four-breakers P02-shrink-wrap P04-slice-bytes P04-input-alias P05-error-lost
P05-buffer-grow P05-inuse P08-gb11-limit P09-last-grapheme P10-format-class P11-script-table P11-confidence P13-pool-penalties
P13-pop-batch P13-long-match P13-queue-pop P15-pos16 P15-run32 P16-testmode-astral P19-lri-ctx P19-pos16 P21-shared-stack P21-eof
P23-comment-hash P23-range-dots P25-must-capped P28-prefix P29-spaces P30-longest-sticky""".split()
props = [json.loads(l) for l in open("properties.jsonl")]
manifest = {c["property"]: c for c in json.load(open("MANIFEST.json")).get("checks", [])} if os.path.exists("MANIFEST.json") else {}


def part(name, text):
    global doc
    a, b = "<!-- %s -->" % name, "<!-- /%s -->" % name
    i, j = doc.index(a), doc.index(b)
    doc = doc[:i] + a + "\n" + text.rstrip() + "\n" + doc[j:]


if sys.argv[1:] == ["counts"]:
    q = {}
    for p in props:
        e = json.load(open("evidence/%s.json" % p["id"]))
        q[p["id"]] = [[x["test"], x["evaluations"], x["distinct_nontrivial"]] for x in e["coverage"]["parts"]] + [e["wall_s"]]
    json.dump(q, open("tools/quick.json", "w"), indent=1)
doc = open("DESIGN.md").read()
q = json.load(open("tools/quick.json"))
rows = ["| property | tests: cases of the quick tier (of these non-trivial) | time |", "|---|---|---|"]
for p in props:
    x = q[p["id"]]
    rows.append("| %s %s | %s | %d s |" % (p["id"], p["title"], ", ".join("%s %d (%d)" % tuple(t) for t in x[:-1]), x[-1]))
part("TABLE", "\n".join(rows))
rows = ["| planted bug | needs | |", "|---|---|---|"]
for d in sorted(os.listdir("seeded")):
    m = json.load(open("seeded/%s/meta.json" % d))
    rows.append("| %s | %s | %s |" % (d, m["needs"].replace("|", "\\|"), "first missed" if d in FIRST_MISSED else ""))
part("SEEDED", "\n".join(rows))
open("DESIGN.md", "w").write(doc)
