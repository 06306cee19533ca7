#!/usr/bin/env python3
"""Rewrites the generated part of DESIGN.md: one paragraph per property."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORACLE = {
 "P01": "an independent framing walker in the harness (lengths, terminators, type bytes) and the absence of panics, hangs and unbounded allocation",
 "P02": "the input bytes themselves",
 "P03": "a BSON encoder written from the specification in the harness (harness/core), byte for byte",
 "P04": "the values that were stored",
 "P05": "the Go value that was converted, and the documented target type",
 "P06": "the type tag the value was built with",
 "P07": "a slice of (key, value) pairs with the documented list operations",
 "P08": "a slice of values with the documented list operations",
 "P09": "a comparison of type and content written in the harness; reflexivity and symmetry",
 "P10": "order and stability predicates over the result, and that it is a permutation",
 "P11": "the concatenated documents, and how many bytes the reader was asked for",
 "P12": "a walk over the elements by the parts of the path; agreement of Document, Reader and Array forms",
 "P13": "a JSON grammar recogniser in the harness, and the values read back",
 "P14": "a JSON grammar recogniser and evaluator in the harness",
 "P15": "arithmetic on coefficient, exponent and sign taken from the bits",
 "P16": "the bytes of the identifiers, and a counter",
 "P17": "absence of panics and hangs; a message that is accepted serialises to the same bytes",
 "P18": "an encoder of the wire protocol written in the harness",
 "P19": "the bytes of the messages put on the stream",
 "P20": "the list of registrations",
 "P21": "the documents given to the handlers and clients",
 "P22": "the samples that were recorded",
 "P23": "the samples that were recorded, in order; the metadata",
 "P24": "the complete chunks before the damage",
 "P25": "the additions whose call returned no error, per user in order",
 "P26": "the documents written; a CSV writer in the harness",
 "P27": "the events added, and their sums",
 "P28": "totals of the operations made, kept by the harness",
 "P29": "counts and sums of the values recorded, kept by the harness",
 "P30": "a slice of elements",
 "P31": "the documents of the stream, the calls of the collectors, the values of the structures",
 "P32": "the requests sent per connection",
}
lines = []
checks = json.load(open(os.path.join(root, "checks.json")))
man = json.load(open(os.path.join(root, "MANIFEST.json")))
na = {n["property"]: n["reason"] for n in man["not_applicable"]}
for l in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    lines.append(f"### {i} {p['title']}\n")
    if i in na:
        lines.append(f"Not applicable: {na[i]}\n")
        continue
    c = checks[i]
    def hs(t):
        return ", ".join(h["fn"] + ("(" + ", ".join(f"{k}={v}" for k, v in h["params"].items()) + ")" if h.get("params") else "") for h in c[t])
    lines.append(f"Harnesses in harness/{c['pkg'][2:]}; quick: {hs('quick')}; thorough: {hs('thorough')}. Oracle: {ORACLE[i]}. "
                 f"Decided for: {c['bounds']} Outside: {c['outside']} Tests do not settle it: {p['why_tests_cant']}\n")
s = open(os.path.join(root, "DESIGN.md")).read()
a, rest = s.split("<!-- generated -->\n", 1)
_, b = rest.split("<!-- end -->\n", 1)
import textwrap
body = "\n".join(textwrap.fill(x, 118, break_long_words=False, break_on_hyphens=False) + ("\n" if not x.startswith("#") else "\n") for x in lines)
open(os.path.join(root, "DESIGN.md"), "w").write(a + "<!-- generated -->\n" + body + "<!-- end -->\n" + b)

def put(mark, text):
    p = os.path.join(root, "DESIGN.md")
    s = open(p).read()
    a, rest = s.split(f"<!-- {mark} -->\n", 1)
    _, b = rest.split(f"<!-- end {mark} -->\n", 1)
    open(p, "w").write(a + f"<!-- {mark} -->\n" + text + f"<!-- end {mark} -->\n" + b)
put("fixes", "".join(f"* {f['property']} {f['commit']}: {f['what']}\n" for f in json.load(open(os.path.join(root, "known_findings.json"))) if f["status"] == "fixed"))
import glob
out = ["| bug | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n"]
for m in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    b = json.load(open(m))
    out.append(f"| {os.path.basename(os.path.dirname(m))} | {b['property']} | {b['what_it_breaks']} | {b['needs']} | {b.get('caught_by', b['property'])} |\n")
put("bugs", "".join(out))
