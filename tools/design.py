#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, tools/design_tail.md, tools/meta.py's properties and the checks; the table of planted bugs from seeded/*/meta.json."""
import json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.path.join(HERE, "tools")]
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
how = dict(re.findall(r"^(P\d\d): (.*)$", open(os.path.join(HERE, "tools", "design_how.txt")).read(), re.M))
head = open(os.path.join(HERE, "tools", "design_head.md")).read()
tail = open(os.path.join(HERE, "tools", "design_tail.md")).read()
out = [head]
for p in props:
    c = CHECKS[p["id"]]
    q, t = c["cases"]
    v = c.get("variants", [{"name": "asan"}])
    out.append("### %s %s\n\n*Generated and decided:* %s\n\n*Counts:* %s\n\n*Bounds and cost:* %d cases in the quick run, %d in the thorough one%s; built as %s.\n" % (
        p["id"], p["title"], how[p["id"]], c["rule"], q, t,
        "" if c.get("fuzz_s", 1) == 0 else ", and libFuzzer driving the same generators in the thorough run",
        ", ".join("ThreadSanitizer" if x.get("san") == "tsan" else "AddressSanitizer + UndefinedBehaviorSanitizer" for x in v)))
rows = []
sd = os.path.join(HERE, "seeded")
caught = {}
cf = os.path.join(HERE, "tools", "seeds_caught.txt")
if os.path.exists(cf):
    for l in open(cf):
        if l.strip():
            k, w = l.rstrip("\n").split(": ", 1); caught[k] = w
if os.path.isdir(sd):
    for d in sorted(os.listdir(sd)):
        m = json.load(open(os.path.join(sd, d, "meta.json")))
        rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"].replace("|", "/"), caught.get(d, "?")))
tail = tail.replace("@SEEDS@", "| change | property | what it breaks | caught by |\n|---|---|---|---|\n" + "\n".join(rows))
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out) + "\n" + tail)
