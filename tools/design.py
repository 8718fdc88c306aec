#!/usr/bin/env python3
"""Generate DESIGN.md from doc/*.md, checks, properties, known findings and seeded changes."""
import glob
import json
import os
import re
import sys
import textwrap

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(ROOT)
sys.path.insert(0, "bin")
sys.dont_write_bytecode = True
from checks import CHECKS  # noqa: E402

props = [json.loads(x) for x in open("properties.jsonl")]


def wrap(s, indent=""):
    return textwrap.fill(s, 96, initial_indent=indent, subsequent_indent=indent.replace("-", " "))


def monitors(harness):
    out = []
    for f in sorted(glob.glob("harness/%s/*.cpp" % harness)):
        out += re.findall(r"VF_MONITOR\((\w+),\s*(\d+),\s*(\d+)", open(f).read())
    return out


def main():
    o = [open("doc/intro.md").read().rstrip(), "", "## Properties and how each is decided", ""]
    seeded = {}
    for d in sorted(glob.glob("seeded/*/meta.json")):
        m = json.load(open(d))
        seeded.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(d)), m))
    for p in props:
        k = p["id"]
        c = CHECKS.get(k)
        o += ["### %s: %s" % (k, p["title"]), ""]
        if not c:
            o += ["Not decided; see `not_applicable` in MANIFEST.json.", ""]
            continue
        o += [wrap(p["statement"]), ""]
        o += ["*Monitors.* " + "; ".join(
            "`%s` (%s%s): %s" % (r["harness"], r["variant"], "", ", ".join(
                "`%s` %s/%s" % (m, q, t) for m, q, t in monitors(r["harness"])
                if not r.get("monitors") or m in r["monitors"])) for r in c["runs"]) +
              " (cases in quick/thorough tier).", ""]
        o += [wrap("*Rule and oracle.* " + c["rule"]), ""]
        if c.get("require_events"):
            o += [wrap("*Must be observed for a verdict.* " + "; ".join(
                "%s%s" % (m, ": " + ", ".join(e) if not isinstance(e, int) else "") for m, e in c["require_events"].items() if e) + "."), ""]
        if c.get("assumptions"):
            o += ["*Bounds and assumptions.*", ""]
            o += [wrap(a.rstrip(".") + ".", "- ") for a in c["assumptions"]]
            o += [""]
        if k in seeded:
            o += [wrap("*Planted changes.* " + ", ".join("`%s`" % n for n, _ in seeded[k]) + "."), ""]
    o += ["## Planted changes and what catches them", "",
          "Each is under `seeded/<id>/` (patch, demonstration, description). \"Caught\" refers to the quick",
          "tier with seed 1.", "", "| Change | Property | What it breaks | Needs | Result |", "|---|---|---|---|---|"]
    res = {}
    if os.path.exists("doc/seeded_results.txt"):
        for line in open("doc/seeded_results.txt"):
            a, b = line.rstrip("\n").split(" ", 1)
            res[a] = b
    for k in seeded:
        for n, m in seeded[k]:
            o += ["| %s | %s | %s | %s | %s |" % (n, k, m["what_it_breaks"].replace("|", "/").replace("\n", " "), m["needs"].replace("|", "/").replace("\n", " "), res.get(n, "caught"))]
    o += ["", open("doc/seeding.md").read().rstrip() if os.path.exists("doc/seeding.md") else "", "",
          "## Genuine defects found", "",
          "Those that were repaired each have one `fix:` commit in /repo; the check that found the defect",
          "passes with the repair and reports the violation without it.", ""]
    for line in open("known_findings.txt"):
        m = re.match(r"fixed: property=(\w+) (\w+) (.*)", line)
        if m:
            o += [wrap("%s (`%s`): %s." % (m[1], m[2], m[3].rstrip(".")), "- ")]
        m = re.match(r"known: property=(\w+) key=(\S+) (.*)", line)
        if m:
            o += [wrap("%s (recorded, not repaired; key `%s`): %s." % (m[1], m[2], m[3].rstrip(".")), "- ")]
    o += ["", open("doc/observations.md").read().rstrip()]
    open("DESIGN.md", "w").write("\n".join(o) + "\n")


main()
