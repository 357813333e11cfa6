#!/usr/bin/env python3
"""writes known_findings.json (open findings of the current tree, and the repaired ones)"""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
late = [l.strip() for l in open(os.path.join(HERE, "tools", "late_sites.txt")) if l.strip()]
F = [{"property": "C16", "key": "late:" + s, "status": "open",
      "what": "%s called without a gas keeps the default gas of the moment its module was loaded: defaultgas.set_gamma/set_r_ideal after the import has no effect on it" % s}
     for s in late]
F.append({"property": "C16", "key": "literal:Rayleigh.maxTiratio_Mach", "status": "open",
          "what": "Rayleigh.maxTiratio_Mach always computes with gamma=1.4, whatever gas is the default (or is named)"})
fixed = [l.rstrip("\n").split("\t") for l in open(os.path.join(HERE, "tools", "fixed.tsv")) if l.strip()]
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h\t%s"], capture_output=True, text=True).stdout.splitlines()
by = {l.split("\t", 1)[1]: l.split("\t", 1)[0] for l in log}
X = []
for prop, subject, what in fixed:
    X.append("fixed: property=%s %s %s" % (prop, by["fix: " + subject], what))
json.dump({"findings": F, "fixed": X}, open(os.path.join(HERE, "known_findings.json"), "w"), indent=1)
print(len(F), "open,", len(X), "fixed")
