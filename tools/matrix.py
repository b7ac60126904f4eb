#!/usr/bin/env python3
"""Writes section 7 of DESIGN.md from seeded/*/meta.json."""
import collections, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = collections.defaultdict(list)
for d in sorted(os.listdir(f"{V}/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    by[m["property"]].append((d, m["needs"]))
MISSED = json.load(open(f"{V}/tools/missed.json"))
out = ["## 7. Planted bugs and the checks that catch them", "",
"`tools/seeds/*.py` describe the planted bugs, `tools/seed.py make` builds each (patch, demonstration, proof that the",
"patched tree builds, passes the stable tests and fails the demonstration), `tools/seed.py check` runs a bug's check",
"over a scratch copy mounted in /repo's place. Every bug below is caught by the check of the property named; those",
"marked * were missed when first planted, and the last table says what the check gained. `tools/refactor.py` does the",
"same for groups of behaviour-preserving edits (program, Rust client, JS client, scripts), on which all checks stay quiet.", "",
"| property | planted bugs: what each needs |", "|---|---|"]
for p in sorted(by):
    out.append(f"| {p} | " + "; ".join(f"{d}{'*' if d in MISSED else ''}: {n}" for d, n in by[p]) + " |")
out += ["", "| first missed | what was added |", "|---|---|"]
for d, t in sorted(MISSED.items()):
    out.append(f"| {d} | {t} |")
s = open(f"{V}/DESIGN.md").read()
i = s.find("## 7.")
s = (s if i < 0 else s[:i]).rstrip() + "\n\n" + "\n".join(out) + "\n"
open(f"{V}/DESIGN.md", "w").write(s)
