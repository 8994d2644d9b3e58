"""Rewrites section 2.1 (scenarios and their bounds) of DESIGN.md from the property modules:  python3-vt tools/design.py"""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
titles = {}
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    titles[p["id"]] = p["title"]
out = ["### 2.1 Scenarios", "",
       "Each line is one symbolic exploration (T = thorough tier only); the text is its bound. \"+ history\": also run after an",
       "earlier use of the same code with arbitrary other inputs (section 1.6). Generated by `tools/design.py`.", ""]
for k in range(1, 29):
    c = f"C{k:02d}"
    m = importlib.import_module(f"props.{c.lower()}")
    out += [f"**{c} {titles[c]}**", ""]
    groups = {}
    names = {s.name for s in m.SCENARIOS}
    for s in m.SCENARIOS:
        if s.name.endswith("_again") and s.name[:-6] in names and "earlier use" in s.doc:
            continue
        n = s.name + (" (T)" if s.opts.get("tier") == "thorough" else "") + (" + history" if s.name + "_again" in names else "")
        groups.setdefault(" ".join(s.doc.split()), []).append(n)
    for d, ns in groups.items():
        if len(ns) > 1 and all(n.endswith(" + history") for n in ns):
            ns = [n[:-10] for n in ns[:-1]] + [ns[-1][:-10] + " (each + history)"]
        out.append(f"- {', '.join(ns)}: {d}")
    out += [f"- *assumes:* {a}" for a in getattr(m, "ASSUMPTIONS", [])] + [""]
path = os.path.join(HERE, "DESIGN.md")
text = open(path).read()
i, j = text.index("### 2.1 Scenarios"), text.index("## 3. ")
open(path, "w").write(text[:i] + "\n".join(out) + "\n" + text[j:])
