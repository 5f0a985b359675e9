"""Writes the generated parts of DESIGN.md.

The parts are the section of each property (from properties.jsonl, the driver
registry, the model configurations and NOTES), the repairs and findings (from
known_findings.json) and the table of planted bugs (from seeded/*/meta.json).
"""
import importlib
import json
import os
import re
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
sys.path.insert(0, os.path.join(ROOT, "drivers"))
sys.path.insert(0, os.path.join(ROOT, "lib"))
import design_notes
import registry


def cfg(name):
    text = open(os.path.join(ROOT, "spec", name)).read()
    consts = re.findall(r"^\s*(?:CONSTANTS?\s+)?(\w+)\s*=\s*(.+?)\s*$", text, re.M)
    names = re.findall(r"(?:INVARIANTS?|PROPERTIES|PROPERTY)\s+([^\n]+(?:\n\s+[^\n]+)*)", text)
    props = [n for block in names for n in re.split(r"[\s,]+", block.split("CHECK_DEADLOCK")[0])
             if n and not n.endswith("Dump") and n not in ("PROPERTIES", "INVARIANTS", "Dump")]
    return consts, [p for p in props if p.isidentifier() and p not in ("CHECK_DEADLOCK", "FALSE")]


def models(driver):
    """Model modules of a driver."""
    source = open(os.path.join(ROOT, "drivers", driver + ".py")).read()
    return sorted(set(re.findall(r'"(\w+MC(?:_\w+)?)\.cfg"', source))
                  | {m for m in re.findall(r'"(\w+MC)"', source)})


def main():
    out = []
    for line in open(os.path.join(ROOT, "properties.jsonl")):
        prop = json.loads(line)
        pid = prop["id"]
        out.append(f"### {pid} {prop['title']}\n")
        drivers = registry.CHECKS.get(pid, [])
        for driver in drivers:
            names = models(driver)
            base = names[0].split("MC")[0] + "MC" if names else None
            if base and os.path.exists(os.path.join(ROOT, "spec", base + ".cfg")):
                consts, props = cfg(base + ".cfg")
                bounds = ", ".join(f"{k} = {v}" for k, v in consts)
                spec = base[:-2]
                out.append(
                    f"- `drivers/{driver}.py`, `spec/{spec}.tla`; model `{base}` "
                    f"({bounds or 'no bounds'}; larger in `{base}_thorough`), "
                    f"checked: {', '.join(props)}.")
        note = design_notes.NOTES.get(pid)
        if note:
            out.append("- " + " ".join(note.split()))
        out.append("")
    sections = {"PROPERTIES": "\n".join(out).strip()}

    found = json.load(open(os.path.join(ROOT, "known_findings.json")))["findings"]
    rows = []
    for item in found:
        if item["status"] == "fixed":
            rows.append(f"- {item['property']} `{item['commit']}` {item['what']}")
        else:
            rows.append(f"- {item['property']} (known finding) {item['what']}")
    sections["FINDINGS"] = "\n".join(rows)

    rows = ["| planted bug | what it breaks | at first | now |", "|---|---|---|---|"]
    base = os.path.join(ROOT, "seeded")
    for name in sorted(os.listdir(base)):
        meta = json.load(open(os.path.join(base, name, "meta.json")))
        first = "missed" if name in design_notes.MISSED else "caught"
        now = "missed" if name in design_notes.STILL_MISSED else f"caught by {meta['property']}"
        what = " ".join(meta["what_it_breaks"].split()).replace("|", "\\|")
        rows.append(f"| {name} | {what} | {first} | {now} |")
    sections["SEEDED"] = "\n".join(rows)

    path = os.path.join(ROOT, "DESIGN.md")
    text = open(path).read()
    for key, value in sections.items():
        start, end = f"<!-- {key} -->", f"<!-- /{key} -->"
        if start not in text:
            raise SystemExit(f"no {start} in DESIGN.md")
        head, rest = text.split(start, 1)
        tail = rest.split(end, 1)[1]
        text = head + start + "\n\n" + value + "\n\n" + end + tail
    open(path, "w").write(text)


main()
