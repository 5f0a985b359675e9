#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props/*.json.

Each file in tools/props is one property: the fields of one line of
properties.jsonl plus "level_note" (what the check explores).
"""
import glob, json, os

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
TECH = ("TLA+ specification model-checked with TLC; executions of the real "
        "code recorded and validated against the specification")

def main():
  props = [json.load(open(path)) for path in sorted(glob.glob(os.path.join(HERE, "props", "*.json")))]
  checks = []
  with open(os.path.join(ROOT, "properties.jsonl"), "w") as out:
    for prop in props:
      assert len(prop["title"]) <= 80, prop["id"]
      note = prop.pop("level_note")
      out.write(json.dumps(prop) + "\n")
      pid = prop["id"]
      checks.append({
          "property": pid,
          "quick_cmd": f"bin/check {pid} quick",
          "thorough_cmd": f"bin/check {pid} thorough",
          "evidence_file": f"evidence/{pid}.json",
          "technique": TECH,
          "level": "model_checking",
          "level_note": note})
  na = os.path.join(HERE, "not_applicable.json")
  manifest = {"version": 1, "setup_cmd": "bin/setup", "checks": checks,
              "not_applicable": json.load(open(na)) if os.path.exists(na) else []}
  with open(os.path.join(ROOT, "MANIFEST.json"), "w") as out:
    json.dump(manifest, out, indent=1)
    out.write("\n")

main()
