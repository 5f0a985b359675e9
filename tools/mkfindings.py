"""Writes known_findings.json: the fixed entries come from /repo's fix: commits."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = json.load(open(os.path.join(ROOT, "tools", "fixes.json")))  # subject -> property
KNOWN = json.load(open(os.path.join(ROOT, "tools", "known.json")))
out = []
for line in subprocess.run(["git", "-C", os.environ.get("VT_REPO", "/repo"), "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines():
  commit, _, subject = line.partition(" ")
  if subject.startswith("fix: "):
    what = subject[5:]
    pid = PROPS[what]
    out.append({"property": pid, "status": "fixed", "commit": commit, "what": what,
                "line": f"fixed: property={pid} {commit} {what}"})
json.dump({"findings": KNOWN + out}, open(os.path.join(ROOT, "known_findings.json"), "w"), indent=1)
