#!/usr/bin/env python3
"""Confirms a planted bug and stores it: tools/seed.py FILE.py

FILE.py defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)] and
DEMO (a Python program; exit non-zero if the behaviour is wrong).
"""
import json, os, runpy, shutil, subprocess, sys, tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"

def sh(cmd, **kw):
  return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)

def main():
  for path in sys.argv[1:]:
    one(runpy.run_path(path))

def one(m):
  out = os.path.join(ROOT, "seeded", m["ID"])
  work = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
  repo = os.path.join(work, "repo")
  try:
    sh(f"cp -a {os.environ.get('VT_REPO', '/repo')} {repo}")
    for name, old, new in m["EDITS"]:
      p = os.path.join(repo, name)
      text = open(p).read()
      assert text.count(old) == 1, (m["ID"], name, text.count(old), old)
      open(p, "w").write(text.replace(old, new))
    diff = sh("git diff", cwd=repo).stdout
    shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    open(os.path.join(out, "patch.diff"), "w").write(diff)
    open(os.path.join(out, "demo.py"), "w").write(m["DEMO"].lstrip("\n"))
    open(os.path.join(out, "demo.sh"), "w").write(
        '#!/bin/sh\n# exit 0 if the property holds in the tree in the current directory\n'
        'PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$(pwd)" exec timeout 60 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    json.dump({"property": m["PROPERTY"], "needs": m["NEEDS"], "what_it_breaks": m["BREAKS"]},
              open(os.path.join(out, "meta.json"), "w"), indent=1)
    clean = sh(f"{out}/demo.sh", cwd="/repo")
    bad = sh(f"{out}/demo.sh", cwd=repo)
    names = [t if isinstance(t, str) else t.get("name") for t in []]
    tests = sh(f"{PY} -m unittest discover -s tests -p '*.py' 2>&1 | tail -4", cwd=repo, env=dict(os.environ, PYTHONPATH=repo))
    base = sh(f"{PY} -m unittest discover -s tests -p '*.py' 2>&1 | tail -4", cwd="/repo", env=dict(os.environ, PYTHONPATH="/repo", PYTHONDONTWRITEBYTECODE="1"))
    strip = lambda t: t.strip().splitlines()[-1:]
    ok_tests = strip(tests.stdout) == strip(base.stdout)
    print(m["ID"], "clean", clean.returncode, "patched", bad.returncode, (bad.stdout + bad.stderr).strip().splitlines()[-1:], "tests", "same" if ok_tests else tests.stdout)
    if clean.returncode: print(clean.stdout, clean.stderr)
    if clean.returncode or not bad.returncode or not ok_tests:
      shutil.rmtree(out)
      print("  NOT KEPT")
      return
    props = [m["PROPERTY"]]
    for p in props:
      r = sh(f"bin/check {p} quick", cwd=ROOT, env=dict(os.environ, VT_REPO=repo, VERIF_SEED="1", VERIF_TIER="quick"))
      print("   check", p, "exit", r.returncode, [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")][:1], r.stderr.strip().splitlines()[-1:] if r.returncode not in (0, 1) else "")
  finally:
    shutil.rmtree(work, ignore_errors=True)

main()
