#!/opt/venv/bin/python
"""Measures which mutants of a source file the scenarios of a check expose.

tools/mutants.py PID[,PID] FILE [NUMBER [SEED [PATTERN]]]

The observations of the real code on the scenarios of a check are accepted by
the specification (that is what the check decides), and the specification is
deterministic, so a mutant of which an observation differs from the one of the
unchanged code is rejected. Comparing observations is much faster than
validating traces. Mutants no observation exposes are listed if they also pass
the unit tests. This tool is an aid for the author, not a check.
"""
import ast, hashlib, json, os, pickle, random, re, shutil, subprocess, sys, tempfile
import concurrent.futures

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(ROOT, "lib"), os.path.join(ROOT, "drivers")]
REPO = os.environ.get("VT_REPO", "/repo")
CACHE = "/tmp/mut"
PY = "/opt/venv/bin/python"
sys.dont_write_bytecode = True


def digest(driver, scenario, result):
  if result is None:
    return None
  out = []
  for part in result if isinstance(result, list) else [result]:
    line = {"res": part["res"], "api": part.get("api", False)}
    if part.get("bind", part["res"] == "ok"):
      line["obs"] = part["obs"]
    out.append([line, driver.trace_input(scenario, part) if part["res"] != "hang" else 0])
  return hashlib.sha1(json.dumps(out, sort_keys=True, default=str).encode()).hexdigest()


def worker(driver_name, base_path):
  """Runs in a subprocess: exit 3 if an observation differs, 0 if none does."""
  import vt, importlib
  sys.path.insert(0, os.environ["VT_REPO"])
  vt._worker_init(driver_name)
  vt._DRIVER = driver = importlib.import_module(driver_name)
  scenarios, base = pickle.load(open(base_path, "rb"))
  if base is None:
    base = [digest(driver, s, vt._observe(s)) for s in scenarios]
    pickle.dump((scenarios, base), open(base_path, "wb"))
    return 0
  order = list(range(len(scenarios)))
  random.Random(7).shuffle(order)
  for i in order:
    try:
      value = digest(driver, scenarios[i], vt._observe(scenarios[i]))
    except Exception:
      value = "error"
    if value != base[i]:
      print(scenarios[i]["name"])
      return 3
  return 0


def prepare(pid, seed):
  import vt, importlib
  from registry import CHECKS
  out = []
  for name in CHECKS[pid]:
    path = os.path.join(CACHE, f"{pid}-{name}-{seed}.pickle")
    stamp = subprocess.run("git rev-parse HEAD; git diff | sha1sum", shell=True, capture_output=True, text=True, cwd=ROOT).stdout
    stamp += subprocess.run("git rev-parse HEAD; git diff | sha1sum", shell=True, capture_output=True, text=True, cwd=REPO).stdout
    if not os.path.exists(path) or open(path + ".stamp").read() != stamp:
      driver = importlib.import_module(name)
      work = tempfile.mkdtemp(prefix="mutm-")
      vt.copy_specs(work)
      dumped = []
      for module, cfg in driver.MODELS["quick"]:
        _, _, scens = vt.run_model(work, module, cfg, workers=8)
        dumped += [(module, s) for s in sorted(scens, key=lambda s: json.dumps(s, sort_keys=True))]
      shutil.rmtree(work)
      scenarios = driver.scenarios(random.Random(f"{seed}-{pid}-{name}"), "quick", dumped)
      pickle.dump((scenarios, None), open(path, "wb"))
      subprocess.run([PY, __file__, "--worker", name, path], env=dict(os.environ, VT_REPO=REPO), check=True)
      r = subprocess.run([PY, __file__, "--worker", name, path], env=dict(os.environ, VT_REPO=REPO), capture_output=True, text=True)
      if r.returncode:
        print("base is not stable", name, r.stdout, r.stderr[-300:])
      open(path + ".stamp", "w").write(stamp)
    out.append((name, path))
  return out


SWAP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==",
        ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
TEXT = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=",
        ast.In: "in", ast.NotIn: "not in", ast.Is: "is", ast.IsNot: "is not"}
BIN = {ast.Add: ("+", "-"), ast.Sub: ("-", "+"), ast.BitAnd: ("&", "|"), ast.BitOr: ("|", "&"),
       ast.LShift: ("<<", ">>"), ast.RShift: (">>", "<<"), ast.Mult: ("*", "+"), ast.FloorDiv: ("//", "*"), ast.Mod: ("%", "+")}


def mutations(text):
  """Yields (description, new text)."""
  tree = ast.parse(text)
  lines = text.splitlines(keepends=True)
  starts = [0]
  for l in lines:
    starts.append(starts[-1] + len(l.encode()))
  raw = text.encode()
  pos = lambda line, col: starts[line - 1] + col
  doc = set()
  for node in ast.walk(tree):
    if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
      doc.add(id(node)); doc.add(id(node.value))
    if isinstance(node, ast.JoinedStr):
      for sub in ast.walk(node):
        doc.add(id(sub))
  def edit(a, b, new, node, what):
    old = raw[a:b].decode()
    yield f"{node.lineno}: {what}: {old[:60]!r} -> {new[:60]!r}", (raw[:a] + new.encode() + raw[b:]).decode()
  for node in ast.walk(tree):
    if id(node) in doc:
      continue
    if isinstance(node, ast.Compare) and len(node.ops) >= 1:
      left = node.left
      for op, right in zip(node.ops, node.comparators):
        a, b = pos(left.end_lineno, left.end_col_offset), pos(right.lineno, right.col_offset)
        old = raw[a:b].decode()
        t = TEXT[type(op)]
        if t in old:
          yield from edit(a, b, old.replace(t, SWAP[type(op)], 1), node, "compare " + ast.unparse(node)[:70])
        left = right
    elif isinstance(node, ast.BinOp) and type(node.op) in BIN:
      a, b = pos(node.left.end_lineno, node.left.end_col_offset), pos(node.right.lineno, node.right.col_offset)
      old = raw[a:b].decode(); t, n = BIN[type(node.op)]
      if t in old:
        yield from edit(a, b, old.replace(t, n, 1), node, "binop " + ast.unparse(node)[:70])
    elif isinstance(node, ast.BoolOp):
      a, b = pos(node.values[0].end_lineno, node.values[0].end_col_offset), pos(node.values[1].lineno, node.values[1].col_offset)
      old = raw[a:b].decode()
      t, n = ("and", "or") if isinstance(node.op, ast.And) else ("or", "and")
      yield from edit(a, b, old.replace(t, n, 1), node, "bool " + ast.unparse(node)[:70])
    elif isinstance(node, ast.Constant) and type(node.value) is int:
      a, b = pos(node.lineno, node.col_offset), pos(node.end_lineno, node.end_col_offset)
      yield from edit(a, b, str(node.value + 1), node, "constant " + lines[node.lineno - 1].strip()[:70])
    elif isinstance(node, ast.Constant) and type(node.value) is str and lines[node.lineno - 1].strip()[:2] not in ("f'", 'f"') and node.value:
      if "raise" in lines[node.lineno - 1] or "ParseError" in lines[max(0, node.lineno - 2)]:
        continue
      a, b = pos(node.lineno, node.col_offset), pos(node.end_lineno, node.end_col_offset)
      if raw[a:a+1] in (b"'", b'"') and node.lineno == node.end_lineno and len(node.value) > 1:
        yield from edit(a, b, repr(node.value[:-1] + chr(ord(node.value[-1]) ^ 1)), node, "string " + lines[node.lineno - 1].strip()[:70])
    elif isinstance(node, (ast.Assign, ast.AugAssign, ast.Raise, ast.Continue, ast.Break, ast.Expr)):
      if isinstance(node, ast.Assign) and node.col_offset <= 4:
        continue
      a, b = pos(node.lineno, node.col_offset), pos(node.end_lineno, node.end_col_offset)
      old = raw[a:b].decode()
      new = "break" if isinstance(node, ast.Continue) else "pass"
      yield from edit(a, b, new, node, "delete")
    elif isinstance(node, ast.If) and node.col_offset > 0:
      if ast.unparse(node.test) == "self._debug":
        continue
      a, b = pos(node.test.lineno, node.test.col_offset), pos(node.test.end_lineno, node.test.end_col_offset)
      yield from edit(a, b, "False", node, "if false " + ast.unparse(node.test)[:70])
      yield from edit(a, b, "True", node, "if true " + ast.unparse(node.test)[:70])


def yaml_mutations(text):
  lines = text.split("\n")
  for i, l in enumerate(lines):
    out = []
    m = re.match(r"^(\s*size: )(\d+)$", l)
    if m:
      out.append(m.group(1) + str({1: 2, 2: 4, 4: 8, 8: 4}.get(int(m.group(2)), 4)))
    if "byte_order: little-endian" in l: out.append(l.replace("little", "big"))
    if "byte_order: big-endian" in l: out.append(l.replace("big", "little"))
    if l.strip() == "format: signed": out.append(l.replace("signed", "unsigned"))
    elif l.strip() == "format: unsigned": out.append(l.replace("unsigned", "signed"))
    m = re.match(r"^(\s*data_type: )(u?)int(\d+)(\S*)$", l)
    if m:
      out.append(f"{m.group(1)}{'' if m.group(2) else 'u'}int{m.group(3)}{m.group(4)}")
      for w in ("8", "16", "32", "64"):
        if w != m.group(3): out.append(f"{m.group(1)}{m.group(2)}int{w}{m.group(4)}")
    m = re.match(r"^(\s*- number: )(\S+)$", l) or re.match(r"^(\s*number: )(\S+)$", l)
    if m: out.append(m.group(1) + str(int(m.group(2), 0) + 1))
    m = re.match(r"^(\s*(?:elements_data_size|number_of_elements|element_data_size|padding_size|alignment_size): )(.+)$", l)
    if m: out.append(m.group(1) + m.group(2) + " + 1" if not m.group(2).isdigit() else m.group(1) + str(int(m.group(2)) + 1))
    m = re.match(r"^(\s*format: )(_Format\w+|custom:\w+)$", l)
    if m: out.append(m.group(1) + "custom:_FormatIntegerAsOffset")
    for new in out:
      yield f"{i + 1}: yaml {l.strip()} -> {new.strip()}", "\n".join(lines[:i] + [new] + lines[i + 1:])


def judge(args):
  name, text, description, prepared = args
  work = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
  try:
    shutil.copytree(os.path.join(REPO, "dtformats"), os.path.join(work, "dtformats"), ignore=shutil.ignore_patterns("__pycache__"))
    shutil.copytree(os.path.join(REPO, "scripts"), os.path.join(work, "scripts"), ignore=shutil.ignore_patterns("__pycache__"))
    for d in ("tests", "test_data"):
      os.symlink(os.path.join(REPO, d), os.path.join(work, d))
    open(os.path.join(work, name), "w").write(text)
    env = dict(os.environ, VT_REPO=work, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=work)
    for driver, path in prepared:
      try:
        r = subprocess.run([PY, __file__, "--worker", driver, path], env=env, capture_output=True, text=True, timeout=240)
      except subprocess.TimeoutExpired:
        return "timeout", description
      if r.returncode:
        return ("killed" if r.returncode == 3 else "broken"), description
    base = os.path.splitext(os.path.splitext(os.path.basename(name))[0])[0]
    tests = f"{base}.py"
    if not os.path.exists(os.path.join(REPO, "tests", tests)):
      tests = "*.py"
    r = subprocess.run([PY, "-m", "unittest", "discover", "-s", "tests", "-p", tests], cwd=work, env=env, capture_output=True, text=True, timeout=240)
    return ("test" if r.returncode else "MISSED"), description
  except Exception as exception:
    return "error " + repr(exception), description
  finally:
    shutil.rmtree(work, ignore_errors=True)


def main():
  if sys.argv[1] == "--worker":
    sys.exit(worker(*sys.argv[2:4]))
  pid, name = sys.argv[1:3]
  number = int(sys.argv[3]) if len(sys.argv) > 3 else 60
  seed = int(sys.argv[4]) if len(sys.argv) > 4 else 1
  only = re.compile(sys.argv[5]) if len(sys.argv) > 5 else None
  os.makedirs(CACHE, exist_ok=True)
  prepared = [item for p in pid.split(",") for item in prepare(p, 1)]
  text = open(os.path.join(REPO, name)).read()
  found = list(yaml_mutations(text) if name.endswith(".yaml") else mutations(text))
  found = [f for f in found if f[1] != text and (not only or only.search(f[0]))]
  rng = random.Random(seed)
  rng.shuffle(found)
  total = len(found)
  found = found[:number]
  counts = {}
  jobs = int(os.environ.get("MUT_JOBS", "8"))
  with concurrent.futures.ThreadPoolExecutor(jobs) as pool:
    for verdict, description in pool.map(judge, [(name, t, d, prepared) for d, t in found]):
      counts[verdict.split()[0]] = counts.get(verdict.split()[0], 0) + 1
      if verdict not in ("killed", "test", "broken"):
        print(f"{pid} {name}:{description} => {verdict}", flush=True)
  print(f"{pid} {name}: {total} mutants, {len(found)} tried: {counts}", flush=True)


main()
