"""Shared machinery of the checks: TLC runner, trace validation, evidence.

A check (see bin/check) consists of
  1. model checking the specification spec/<SPEC>MC.tla with TLC, which also
     dumps the inputs of its terminal states,
  2. running the real code of /repo on those inputs and on seeded random /
     mutated ones, recording the observable events (a trace),
  3. validating every recorded trace against spec/<SPEC>.tla with TLC.
"""

import concurrent.futures
import gc
import importlib
import json
import multiprocessing
import os
import random
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VT_REPO", "/repo")
SPEC_DIR = os.path.join(VERIF, "spec")


# longer observations are cut (no scenario comes near it on the correct code)
MAX_EVENTS = 40000


class MachineryError(Exception):
    """Something in the check itself (not in the code under test) failed."""


# --------------------------------------------------------------------------
# TLC


def _run_tlc(work, module, cfg, workers=2, timeout=800, env=None, heap="3g"):
    meta = tempfile.mkdtemp(dir=work, prefix="meta")
    environment = dict(os.environ)
    environment["JAVA_TOOL_OPTIONS"] = (
        f"-Xss256m -Xmx{heap} -XX:ParallelGCThreads=2"
        f" -Djava.io.tmpdir={meta}"
    )
    environment.update(env or {})
    command = [
        "tlc",
        "-workers",
        str(workers),
        "-metadir",
        meta,
        "-noGenerateSpecTE",
        "-config",
        cfg,
        module + ".tla",
    ]
    out_path = os.path.join(meta, "stdout.txt")
    try:
        with open(out_path, "wb") as out_file:
            subprocess.run(
                command,
                cwd=work,
                env=environment,
                stdout=out_file,
                stderr=subprocess.STDOUT,
                timeout=timeout,
                check=False,
            )
    except subprocess.TimeoutExpired as exception:
        raise MachineryError(f"TLC timeout on {module}") from exception
    with open(out_path, "r", encoding="utf-8", errors="replace") as file_object:
        text = file_object.read()
    shutil.rmtree(meta, ignore_errors=True)
    return text


def _states(text):
    for line in reversed(text.splitlines()):
        match = re.match(r"^([\d,]+) states generated, ([\d,]+) distinct", line)
        if match:
            break
    else:
        return 0, 0
    generated, distinct = match.groups()
    return int(generated.replace(",", "")), int(distinct.replace(",", ""))


def copy_specs(work):
    for name in os.listdir(SPEC_DIR):
        if name.endswith((".tla", ".cfg")):
            shutil.copy(os.path.join(SPEC_DIR, name), os.path.join(work, name))


def tagged_lines(text, tag):
    """Yields the JSON values printed by PrintT with a tag."""
    for line in text.splitlines():
        # PrintT of a string prints it with TLA+ quoting.
        if line.startswith('"' + tag + " "):
            raw = line[len(tag) + 2 : -1]
            raw = raw.replace('\\"', '"').replace("\\\\", "\\")
            yield json.loads(raw)
        elif line.startswith(tag + " "):
            yield json.loads(line[len(tag) + 1 :])


def run_model(work, module, cfg=None, workers=4, timeout=800):
    """Model checks a bounded model; returns (generated, distinct, dumped)."""
    text = _run_tlc(work, module, cfg or module + ".cfg", workers, timeout)
    if "Model checking completed. No error has been found." not in text:
        path = os.path.join(VERIF, "evidence", f"tlc-{module}.log")
        try:
            with open(path, "w", encoding="utf-8") as file_object:
                file_object.write(
                    "\n".join(l for l in text.splitlines() if "SCEN" not in l)
                )
        except OSError:
            pass
        shown = [
            line[:300] for line in text.splitlines()
            if "SCEN" not in line and not re.match(r"^(Parsing|Semantic|Linting|Computed)", line)
        ]
        start = next((i for i, l in enumerate(shown) if "rror" in l), 0)
        raise MachineryError(
            f"model checking of {module} failed, see {path}\n" + "\n".join(shown[start:start + 12])
        )
    generated, distinct = _states(text)
    scens = list(tagged_lines(text, "SCEN"))
    return generated, distinct, scens


TRACE_CFG = """SPECIFICATION TSpec
CONSTANTS Src <- TSrc
{extra}
CHECK_DEADLOCK FALSE
"""


def _validate_shard(args):
    work, spec, extra, index, lines, timeout = args
    directory = os.path.join(work, f"shard{spec}{index}")
    os.mkdir(directory)
    copy_specs(directory)
    module = spec + "Trace"
    with open(os.path.join(SPEC_DIR, "TraceTemplate.tla"), encoding="utf-8") as file_object:
        template = file_object.read()
    template = template.replace("@TRACE@", module).replace("@SPEC@", spec)
    definitions = "\n".join(
        f"T{name}(i) == Input[i].{field}" for name, field in extra.items()
    )
    template = template.replace(
        "TSrc(i) == Input[i].src", "TSrc(i) == Input[i].src\n" + definitions
    )
    with open(os.path.join(directory, module + ".tla"), "w", encoding="utf-8") as file_object:
        file_object.write(template)
    with open(os.path.join(directory, module + ".cfg"), "w", encoding="utf-8") as file_object:
        file_object.write(
            TRACE_CFG.format(extra="\n".join(f"  {name} <- T{name}" for name in extra))
        )
    trace_file = os.path.join(directory, "trace.ndjson")
    with open(trace_file, "w", encoding="utf-8") as file_object:
        for line in lines:
            file_object.write(json.dumps(line) + "\n")
    text = _run_tlc(
        directory, module, module + ".cfg", 1, timeout, env={"TRACE_FILE": trace_file},
        heap="2500m",
    )
    verdicts = {}
    for verdict in tagged_lines(text, "VERDICT"):
        number = verdict["sc"] - 1
        # several branches of a nondeterministic specification: accept if any does.
        if number not in verdicts or verdict["v"] == "ok":
            verdicts[number] = verdict
    generated, distinct = _states(text)
    shutil.rmtree(directory, ignore_errors=True)
    finished = "Model checking completed. No error has been found." in text
    return index, verdicts, generated, distinct, finished, text


def validate(work, spec, extra, lines, shards=8, timeout=700):
    """Validates trace lines; returns (verdict per line, states generated)."""
    if not lines:
        return [], 0, 0
    # balance the shards by size
    weights = [len(l["src"]) + l.get("weight", 0) + 40 * len(l["obs"]) + 60 for l in lines]
    order = sorted(range(len(lines)), key=lambda i: -weights[i])
    shards = max(1, min(shards, len(lines)))
    buckets = [[] for _ in range(shards)]
    loads = [0] * shards
    for i in order:
        j = loads.index(min(loads))
        buckets[j].append(i)
        loads[j] += weights[i]
    jobs = [
        (work, spec, extra, j, [lines[i] for i in bucket], timeout)
        for j, bucket in enumerate(buckets)
    ]
    verdicts = [None] * len(lines)
    generated = distinct = 0
    with concurrent.futures.ThreadPoolExecutor(shards) as executor:
        for index, shard, gen, dist, finished, text in executor.map(_validate_shard, jobs):
            generated += gen
            distinct += dist
            for number, verdict in shard.items():
                verdicts[buckets[index][number]] = verdict
            if not finished or len(shard) != len(buckets[index]):
                missing = [i for k, i in enumerate(buckets[index]) if k not in shard]
                tail = "\n".join(
                    l[:400] for l in text.splitlines() if "VERDICT" not in l
                )[-3000:]
                raise MachineryError(
                    f"trace validation of {spec} incomplete: {len(missing)} traces, "
                    f"first {[lines[i].get('name') for i in missing[:3]]}\n{tail}"
                )
    return verdicts, generated, distinct


# --------------------------------------------------------------------------
# running the real code


class Hang(BaseException):
    """Raised inside the code under test when it exceeds its CPU budget."""


def _on_alarm(_signum, _frame):
    raise Hang()


_DRIVER = None


def _worker_init(name):
    global _DRIVER
    limit = 6 << 30
    resource.setrlimit(resource.RLIMIT_AS, (limit, limit))
    sys.setrecursionlimit(3000)
    os.environ["TZ"] = "UTC"
    time.tzset()
    _DRIVER = importlib.import_module(name)
    signal.signal(signal.SIGVTALRM, _on_alarm)


class Skip(Exception):
    """The scenario is not run: enough hangs were recorded already."""


_HANGS = 0


def call(function, budget=10.0):
    """Runs function; returns (result name, value)."""
    global _HANGS
    if _HANGS >= 12:
        raise Skip()
    if _HANGS >= 2:
        budget = min(budget, 1.5)
    signal.setitimer(signal.ITIMER_VIRTUAL, budget)
    try:
        value = function()
        return "ok", value
    except Hang:
        _HANGS += 1
        return "hang", None
    except MemoryError:
        return "MemoryError", None
    except RecursionError:
        return "RecursionError", None
    except Exception as exception:  # pylint: disable=broad-except
        if os.environ.get("VT_TRACEBACK"):
            traceback.print_exc()
        return type(exception).__name__, None
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def _observe(scenario):
    try:
        return _DRIVER.observe(scenario)
    except Skip:
        return None
    except Hang:
        return {"obs": [], "res": "hang", "bind": False}
    except Exception as exception:  # pylint: disable=broad-except
        if os.environ.get("VT_TRACEBACK"):
            traceback.print_exc()
        return {"obs": [], "res": "driver:" + type(exception).__name__, "bind": False}


def observe_all(driver_name, scenarios, processes=8):
    """Runs the driver's observe on every scenario in worker processes."""
    context = multiprocessing.get_context("fork")
    executor = concurrent.futures.ProcessPoolExecutor(
        processes, mp_context=context, initializer=_worker_init, initargs=(driver_name,)
    )
    results = []
    try:
        chunk = max(1, min(50, len(scenarios) // (processes * 4) or 1))
        results = list(executor.map(_observe, scenarios, chunksize=chunk))
    except concurrent.futures.process.BrokenProcessPool:
        # a worker died (e.g. crash in the code under test): isolate scenarios
        results = []
        for scenario in scenarios:
            with concurrent.futures.ProcessPoolExecutor(
                1, mp_context=context, initializer=_worker_init, initargs=(driver_name,)
            ) as single:
                try:
                    results.append(single.submit(_observe, scenario).result())
                except concurrent.futures.process.BrokenProcessPool:
                    results.append({"obs": [], "res": "crash", "bind": False})
    finally:
        executor.shutdown(wait=True)
    return results


# --------------------------------------------------------------------------
# helpers for drivers


def nat(value):
    """Canonical little-endian byte list of a natural number; None -> [-1]."""
    if value is None:
        return [-1]
    if not isinstance(value, int) or isinstance(value, bool):
        return [-2]
    if value < 0:
        return [-3] + nat(-value)
    return list(value.to_bytes((value.bit_length() + 7) // 8, "little"))


def signed(value):
    if value is None:
        return [-1]
    if not isinstance(value, int):
        return [-2]
    return [1 if value < 0 else 0] + nat(abs(value))


def text(value):
    """Code points of a string; None -> [-1]."""
    if value is None:
        return [-1]
    if isinstance(value, (bytes, bytearray)):
        return [-4] + list(value)
    if not isinstance(value, str):
        return [-2]
    return [ord(character) for character in value]


def data(value):
    """Byte list; None -> [-1]."""
    if value is None:
        return [-1]
    if not isinstance(value, (bytes, bytearray)):
        return [-2]
    return list(value)


def corrupt(line, rng):
    """Returns a copy of an accepted trace with one observed value changed."""
    line = json.loads(json.dumps(line))
    index = rng.randrange(len(line["obs"]))
    event = line["obs"][index]
    keys = [k for k in event if k != "k" and isinstance(event[k], (list, int))]
    if keys and rng.random() < 0.8:
        key = rng.choice(sorted(keys))
        if isinstance(event[key], int):
            event[key] += 1
        elif event[key] and isinstance(event[key][-1], int):
            event[key][-1] += 1
        elif event[key]:
            event[key] = event[key][:-1]
        else:
            del line["obs"][index]
    else:
        del line["obs"][index]
    return line


# --------------------------------------------------------------------------
# the check


def load_findings(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path, encoding="utf-8") as file_object:
        findings = json.load(file_object)["findings"]
    return [
        finding
        for finding in findings
        if finding["property"] == prop and finding["status"] == "known"
    ]


def describe(line, verdict):
    """Names the failing clause of a rejected trace."""
    clause = verdict["v"]
    if clause == "outcome":
        return f"the call ended with {line['res']!r} where the specification is in {verdict['pc']!r}"
    if clause == "extra":
        return f"{len(line['obs']) - verdict['n']} event(s) observed that the specification does not produce"
    expected = verdict["exp"]
    number = verdict["n"]
    observed = line["obs"][number : number + max(1, len(expected))]
    for exp, obs in zip(expected, observed):
        if exp.get("k") != obs.get("k"):
            return f"event {number}: expected {exp.get('k')!r}, observed {obs.get('k')!r}"
        fields = [f for f in exp if exp[f] != obs.get(f)]
        if fields:
            return f"event {number} ({exp.get('k')}): field(s) {', '.join(fields)} differ"
        number += 1
    return f"event {number}: expected {expected[0].get('k') if expected else '?'}, nothing observed (call ended {line['res']!r})"


def main(prop, driver_names, tier):
    started = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    evidence_dir = os.path.join(VERIF, "evidence")
    os.makedirs(evidence_dir, exist_ok=True)
    work = tempfile.mkdtemp(prefix=f"vt-{prop}-")
    violations = []
    known = []
    coverage = {
        "states": 0,
        "transitions": 0,
        "traces_validated_against_impl": 0,
        "samples": [],
        "models": [],
        "traces": {},
        "corrupted_traces_rejected": 0,
        "distinct_inputs": 0,
        "outcomes": {},
    }
    findings = load_findings(prop)
    assumptions = []
    try:
        copy_specs(work)
        for driver_name in driver_names:
            driver = importlib.import_module(driver_name)
            rng = random.Random(f"{seed}-{prop}-{driver_name}")
            assumptions += getattr(driver, "ASSUMPTIONS", [])
            models = getattr(driver, "MODELS", {}).get(tier)
            if models is None:
                models = getattr(driver, "MODELS", {}).get("quick", [])
            dumped = []
            for module, cfg in models:
                generated, distinct, scens = run_model(work, module, cfg, workers=8)
                coverage["states"] += distinct
                coverage["transitions"] += generated
                coverage["models"].append(
                    {"module": module, "cfg": cfg, "distinct": distinct,
                     "generated": generated, "inputs_dumped": len(scens)}
                )
                if not distinct:
                    raise MachineryError(f"{module}: no states explored")
                scens = sorted(scens, key=lambda scen: json.dumps(scen, sort_keys=True))
                dumped += [(module, scen) for scen in scens]
            scenarios = driver.scenarios(rng, tier, dumped)
            observed = observe_all(driver_name, scenarios)
            lines = []
            for scenario, result in zip(scenarios, observed):
                if result is None:
                    continue
                # a driver may return several traces for one scenario
                for part in result if isinstance(result, list) else [result]:
                    line = {"name": scenario["name"]}
                    line.update(driver.trace_input(scenario, part))
                    line.update({"obs": part["obs"], "res": part["res"],
                                 "bind": part.get("bind", part["res"] == "ok"),
                                 "api": part.get("api", False)})
                    if len(line["obs"]) > MAX_EVENTS:
                        line["obs"] = line["obs"][:MAX_EVENTS]
                    lines.append(line)
            extra = getattr(driver, "EXTRA", {})
            verdicts, generated, distinct = validate(work, driver.SPEC, extra, lines)
            coverage["states"] += distinct
            coverage["transitions"] += generated
            accepted = []
            for line, verdict in zip(lines, verdicts):
                coverage["traces_validated_against_impl"] += 1
                coverage["outcomes"][line["res"]] = coverage["outcomes"].get(line["res"], 0) + 1
                if verdict["v"] == "ok":
                    if line["bind"] and line["obs"] and line["res"] == "ok":
                        accepted.append(line)
                    continue
                match = next((f for f in findings if f["scenario"] == line["name"]), None)
                if match is not None:
                    known.append(match)
                else:
                    violations.append((driver.SPEC, line, verdict))
            coverage["traces"][driver.SPEC] = len(lines)
            coverage["distinct_inputs"] += len({json.dumps(line["src"]) for line in lines})
            # demonstrate the binding: corrupted traces must be rejected
            if accepted and not violations:
                picks = [rng.choice(accepted) for _ in range(16)]
                bad = [corrupt(line, rng) for line in picks]
                bad = [b for b, g in zip(bad, picks) if b["obs"] != g["obs"]]
                results, _, _ = validate(work, driver.SPEC, extra, bad, shards=2)
                for line, verdict in zip(bad, results):
                    if verdict["v"] == "ok":
                        raise MachineryError(
                            f"{driver.SPEC}: a corrupted trace was accepted: {line['name']}"
                        )
                    coverage["corrupted_traces_rejected"] += 1
                pick = min(accepted, key=lambda l: len(json.dumps(l["src"])) + 5 * len(json.dumps(l["obs"])))
                coverage["samples"].append(
                    {"spec": driver.SPEC, "name": pick["name"], "src": pick["src"][:300] if isinstance(pick["src"], list) else pick["src"],
                     "events": pick["obs"][:4], "result": pick["res"]}
                )
            if not lines:
                raise MachineryError(f"{driver_name}: no traces")
            del lines, observed, scenarios
            gc.collect()
        for finding in {f["scenario"]: f for f in known}.values():
            print(f"KNOWN-FINDING: property={prop} {finding['what']}")
        status = 0
        if violations:
            status = 1
            replay_dir = os.path.join(evidence_dir, "replay")
            os.makedirs(replay_dir, exist_ok=True)
            for number, (spec, line, verdict) in enumerate(violations[:5]):
                path = os.path.join(replay_dir, f"{prop}-{number}.json")
                with open(path, "w", encoding="utf-8") as file_object:
                    json.dump(
                        {"property": prop, "spec": spec, "clause": describe(line, verdict),
                         "trace": line, "verdict": verdict},
                        file_object,
                    )
                print(f"  {spec} {line['name']}: {describe(line, verdict)}")
                print(f"VIOLATION property={prop} replay={path}")
            if len(violations) > 5:
                print(f"  ... {len(violations)} violating traces in total")
        else:
            print(
                f"OK property={prop} tier={tier} states={coverage['states']} "
                f"traces={coverage['traces_validated_against_impl']} "
                f"wall={time.time() - started:.1f}s"
            )
    except MachineryError as exception:
        print(f"ERROR property={prop} {exception}", file=sys.stderr)
        status = 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    if not coverage["samples"]:
        coverage["samples"].append({"note": "no accepted trace with events on this run"})
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": coverage,
        "assumptions": sorted(set(assumptions)),
        "wall_s": round(time.time() - started, 2),
        "violations": len(violations),
    }
    with open(os.path.join(evidence_dir, f"{prop}.json"), "w", encoding="utf-8") as file_object:
        json.dump(evidence, file_object, indent=1)
    return status
