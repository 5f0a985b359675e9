"""Conformance of the life of every reader with spec/Lifecycle.tla.

The readers, good and bad files come from the drivers of the formats.
"""

import importlib
import io
import os
import random
import shutil
import tempfile

import dbg
import vt

SPEC = "Lifecycle"
MODELS = {
    "quick": [("LifecycleMC", "LifecycleMC.cfg")],
    "thorough": [("LifecycleMC", "LifecycleMC_thorough.cfg")],
}
# drivers of single file formats, with the kinds of reader they have
DRIVERS = [
    ("d_alias", None), ("d_asl", None), ("d_bookmark", None), ("d_bsm", None), ("d_detect", None),
    ("d_firefox", "map"), ("d_firefox", "_CACHE_001_"), ("d_firefox", "_CACHE_002_"), ("d_fsevents", None), ("d_gzip", None), ("d_info2", None),
    ("d_ipp", None), ("d_job", None), ("d_journal", None), ("d_jumpauto", None), ("d_jumpcustom", None),
    ("d_keychain", None), ("d_levellog", "log"), ("d_levellog", "descriptor"), ("d_leveltable", "leveldb"), ("d_leveltable", "indexeddb"),
    ("d_recyclebin", None), ("d_rpchange", None), ("d_rplog", None), ("d_safari", None), ("d_tzif", None),
    ("d_usn", None), ("d_utmp", "linux"), ("d_utmp", "mac"), ("d_wemf", "emf"), ("d_wemf", "wmf"),
    ("cpio", None), ("chrome", "index"), ("chrome", "data"),
]


class Captured(Exception):
    """What a driver was about to run."""


def captured(module, scenario):
    """Returns (make, data, finish, name) of a scenario of a driver."""
    kept = dbg.run_file

    def capture(make, data, name="f", finish=None, budget=10.0, keep=()):
        raise Captured(make, data, finish, name)

    dbg.run_file = capture
    try:
        module.observe(scenario)
    except Captured as taken:
        return taken.args
    finally:
        dbg.run_file = kept
    raise RuntimeError("nothing captured")


def cpio_parts(data):
    from dtformats import cpio

    def finish(reader, out):
        for entry in reader.GetFileEntries():
            out.append({"path": entry.path, "size": entry.data_size, "data": entry.read().hex()})

    return (lambda debug, writer: cpio.CPIOArchiveFile(debug=debug, output_writer=writer)), data, finish, "f"


def chrome_parts(kind, data):
    from dtformats import chrome_cache

    def finish(reader, out):
        for key, value in sorted(vars(reader).items()):
            if not key.startswith("_"):
                out.append({"key": key, "value": describe(value)})

    cls = chrome_cache.IndexFile if kind == "index" else chrome_cache.DataBlockFile
    return (lambda debug, writer: cls(debug=debug, output_writer=writer)), data, finish, "f"


def inputs(driver, kind, seed):
    """Returns the candidate files (make, data, finish) of a reader."""
    rng = random.Random(seed)
    if driver == "cpio":
        scens = importlib.import_module("d_cpio").scenarios(rng, "quick", [])
        rng.shuffle(scens)
        return [cpio_parts(s["data"]) for s in scens[:60]]
    if driver == "chrome":
        scens = importlib.import_module("d_chrome").scenarios(rng, "quick", [])
        rng.shuffle(scens)
        name = "index" if kind == "index" else "data_"
        files = [bytes(data) for s in scens[:60] for file_name, data in s["files"] if file_name.startswith(name)]
        return [chrome_parts(kind, data) for data in files[:40]]
    module = importlib.import_module(driver)
    scens = module.scenarios(rng, "quick", [])
    if kind is not None:
        scens = [s for s in scens if s["kind"] == kind]
    rng.shuffle(scens)
    return [captured(module, s) for s in scens[:60]]


def scenarios(rng, tier, dumped):
    result = []
    sequences = [scen["ops"] for _, scen in dumped if scen["keeps"] == 0]
    everyone = DRIVERS
    per = 24 if tier == "quick" else 150
    for driver, kind in everyone:
        picks = rng.sample(sequences, min(per, len(sequences)))
        # longer histories: re-opening the same and other files, failures in between
        for _ in range(10 if tier == "quick" else 60):
            ops = []
            for _ in range(rng.randrange(6, 14)):
                if rng.random() < 0.15:
                    ops.append({"op": "attach", "f": rng.choice((1, 2, 3))})
                elif rng.random() < 0.45:
                    ops.append({"op": "close", "f": 1})
                else:
                    ops.append({"op": "open", "f": rng.choice((1, 1, 2, 2, 3, 4))})
            picks.append(ops)
        for number in range(0, len(picks), 6):
            result.append({"name": f"{driver}-{kind or 'file'}-{number}", "driver": driver, "kind": kind,
                           "seed": rng.randrange(1 << 30), "runs": picks[number : number + 6]})
    return result


def attempt(reader, writer, path, finish):
    """Opens a file: returns the outcome and everything seen."""
    from dtformats import errors

    before = len(writer.text)
    seen = dbg.Recorder(writer)
    try:
        reader.Open(path)
        outcome = "opened"
    except errors.ParseError:
        outcome = "parseerror"
    except OSError:
        outcome = "oserror"
    if outcome == "opened" and finish:
        try:
            finish(reader, seen)
        except errors.ParseError:
            seen.append({"k": "parseerror"})
    public = []
    if outcome == "opened":
        for key, value in sorted(vars(reader).items()):
            if not key.startswith("_") and isinstance(value, (int, str, bytes, float, list, tuple)):
                public.append((key, describe(value)))
    return outcome, (writer.text[before:], public)


def describe(value):
    """Text of a value, without the addresses of objects."""
    if isinstance(value, (list, tuple)):
        return [describe(item) for item in value]
    if isinstance(value, (int, str, bytes, float, type(None))):
        return repr(value)
    return type(value).__name__


def attach(reader, path):
    """Gives a file-like object to a reader."""
    with open(path, "rb") as file_object:
        given = io.BytesIO(file_object.read())
    try:
        reader.ReadFileObject(given)
    except Exception:  # pylint: disable=broad-except
        # what is read without a path and a size is up to the reader
        pass
    return given


def keeper(good):
    """Whether a reader keeps a file-like object that it is given."""
    make, path, _, _ = good
    reader = make(False, dbg.make_writer())
    attach(reader, path)
    try:
        reader.Close()
    except OSError:
        return 0
    return 1


def handles(directory):
    count = 0
    for name in os.listdir("/proc/self/fd"):
        try:
            if os.readlink(f"/proc/self/fd/{name}").startswith(directory):
                count += 1
        except OSError:
            continue
    return count


def observe(scenario):
    candidates = inputs(scenario["driver"], scenario["kind"], scenario["seed"])
    directory = os.path.realpath(tempfile.mkdtemp(prefix="vt-life-", dir="/dev/shm"))
    try:
        good, bad = [], []
        for number, (make, data, finish, name) in enumerate(candidates):
            os.mkdir(os.path.join(directory, f"dir{number}"))
            path = os.path.join(directory, f"dir{number}", name)
            with open(path, "wb") as file_object:
                file_object.write(data)
            writer = dbg.make_writer()
            result, value = vt.call(lambda: attempt(make(True, writer), writer, path, finish))
            if result != "ok" or value is None:
                continue
            (good if value[0] == "opened" else bad if value[0] == "parseerror" else []).append((make, path, finish, value))
            if len(good) >= 2 and bad:
                break
        if not good:
            return {"obs": [], "res": "driver:no-good-file", "bind": False, "runs": [], "files": []}
        if len(good) == 1:
            good.append(good[0])
        if not bad:
            # an empty file, if that is a bad one
            path = os.path.join(directory, "empty")
            with open(path, "wb"):
                pass
            make, _, finish, _ = good[0]
            writer = dbg.make_writer()
            result, value = vt.call(lambda: attempt(make(True, writer), writer, path, finish))
            if result == "ok" and value[0] in ("parseerror", "opened"):
                (bad if value[0] == "parseerror" else good).append((make, path, finish, value))
        kinds = ["good", "good", "bad" if bad else "good", "missing"]
        third = bad[0] if bad else good[-1]
        missing = (good[0][0], os.path.join(directory, "missing"), good[0][2], ("oserror", ("", [])))
        files = [good[0], good[1], third, missing]
        parts = []
        keeps = keeper(files[0])
        for ops in scenario["runs"]:
            events = []

            def run():
                writer = dbg.make_writer()
                reader = files[0][0](True, writer)
                current = 0
                given = None
                for op in ops:
                    if op["op"] == "attach":
                        outcome = "skipped" if current or (given and keeps) else "attached"
                        fresh = True
                        if outcome == "attached":
                            given = attach(reader, files[op["f"] - 1][1])
                    elif op["op"] == "close":
                        before = len(writer.text)
                        try:
                            reader.Close()
                            outcome = "closed"
                            current = 0
                        except OSError:
                            outcome = "oserror"
                        fresh = writer.text[before:] == "" and not (given and given.closed)
                        given = None
                    elif current or (given and keeps):
                        before = len(writer.text)
                        try:
                            reader.Open(files[op["f"] - 1][1])
                            outcome = "opened"
                        except OSError:
                            outcome = "oserror"
                        fresh = writer.text[before:] == ""
                    else:
                        _, path, finish, (expected, details) = files[op["f"] - 1]
                        outcome, value = attempt(reader, writer, path, finish)
                        if outcome == "opened":
                            current = op["f"]
                        fresh = outcome == expected and value == details
                    events.append({"k": outcome, "handles": handles(directory), "fresh": 1 if fresh else 0})
                try:
                    reader.Close()
                except OSError:
                    pass

            result, _ = vt.call(run)
            parts.append({"obs": events, "res": result, "bind": True, "files": kinds, "ops": ops, "keeps": keeps})
        return parts
    finally:
        shutil.rmtree(directory, ignore_errors=True)


def trace_input(scenario, part):
    return {"src": {"files": part.get("files", []), "ops": part.get("ops", []), "keeps": part.get("keeps", 0)}}
