"""Conformance of the file system helpers with spec/FsHelper.tla."""

import os
import shutil
import tempfile

import gen
import vt

SPEC = "FsHelper"
MODELS = {
    "quick": [("FsHelperMC", "FsHelperMC.cfg")],
    "thorough": [("FsHelperMC", "FsHelperMC_thorough.cfg")],
}
NAMES = ["a", "b", "c.d", ".hidden", "with space", "été", "日本", "star*", "q?[x]", "..dots", "end.", "-dash", "a\\b", "A", "%s", "~"]
OPS = ("base", "dir", "split", "exists", "list", "open", "again", "sibling")


def codes(text):
    return [ord(c) for c in text]


def words(text):
    return "".join(chr(c) for c in text)


def entry(path, is_dir, data=b""):
    return {"path": [codes(n) for n in path], "dir": is_dir, "data": list(data)}


def random_tree(rng):
    dirs = [()]
    found = {}
    for _ in range(rng.randrange(1, 12)):
        parent = rng.choice(dirs)
        path = parent + (rng.choice(NAMES),)
        if path in found:
            continue
        if len(path) < 5 and rng.random() < 0.5:
            found[path] = None
            dirs.append(path)
        else:
            found[path] = gen.blob(rng, rng.choice((0, 1, 5, 40)))
    return [entry(path, data is None, data or b"") for path, data in sorted(found.items())]


def scenarios(rng, tier, dumped):
    result = []
    for number, (_, scen) in enumerate(dumped):
        segs = scen["x"]
        ops = [{"op": op, "base": scen["w"] == "abs", "x": segs, "segs": [[98]]} for op in OPS]
        ops.append({"op": "join", "base": True, "x": [], "segs": segs})
        result.append({"name": f"model-{number}", "helper": "native", "tree": scen["tree"],
                       "cwd": [[97]] if scen["w"] == "sub" else [], "ops": ops})
    for number in range(400 if tier == "quick" else 6000):
        tree = random_tree(rng)
        helper = "native" if rng.random() < 0.6 else "dfvfs"
        dirs = [[]] + [e["path"] for e in tree if e["dir"]]
        cwd = rng.choice(dirs) if helper == "native" else []
        ops = []
        for _ in range(rng.randrange(3, 12)):
            item = rng.choice(tree + [{"path": [], "dir": True}]) if tree else {"path": [], "dir": True}
            path = list(item["path"])
            if rng.random() < 0.25:
                path.append(codes(rng.choice(NAMES)))
            op = rng.choice(OPS + ("size", "join", "open"))
            if helper == "dfvfs" and op == "list" and item["dir"] and path == item["path"]:
                ops.append({"op": "list", "base": True, "x": path, "segs": []})
                continue
            absolute = helper == "dfvfs" or rng.random() < 0.4
            if not absolute:
                # a relative path from the current directory
                common = 0
                while common < len(cwd) and common < len(path) and cwd[common] == path[common]:
                    common += 1
                common = rng.randrange(common + 1)
                path = [[46, 46]] * (len(cwd) - common) + path[common:]
                if not path:
                    path = [[46]]
            if helper == "native":
                for _ in range(rng.choice((0, 0, 0, 1, 2))):
                    where = rng.randrange(0 if absolute else 1, len(path) + 1)
                    path.insert(where, rng.choice(([], [46])))
            if helper == "dfvfs" and (op in ("base", "dir") and not path or op in ("open", "again", "size") and item["dir"] or op == "list"):
                op = "exists"
            if helper == "dfvfs" and op == "sibling":
                # dfVFS does not open a directory
                names = [e["path"][-1] for e in tree if not e["dir"] and e["path"][:-1] == path[:-1]]
                if not names:
                    op = "exists"
                else:
                    ops.append({"op": op, "base": True, "x": path, "segs": [rng.choice(names)]})
                    continue
            ops.append({"op": op, "base": absolute, "x": path,
                        "segs": [codes(rng.choice(NAMES)) for _ in range(1 if op == "sibling" else rng.randrange(0, 4))]})
        result.append({"name": f"random-{number}", "helper": helper, "tree": tree, "cwd": cwd, "ops": ops})
    return result


def source(scenario, root):
    """The scenario with the paths below the scratch root."""
    names = [codes(n) for n in root.split("/") if n]
    ops = []
    for op in scenario["ops"]:
        path = "/".join(words(s) for s in op["x"])
        if op["base"]:
            path = root + ("/" + path if op["x"] else "")
        if op["op"] == "join":
            ops.append({"op": "join", "p": [], "segs": names + op["segs"]})
            continue
        if op["op"] == "size":
            # the size of a directory is up to the file system
            target = os.path.normpath(os.path.join(root, *[words(s) for s in scenario["cwd"]], path))
            below = os.path.relpath(target, root)
            kinds = {"/".join(words(s) for s in e["path"]): e["dir"] for e in scenario["tree"]}
            if kinds.get(below, below == "."):
                ops.append({"op": "exists", "p": codes(path), "segs": []})
                continue
        if op["op"] == "sibling" and not [s for s in path.split("/") if s not in ("", ".")]:
            ops.append({"op": "exists", "p": codes(path), "segs": []})
            continue
        ops.append({"op": op["op"], "p": codes(path), "segs": op["segs"]})
    return {"helper": scenario["helper"], "root": names, "cwd": names + scenario["cwd"],
            "tree": scenario["tree"], "ops": ops}


def get_helper(kind):
    from dtformats import file_system

    if kind == "native":
        return file_system.NativeFileSystemHelper()

    from dfvfs.lib import definitions
    from dfvfs.path import factory
    from dtformats import dfvfs_helpers

    helper = dfvfs_helpers.DFVFSFileSystemHelper(None)
    helper.OpenFileSystem(factory.Factory.NewPathSpec(definitions.TYPE_INDICATOR_OS, location="/"))
    return helper


def observe(scenario):
    root = os.path.realpath(tempfile.mkdtemp(prefix="vt-fs-", dir="/dev/shm"))
    src = source(scenario, root)

    def content(helper, path):
        file_object = helper.OpenFileByPath(path)
        if not file_object:
            return "nothing", []
        data = file_object.read()
        if hasattr(file_object, "close"):
            file_object.close()
        return "data", list(data)

    def perform(helper, op):
        path = words(op["p"])
        segs = [words(s) for s in op["segs"]]
        if op["op"] == "base":
            return "text", codes(helper.BasenamePath(path))
        if op["op"] == "dir":
            return "text", codes(helper.DirnamePath(path))
        if op["op"] == "split":
            return "segments", [codes(s) for s in helper.SplitPath(path)]
        if op["op"] == "join":
            return "text", codes(helper.JoinPath(segs))
        if op["op"] == "exists":
            return "bool", [1 if helper.CheckFileExistsByPath(path) else 0]
        if op["op"] == "size":
            size = helper.GetFileSizeByPath(path)
            return ("nothing", []) if size is None else ("size", [size])
        if op["op"] == "list":
            return "names", sorted(codes(n) for n in helper.ListDirectory(path))
        if op["op"] == "open":
            return content(helper, path)
        if op["op"] == "again":
            return content(helper, helper.JoinPath(helper.SplitPath(path)))
        return content(helper, helper.JoinPath([*helper.SplitPath(path)[:-1], *segs]))

    def run():
        helper = get_helper(scenario["helper"])
        events = []
        for op in src["ops"]:
            try:
                kind, value = perform(helper, op)
            except OSError:
                kind, value = "oserror", []
            events.append({"k": kind, "v": value})
        return events

    before = os.getcwd()
    try:
        for item in scenario["tree"]:
            path = os.path.join(root, *[words(s) for s in item["path"]])
            if item["dir"]:
                os.mkdir(path)
            else:
                with open(path, "wb") as file_object:
                    file_object.write(bytes(item["data"]))
        os.chdir(os.path.join(root, *[words(s) for s in scenario["cwd"]]))
        result, events = vt.call(run)
    finally:
        os.chdir(before)
        shutil.rmtree(root, ignore_errors=True)
    return {"obs": events or [], "res": result, "root": root}


def trace_input(scenario, part):
    return {"src": source(scenario, part.get("root", "/dev/shm/none")), "weight": 40 * len(scenario["ops"])}
