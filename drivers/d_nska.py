"""Conformance of the NSKeyedArchiver property list decoder with spec/Nska.tla."""

import datetime
import importlib.util
import os
import plistlib
import tempfile

import gen
import vt

SPEC = "Nska"
MODELS = {
    "quick": [("NskaMC", "NskaMC.cfg")],
    "thorough": [("NskaMC", "NskaMC_thorough.cfg")],
}
COMPOSITES = ("BackgroundItemContainer", "BackgroundItems", "BackgroundLoginItem", "Bookmark", "BTMUserSettings", "ItemRecord", "Storage")
LISTS = ("NSArray", "NSMutableArray", "NSSet", "NSMutableSet")
OTHERS = ("NSDictionary", "NSMutableDictionary", "NSHashTable", "NSURL", "NSUUID")
KEYS = ("name", "flags", "container", "url", "caf\xe9", "NS.objects", "CF$UID", "", "$0")
TEXTS = ("", "a", "file:///", "Applications/", "caf\xe9", "$null", "$classname", "0", "line two")


def node(value):
    """The specification's form of a Python value."""
    if value is None:
        return {"t": "none", "s": [], "l": []}
    if isinstance(value, plistlib.UID):
        return {"t": "uid", "s": vt.text(str(value.data)), "l": []}
    if isinstance(value, bool):
        return {"t": "bool", "s": [int(value)], "l": []}
    if isinstance(value, int):
        return {"t": "int", "s": vt.text(str(value)), "l": []}
    if isinstance(value, float):
        return {"t": "float", "s": vt.text(repr(value)), "l": []}
    if isinstance(value, bytes):
        return {"t": "bytes", "s": list(value), "l": []}
    if isinstance(value, str):
        return {"t": "str", "s": vt.text(value), "l": []}
    if isinstance(value, datetime.datetime):
        return {"t": "date", "s": [], "l": []}
    if isinstance(value, list):
        return {"t": "list", "s": [], "l": [node(one) for one in value]}
    if isinstance(value, dict):
        return {"t": "dict", "s": [], "l": [node(one) for pair in value.items() for one in pair]}
    return {"t": type(value).__name__, "s": [], "l": []}


def plain(item):
    """The Python value of a node."""
    kind, text = item["t"], item["s"]
    if kind == "bytes":
        return bytes(text)
    if kind == "bool":
        return bool(text[0])
    text = "".join(map(chr, text))
    if kind == "uid":
        return plistlib.UID(int(text))
    if kind == "int":
        return int(text)
    if kind == "float":
        return float(text)
    if kind == "str":
        return text
    if kind == "date":
        return datetime.datetime(2020, 1, 2, 3, 4, 5)
    items = [plain(one) for one in item["l"]]
    return items if kind == "list" else dict(zip(items[::2], items[1::2]))


class Archive:
    """A graph of objects that refer to each other."""

    def __init__(self, rng, xml):
        self.rng, self.xml = rng, xml
        self.objects = ["$null"]
        self.classes = {}
        self.wrong = rng.random() < 0.4

    def uid(self, number):
        return {"CF$UID": number} if self.xml else plistlib.UID(number)

    def add(self, value):
        self.objects.append(value)
        return len(self.objects) - 1

    def klass(self, name):
        if name not in self.classes:
            self.classes[name] = self.add({"$classname": name, "$classes": [name, "NSObject"]})
        return self.uid(self.classes[name])

    def inline(self, depth=2):
        rng = self.rng
        kind = rng.randrange(10 if depth else 7)
        if kind == 0:
            return rng.choice((0, 1, -1, 255, 2**31, 2**63 - 1, -(2**62)))
        if kind == 1:
            return rng.choice((0.0, 1.5, -2.25, 1e300))
        if kind == 2:
            return rng.random() < 0.5
        if kind == 3:
            return gen.blob(rng, rng.choice((0, 1, 2, 3, 4, 5, 16)))
        if kind < 7:
            return rng.choice(TEXTS)
        if kind == 7:
            return [rng.choice((self.inline(0), self.value(depth - 1))) for _ in range(rng.randrange(3))]
        if kind == 8:
            return {rng.choice(KEYS[:5]): self.inline(0) for _ in range(rng.randrange(3))}
        return datetime.datetime(2020, 1, 2, 3, 4, 5) if self.wrong and rng.random() < 0.2 else rng.choice(TEXTS)

    def ref(self, depth):
        """A reference to an object, of those before it or a new one."""
        rng = self.rng
        roll = rng.random()
        if self.wrong and roll < 0.05:
            number = rng.choice((len(self.objects), len(self.objects) + 1, 9000, 10**12 if self.xml else 77777, len(self.objects) - 1, 1))
            return self.uid(-1 if self.xml and rng.random() < 0.3 else number)
        if roll < 0.15:
            return self.uid(0)
        if roll < 0.25 and len(self.objects) > 4:
            return self.uid(rng.randrange(len(self.objects)))
        return self.uid(self.object(depth))

    def value(self, depth):
        return self.ref(depth) if self.rng.random() < 0.6 else self.inline(min(depth, 1))

    def object(self, depth):
        """A new object: first its place, then what it refers to."""
        rng = self.rng
        if depth <= 0 or rng.random() < 0.2:
            value = self.inline(0)
            return self.add(value)
        number = self.add(None)
        name = rng.choice(rng.choice((COMPOSITES, LISTS, LISTS, OTHERS, OTHERS)))
        if self.wrong and rng.random() < 0.05:
            name = rng.choice(("NSData", "NSMutableString", "", "storage", "NSArrays"))
        short = depth - 1
        value = {"$class": self.klass(name)}
        if name in COMPOSITES or name not in LISTS + OTHERS:
            for key in rng.sample(KEYS, rng.randrange(4)):
                value[key] = self.value(short)
        elif name in ("NSSet", "NSMutableSet"):
            value["NS.objects"] = [self.ref(short) for _ in range(rng.choice((0, 1, 2, 3)))]
        elif name in LISTS:
            value["NS.objects"] = [self.value(short) for _ in range(rng.choice((0, 1, 2, 3)))]
        elif name == "NSHashTable":
            value.update({"$0": 1, "$1": self.ref(short), "$2": 0})
        elif name == "NSURL":
            value["NS.base"] = self.uid(0) if rng.random() < 0.5 else self.uid(self.add(rng.choice(TEXTS))) if rng.random() < 0.7 else rng.choice(TEXTS)
            value["NS.relative"] = self.uid(self.add(rng.choice([one for one in TEXTS if one != "$null"])))
        elif name == "NSUUID":
            value["NS.uuidbytes"] = gen.blob(rng, 16)
        else:
            count = rng.choice((0, 1, 2, 3))
            keys = [rng.choice((self.uid(self.add(rng.choice(TEXTS + (5, 7, -1)))), rng.choice(TEXTS), rng.choice((5, 6)))) for _ in range(count)]
            value["NS.keys"], value["NS.objects"] = keys, [self.value(short) for _ in range(count)]
        if self.wrong and rng.random() < 0.3:
            key = rng.choice(list(value)[1:] or ["$class"])
            if isinstance(value[key], list) and rng.random() < 0.4:
                # another element, or one less
                value[key] = value[key][1:] if rng.random() < 0.4 else value[key] + [rng.choice((self.uid(0), self.inline(1)))]
            elif rng.random() < 0.4:
                del value[key]
            elif key.startswith("NS.") or key in ("$1", "$class"):
                value[key] = rng.choice((self.inline(1), self.uid(0), [self.uid(0)], [], 7, "", gen.blob(rng, 15), {}, self.ref(1)))
        items = list(value.items())
        rng.shuffle(items)
        self.objects[number] = dict(items)
        return number


def archive(rng):
    xml = rng.random() < 0.3
    made = Archive(rng, xml)
    top = {}
    for name in rng.sample(("root", "store", "version", "version2", "x"), rng.choice((0, 1, 1, 1, 2, 3))):
        top[name] = made.value(rng.choice((1, 2, 3, 3)))
    if made.wrong and made.classes and rng.random() < 0.2:
        # a class with another, or no name
        number = rng.choice(list(made.classes.values()))
        made.objects[number] = rng.choice(({"$classname": 5}, {"$classes": []}, {}, {"$classname": ""}, "NSArray", ["NSArray"], {"$classname": ["NSArray"]}, {"$class": made.uid(number), "$classname": "NSArray"}))
    return {
        "xml": xml,
        "plist": {
            "$archiver": "NSKeyedArchiver" if rng.random() < 0.97 else rng.choice(("NSArchiver", "", "nskeyedarchiver", 5)),
            "$version": 100000 if rng.random() < 0.97 else rng.choice((100001, 0, "100000")),
            "$top": top,
            "$objects": made.objects,
        },
    }


def scenarios(rng, tier, dumped):
    result = []
    step = max(1, len(dumped) // 250) if tier == "quick" else max(1, len(dumped) // 6000)
    for number, (_, scenario) in enumerate(dumped):
        if number % step == 0:
            files = []
            for file in scenario["src"]["files"]:
                files.append({"xml": False, "plist": {"$archiver": plain(file["archiver"]), "$version": plain(file["version"]), "$top": plain(file["top"]), "$objects": [plain(one) for one in file["objects"]]}})
            result.append({"name": f"model-{number}", "files": files})
    for number in range(900 if tier == "quick" else 12000):
        result.append({"name": f"random-{number}", "files": [archive(rng) for _ in range(rng.choice((1, 1, 1, 2, 3)))]})
    return result


def load():
    path = os.path.join(vt.REPO, "scripts", "decode_nskeyedarchiver_plist.py")
    spec = importlib.util.spec_from_file_location("decode_nskeyedarchiver_plist", path)
    module = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(module)
    return module


def observe(scenario):
    decoder = load().NSKeyedArchiverDecoder()
    obs = []
    with tempfile.TemporaryDirectory(prefix="vt-nska-") as directory:
        path = os.path.join(directory, "archive.plist")
        for file in scenario["files"]:
            with open(path, "wb") as file_object:
                plistlib.dump(file["plist"], file_object, fmt=plistlib.FMT_XML if file["xml"] else plistlib.FMT_BINARY, sort_keys=False)
            result, value = vt.call(lambda: decoder.DecodePlistFile(path))
            if result == "RecursionError":
                # a reference that comes back; this is a RuntimeError
                result = "RuntimeError"
            obs.append({"k": "!end", "v": {"res": result, "v": node(value)}})
    return [{"obs": obs, "res": "ok", "bind": True}]


def trace_input(scenario, _part):
    files = []
    for file in scenario["files"]:
        plist = file["plist"]
        files.append({"archiver": node(plist["$archiver"]), "version": node(plist["$version"]), "top": node(plist["$top"]), "objects": [node(one) for one in plist["$objects"]]})
    return {"src": {"files": files}}
