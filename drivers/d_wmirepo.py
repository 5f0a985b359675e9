"""Conformance of whole WMI repositories with spec/WmiRepo.tla."""

import hashlib
import logging
import os
import re

import d_wmimap
import d_wmiobjects
import dbg
import gen
import vt
from d_wmimap import u32

SPEC = "WmiRepo"
MODELS = {
    "quick": [("WmiRepoMC", "WmiRepoMC.cfg")],
    "thorough": [("WmiRepoMC", "WmiRepoMC_thorough.cfg")],
}
PAGE = 8192
NAMES = {"im": "index.map", "om": "objects.map", "m1": "mapping1.map", "m2": "mapping2.map", "m3": "mapping3.map", "ver": "mapping.ver", "index": "index.btr", "objects": "objects.data"}
DIRECTORIES = ("Repository", "FS", "a b", "x[y]", "[!a]*", "q?", "index.btr.d")
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "WmiRepo.tla"), encoding="utf-8") as SPEC_FILE:
    # the namespaces the specification says are common
    COMMON = tuple(re.findall(r'"((?:[^"\\]|\\.)*)"', SPEC_FILE.read().split("Common == <<")[1].split(">>")[0].replace("\\\\", "\\")))
CHILDREN = ("A", "b", "Security", "security", "CIMV2", "wmi", "WMI", "caf\xe9", "x y", "", "B", "New", "a", "Microsoft", "Windows", "Computer", "power", "SMB")


class Hashes:
    """The hashes of the names that a repository is about."""

    def __init__(self, v2):
        self.v2 = v2
        self.names = {}

    def of(self, name):
        raw = name.upper().encode("utf-16-le")
        self.names[name] = (hashlib.md5(raw).hexdigest(), hashlib.sha256(raw).hexdigest())
        return self.names[name][1 if self.v2 else 0]


def namespace_class(rng, super_name):
    """The class of a namespace, with a name and possibly something else."""
    data = b"\0__NAMESPACE\0"
    name_at = len(data)
    data += b"\0" + (b"Name" if rng.random() < 0.96 else b"name") + b"\0"
    type_at = len(data)
    data += b"\0string\0"
    extra = rng.random() < 0.3
    first = rng.random() < 0.5
    offset = 4 if extra and first else 0
    definition = u32(8) + b"\0\0" + u32(offset) + u32(0) + u32(17) + u32(0x8000000A) + b"\0" + u32(8) + u32(type_at)
    descriptors = u32(name_at, len(data))
    data += definition
    if extra:
        extra_at = len(data)
        data += b"\0Extra\0"
        type_at = len(data)
        data += b"\0uint32\0"
        descriptors += u32(extra_at, len(data))
        data += u32(19) + b"\1\0" + u32(4 - offset) + u32(0) + u32(17) + u32(0x8000000A) + b"\0" + u32(8) + u32(type_at)
    sub = b"\0" + super_name.encode("cp1252") + b"\0" if super_name else b""
    block = b"\0" + u32(0, 0, len(sub) + 4) + sub + u32(4, 2 if extra else 1) + descriptors + u32(len(data) | 0x80000000) + data
    wide = super_name.encode("utf-16-le")
    return u32(len(wide) // 2) + wide + b"\1" + b"\0" * 7 + u32(len(block) + 4) + block, (extra, offset)


def namespace_instance(rng, class_hash, shape, name):
    extra, offset = shape
    data = b"\0__NAMESPACE\0"
    at = len(data) if name is not None else 0
    if name is not None:
        data += b"\0" + name.encode("cp1252") + b"\0"
    fixed = u32(at)
    if extra:
        fixed = u32(77, at) if offset else u32(at, 77)
    block = u32(0) + b"\1\0" + fixed + u32(4) + b"\1" + u32(5) + data
    return class_hash.encode("utf-16-le") + u32(gen.u(rng, 32), 1, 2, 3) + u32(len(block) + 4) + block


def arrange(rng, records):
    """Puts records in pages; returns the pages, their table and what says where each record is."""
    groups, left = [], list(records)
    while left:
        count = rng.choice((1, 2, 3, 5))
        groups.append(left[:count])
        left = left[count:]
    mapped, where = [], []
    for group in groups:
        identifiers = rng.sample(range(1, 900), len(group))
        start = len(mapped)
        room = 16 * (len(group) + 1)
        at = room + rng.choice((0, 0, 8, 300))
        if rng.random() < 0.3:
            # the last one goes on in the next page
            at = max(at, PAGE - sum(len(one) for one in group[:-1]) - rng.randrange(1, max(2, len(group[-1]))))
        offsets, position = [], at
        for one in group:
            offsets.append(position)
            position += len(one)
        shown = sorted(range(len(group)), key=lambda _: rng.random()) if rng.random() < 0.5 else range(len(group))
        descriptors = b"".join(u32(identifiers[index], offsets[index], len(group[index]), gen.u(rng, 32)) for index in shown)
        if rng.random() < 0.1 and offsets[-1] < PAGE:
            # the first of an identifier counts
            descriptors += u32(identifiers[0], 0, 5, 0)
            if room + 16 > at:
                descriptors = descriptors[:-16]
        data = (descriptors.ljust(at, b"\0") + b"".join(group)) if position else b""
        for index, one in enumerate(group):
            where.append((start, identifiers[index], len(one)) if offsets[index] < PAGE else (start, identifiers[index], 0))
        while data:
            mapped.append(data[:PAGE])
            data = data[PAGE:]
    return mapped, where


def place(rng, mapped, spare=3):
    """Physical pages in some order, and the table that says which is which."""
    count = len(mapped) + rng.randrange(spare)
    order = rng.sample(range(count), len(mapped))
    pages = [b""] * count
    for index, number in enumerate(order):
        pages[number] = mapped[index]
    return [one.rstrip(b"\0") for one in pages], order


def repository(rng, v2, hashes, tier):
    """A directory: the files, the keys and whether they have no flaw on purpose."""
    space = hashes.of("__NAMESPACE")
    records, keys, flaw = [], [], None
    roll = rng.random()
    if roll < 0.45:
        flaw = rng.choice(("descriptor", "cycle", "beyond", "gone", "cut", "objects", "index", "maps", "class", "twice", "super", "loop", "key", "key", "root", "map"))

    def key(namespace, kind, name_hash, record, with_class=True, tail=None):
        records.append(record)
        if rng.random() < 0.2:
            name_hash = name_hash.upper()
        keys.append([namespace, (["CI_" + name_hash] if kind in ("I", "IL") else []) if with_class else [], kind, name_hash, len(records) - 1, tail])

    def spaced(name):
        return "NS_" + (hashes.of(name).upper() if rng.random() < 0.2 else hashes.of(name))

    super_name = rng.choice(("", "", "Top", "TOP"))
    record, shape = namespace_class(rng, "__namespace" if flaw == "loop" else super_name)
    if not (flaw == "class"):
        key(spaced("ROOT"), "CD", space, record)
    if super_name and flaw != "super":
        record, _, _ = d_wmiobjects.define(rng, "Top", None, 0, 0, False, False)
        # without properties, as the values of a namespace are where they are
        block = b"\0" + u32(0, 0, 4, 4, 0) + u32(5 | 0x80000000) + b"\0Top\0"
        record = u32(0) + b"\1" + b"\0" * 7 + u32(len(block) + 4) + block
        key(spaced("ROOT"), "CD", hashes.of("Top"), record)
        hashes.of("TOP")
    hashes.of("__namespace")
    # other classes and their instances
    properties, offset, above = [], 0, None
    for depth in range(rng.choice((0, 0, 1, 2, 3))):
        name = rng.choice(("Base", "CIM_Thing", "Win32_\xc9tat")) + str(depth)
        record, own, offset = d_wmiobjects.define(rng, name, above, depth, offset, False, False)
        properties += own
        if rng.random() < 0.03:
            record = record[: rng.randrange(len(record))]
        key(spaced(rng.choice(("ROOT", "__SystemClass"))), "CD", hashes.of(name), record)
        if flaw == "twice" and rng.random() < 0.5:
            key(spaced("ROOT"), "CD", hashes.of(name), namespace_class(rng, "")[0])
        count = len({one for _, _, one in properties})
        last = max(properties, key=lambda item: item[1], default=None)
        size = last[1] + d_wmiobjects.SIZES.get(last[0], 4) if last else 0
        for _ in range(rng.choice((0, 0, 1, 2))):
            if size < 4096:
                data = d_wmiobjects.instance(rng, name, count, properties, size, not v2)
                wide = hashes.of(name).encode("utf-16-le")
                data = wide + data[len(wide):]
                if rng.random() < 0.06:
                    data += gen.blob(rng, rng.choice((40, PAGE, PAGE + 9)) if tier == "thorough" else 40)
                key(spaced(rng.choice(("ROOT", "ROOT\\CIMV2", "other"))), rng.choice(("I", "IL", "IL", "R")), hashes.of(name), data)
        above = rng.choice((name, name, name.upper()))
        hashes.of(above)
    # namespaces
    known = [[name] for name in rng.sample(COMMON, 2) + ["ROOT"]]
    for _ in range(rng.choice((0, 1, 2, 3, 4, 6))):
        texts = rng.choice(known)
        parent = rng.choice(texts)
        name = rng.choice(CHILDREN)
        if rng.random() < 0.03:
            name = None
        elif rng.random() < 0.1:
            parent = rng.choice(("ROOT\\nowhere", "nothing"))
            texts = [parent]
        if name is not None:
            known.append([one + "\\" + name for one in texts])
            for one in list(known[-1]):
                hashes.of(one)
                # it may be a name that is known, or the same in another case
                for other in COMMON + tuple(text for group in known for text in group):
                    if other.upper() == one.upper() and other not in known[-1]:
                        known[-1].append(other)
        key(spaced(parent), rng.choice(("I", "IL", "IL", "IL", "IL")), space, namespace_instance(rng, space, shape, name))
    for group in known:
        for one in group:
            hashes.of(one)
    if rng.random() < 0.1:
        records.append(records[-1][:3] if records else b"abc")
    mapped, where = arrange(rng, records)
    opages, otable = place(rng, mapped)
    # keys
    if rng.random() < 0.7:
        rng.shuffle(keys)
    lines = []
    for namespace, middle, kind, name_hash, index, _ in keys:
        page, identifier, size = where[index]
        values = [str(page), str(identifier), str(size)]
        if rng.random() < 0.1:
            values[rng.randrange(3)] = rng.choice(("+", "0", "00")) + values[rng.randrange(3)]
        if flaw in ("key", "descriptor") and rng.random() < (0.3 if flaw == "key" else 0.15):
            which = rng.randrange(3)
            if flaw == "descriptor":
                values[which] = str(max(0, int(values[which]) + rng.choice((1, -1, 5))))
            else:
                values[which] = rng.choice(("-1", "", "x", "1x", "-0", "0x1", "99999999999", "4294967296", "0"))
                if rng.random() < 0.3:
                    values = rng.choice((values[:2], values + ["1"], []))
        segment = kind + "_" + name_hash + "".join("." + one for one in values)
        line = [namespace] + middle + [segment]
        if rng.random() < 0.1:
            line = rng.choice(([namespace] + [segment], [namespace] + middle + ["KI_" + name_hash] + [segment], ["NX_" + name_hash] + middle + [segment]))
        lines.append(line)
        if rng.random() < 0.1:
            lines.append(rng.choice((line, line[:1], line[:2], ["C_x", "y"], [])))
    if rng.random() < 0.3:
        lines.insert(rng.randrange(len(lines) + 1), [spaced(rng.choice(COMMON)), "CR_" + "0" * 32, "C_" + "0" * 32])
    # the tree of index pages
    count = rng.choice((1, 1, 2, 3, 4))
    parents = [None] + [rng.randrange(number) for number in range(1, count)]
    shares = [[] for _ in range(count)]
    for line in lines:
        shares[rng.randrange(count)].append(line)
    numbers = rng.sample(range(1, count + 3), count)
    if v2:
        numbers = [1] + rng.sample(range(2, count + 3), count - 1)
    pages = {}
    for number in range(count):
        subs = [numbers[other] for other in range(count) if parents[other] == number]
        while len(shares[number]) < len(subs) - 1:
            shares[number].append(["K_z"])
        if number == count - 1 and flaw == "cycle":
            subs = (subs + [numbers[rng.randrange(count)]])[: len(shares[number]) + 1]
        if number == 0 and flaw == "beyond":
            subs = [rng.choice((count + 9, 0x80000000))] + subs
        rng.shuffle(subs)
        kind = 0xBADD if flaw == "root" and rng.random() < 0.4 else 0xACCC
        pages[numbers[number]] = d_wmimap.page(rng, shares[number], subs, number, kind=kind)
    pages[0] = d_wmimap.page(rng, [], (), 0, kind=0xADDD if flaw != "root" or rng.random() < 0.5 else 0xACCC, root=numbers[0] if flaw != "root" or rng.random() < 0.5 else rng.choice((0, 77)))
    order = sorted(pages)
    ipages, physical = place(rng, [pages[number][:PAGE] for number in order])
    itable = [rng.choice((0xFFFFFFFF, 0)) for _ in range(max(order) + 1)]
    for index, number in enumerate(order):
        itable[number] = physical[index]
    ipages = [one or d_wmimap.page(rng, [], (), 0, kind=rng.choice((0xACCC, 0xBADD))).rstrip(b"\0") for one in ipages]
    if flaw == "gone":
        table = rng.choice((itable, otable))
        if table:
            table[rng.randrange(len(table))] = rng.choice((0xFFFFFFFF, 50))
    isize, osize = PAGE * len(ipages), PAGE * len(opages)
    if flaw == "cut":
        if rng.random() < 0.5 and isize:
            isize -= rng.choice((1, PAGE, PAGE // 2))
        elif osize:
            osize -= rng.choice((1, PAGE, PAGE // 2, PAGE - 8))

    def cut(pages_, size):
        return {"pages": [one[: max(0, size - PAGE * number)].rstrip(b"\0") for number, one in enumerate(pages_) if PAGE * number < size], "size": size}

    # the mapping files
    def both(sequence):
        return d_wmimap.mapping(rng, v2, otable, itable, sequence)

    def other(sequence):
        return d_wmimap.mapping(rng, v2, rng.choice(([], otable[::-1])), rng.choice(([], itable[::-1])), sequence)

    sequence = rng.choice((3, 8, 0xFFFFFFF0))
    files = {"im": [], "om": [], "m": [[], [], []], "ver": [], "index": [cut(ipages, isize)], "objects": [cut(opages, osize)]}
    if rng.random() < 0.5:
        files["im"] = [rng.choice((both(1), d_wmimap.mapping(rng, v2, otable, itable, 2)))]
        if not v2 and rng.random() < 0.5:
            files["im"] = [d_wmimap.section(False, 4, itable, [1], len(itable), 0)]
    if rng.random() < (0.7 if files["im"] else 0.3):
        files["om"] = [d_wmimap.mapping(rng, v2, otable)]
    if not files["im"] or not files["om"] or rng.random() < 0.2:
        right = rng.randrange(3)
        for number in range(3):
            if number == right:
                files["m"][number] = [both(sequence)]
            elif rng.random() < 0.6:
                # the first of those with the same number counts
                files["m"][number] = [other(sequence - rng.choice((1, 2) if number < right else (0, 1, 2)))]
    if rng.random() < 0.4:
        files["ver"] = [rng.choice((u32(1), u32(2), u32(3), u32(9), u32(0xFFFFFFFF) + b"x"))]
    if flaw == "objects":
        files["objects"] = []
    if flaw == "index":
        files["index"] = []
    if flaw == "maps":
        files[rng.choice(("im", "om"))] = []
        files["m"][rng.randrange(3)] = []
        if rng.random() < 0.5:
            files["m"] = [[], [], []]
        if rng.random() < 0.4:
            files["ver"] = [rng.choice((b"", b"\1\0\0"))]
    if flaw == "map":
        number = rng.choice(("im", "om", 0, 1, 2))
        holder, name = (files, number) if isinstance(number, str) else (files["m"], number)
        data = holder[name][0] if holder[name] else both(2)
        holder[name] = [gen.mutate(rng, data, [(0, 4), (4, 4), (8, 4), (12, 4), (16, 4), (20, 4)])[1]]
    return files, ["\\" + "\\".join(line) for line in lines]


def history(rng, keys, number, files):
    """Calls, from opening to closing."""
    as_ = "dir"
    if rng.random() < 0.12:
        as_ = rng.choice(("index.btr", "index.map", "objects.map", "mapping1.map", "mapping3.map"))
    ops = [{"op": "open", "dir": number, "as": as_, "key": []}]
    calls = []
    if as_ in ("dir", "index.btr"):
        calls += ["keys"] * rng.choice((0, 1, 1))
    extra = [rng.choice(("\\x", "", "CD_a.0.1.1", "\\NS_a\\IL_b.1.2", "\\a\\_.0.1.0", "R_1.0.1.00", "\\I_2.0.-1.4")) for _ in range(rng.choice((0, 1)))]
    for key in rng.sample(keys, min(len(keys), rng.choice((0, 1, 2, 3)))) + extra:
        calls.append(key)
    if as_ == "dir":
        calls += rng.choice((["instances", "namespaces"], ["namespaces", "namespaces"], ["namespaces"], ["instances"], ["namespaces", "instances", "namespaces"]))
    rng.shuffle(calls)
    for call in calls:
        if call in ("keys", "instances", "namespaces"):
            ops.append({"op": call, "dir": number, "as": "dir", "key": []})
        else:
            ops.append({"op": "record", "dir": number, "as": "dir", "key": vt.text(call)})
    ops.append({"op": "close", "dir": number, "as": "dir", "key": []})
    if rng.random() < 0.2:
        ops.append({"op": rng.choice(("keys", "record", "close")), "dir": number, "as": "dir", "key": vt.text("\\IL_2.0.1.4")})
    return ops


def scenarios(rng, tier, dumped):
    result = []
    for number, (_, scenario) in enumerate(dumped):
        source = scenario["src"]
        dirs = []
        for one in source["dirs"]:
            dirs.append({**{name: [bytes(data) for data in one[name]] for name in ("im", "om", "ver")}, "m": [[bytes(data) for data in m] for m in one["m"]],
                         **{name: [{"pages": [bytes(page) for page in file["pages"]], "size": file["size"]} for file in one[name]] for name in ("index", "objects")}})
        result.append({"name": f"model-{number}", "dirs": dirs, "hashes": source["hashes"], "ops": source["ops"], "names": ["R"], "case": number})
    for number in range(130 if tier == "quick" else 3000):
        v2 = rng.random() < 0.5
        hashes = Hashes(v2)
        files, keys = repository(rng, v2, hashes, tier)
        dirs, ops = [files], history(rng, keys, 1, files)
        if rng.random() < 0.4:
            ops += history(rng, keys, 1, files)
        if rng.random() < 0.25:
            hashes.v2 = rng.random() < 0.5
            files, keys = repository(rng, hashes.v2, hashes, tier)
            dirs.append(files)
            ops += history(rng, keys, 2, files)
        table = [{"n": vt.text(name), "md5": vt.text(one), "sha": vt.text(two)} for name, (one, two) in hashes.names.items()]
        result.append({"name": f"random-{number}", "dirs": dirs, "hashes": table, "ops": ops, "names": rng.sample(DIRECTORIES, len(dirs)), "case": rng.randrange(1 << 16)})
    return result


def spell(name, case):
    """A file name in lower, upper or mixed case."""
    return (name, name.upper(), name.title(), name.swapcase(), name.capitalize())[case % 5]


def observe(scenario):
    from dtformats import wmi_repository

    logging.disable(logging.CRITICAL)

    def body(debug, writer, out, directory):
        roots, paths = [], []
        for number, files in enumerate(scenario["dirs"]):
            root = os.path.join(directory, scenario["names"][number])
            os.makedirs(root)
            roots.append(root)
            flat = {"im": files["im"], "om": files["om"], "ver": files["ver"], "m1": files["m"][0], "m2": files["m"][1], "m3": files["m"][2],
                    **{name: [d_wmimap.whole(file["pages"], file["size"]) for file in files[name]] for name in ("index", "objects")}}
            shown = {}
            for index, (name, data) in enumerate(flat.items()):
                shown[NAMES[name]] = os.path.join(root, spell(NAMES[name], scenario["case"] >> index))
                if data:
                    with open(shown[NAMES[name]], "wb") as file_object:
                        file_object.write(data[0].ljust(files[name][0]["size"], b"\0") if name in ("index", "objects") else data[0])
            shown["dir"] = root
            paths.append(shown)

        def files_open():
            count = 0
            for one in os.listdir("/proc/self/fd"):
                try:
                    if os.readlink(f"/proc/self/fd/{one}").startswith(directory):
                        count += 1
                except OSError:
                    pass
            return count

        def shown_instance(item):
            return {"name": vt.text(item.class_name), "derivation": [vt.text(one) for one in item.derivation], "dynasty": d_wmiobjects.value(item.dynasty), "super": d_wmiobjects.value(item.super_class_name),
                    "ps": d_wmiobjects.pairs(item.properties), "ns": vt.text(item.namespace or "")}

        reader = wmi_repository.CIMRepository(debug=debug, output_writer=writer)
        failed = False
        for op in scenario["ops"]:
            if failed and op["op"] != "close":
                continue
            kind, result = op["op"], "ok"
            try:
                if kind == "open":
                    reader.Open(paths[op["dir"] - 1][op["as"]])
                elif kind == "close":
                    reader.Close()
                elif kind == "keys":
                    for key in reader.GetIndexKeys():
                        out.append({"k": "!key", "v": vt.text(key)})
                elif kind == "record":
                    record = reader.GetObjectRecordByKey("".join(map(chr, op["key"])))
                    if record is None:
                        kind = "no record"
                    else:
                        out.append({"k": "!record", "v": {"type": vt.text(record.data_type), "d": list(record.data)}})
                else:
                    for item in reader.GetInstances() if kind == "instances" else reader.GetNamespaces():
                        out.append({"k": "!instance", "v": shown_instance(item)})
            except Exception as exception:
                result = type(exception).__name__
                failed = kind == "open"
            if kind == "close":
                failed = False
            out.append({"k": "!end", "v": {"op": kind, "res": result, "version": str(reader.format_version), "files": files_open()}})
        reader.Close()

    parts = dbg.run_dir(body)
    parts[0]["obs"] = [event for event in parts[0]["obs"] if event["k"].startswith("!")]
    return parts


def trace_input(scenario, part):
    dirs = []
    for files in scenario["dirs"]:
        dirs.append({**{name: [list(data) for data in files[name]] for name in ("im", "om", "ver")}, "m": [[list(data) for data in m] for m in files["m"]],
                     **{name: [{"pages": [list(page) for page in file["pages"]], "size": file["size"]} for file in files[name]] for name in ("index", "objects")}})
    return {"src": {"dirs": dirs, "hashes": scenario["hashes"], "debug": not part.get("api", False), "ops": scenario["ops"]}}
