"""Conformance of the WMF and EMF readers with spec/Wemf.tla."""

import os
import struct

import dbg
import gen
import vt

SPEC = "Wemf"
EXTRA = {"Kind": "kind"}
MODELS = {
    "quick": [("WemfMC", "WemfMC.cfg")],
    "thorough": [("WemfMC", "WemfMC_thorough.cfg")],
}
EMF_TYPES = (24, 24, 37, 37, 37, 1, 14, 22, 70, 122, 123, 0, 0xFFFFFFFF)
WMF_TYPES = (0x103, 0x107, 0x127, 0x20B, 0x20C, 0xB41, 0xB41, 0x1E, 0, 0xF43, 0x12D, 0x999)
OPERATIONS = (0x42, 0x00010289, 0x00020C89, 0x001100A6, 0x00CC0020, 0x00FF0062, 0x00550009, 0x00F00021, 0x002606C8, 0x00310B28)


def emf(rng):
    size = rng.choice((108, 108, 108, 88, 100, 124, 140, 87))
    data = struct.pack("<II", rng.choice((1, 1, 1, gen.u(rng, 32))), size) + gen.blob(rng, 32)
    data += rng.choice((b" EMF", b" EMF", gen.blob(rng, 4))) + struct.pack("<IIIHHII", *(gen.u(rng, bits) for bits in (32, 32, 32, 16, 16, 32, 32))) + gen.blob(rng, 40)
    data = data[:108] + gen.blob(rng, max(0, size - 108)) if size >= 108 else data[:size]
    hot = [(4, 4)]
    for _ in range(rng.choice((0, 1, 2, 3, 6))):
        kind = rng.choice(EMF_TYPES)
        content = gen.blob(rng, rng.choice((0, 4, 4, 4, 8, 12, 40)))
        if kind == 37 and len(content) >= 4 and rng.random() < 0.7:
            content = struct.pack("<I", rng.choice((0x80000000, 0x80000005, 0x80000009, 0x80000013, 0x80000014, 7))) + content[4:]
        hot += [(len(data), 4), (len(data) + 4, 4)]
        data += struct.pack("<II", kind, 8 + len(content)) + content
    return data, hot


def wmf(rng):
    data = b""
    if rng.random() < 0.5:
        data = b"\xd7\xcd\xc6\x9a" + gen.blob(rng, 18)
    hot = [(0, 4), (len(data), 2), (len(data) + 2, 2)]
    data += struct.pack("<HHHHHHIH", rng.choice((1, 1, 2, 2, 2, 3)), 9, *(gen.u(rng, bits) for bits in (16, 16, 16, 16, 32, 16)))
    for _ in range(rng.choice((0, 1, 2, 3, 6))):
        kind = rng.choice(WMF_TYPES)
        size = {0x103: 2, 0x107: 2, 0x127: 2, 0x20B: 4, 0x20C: 4, 0xB41: 20}.get(kind, rng.choice((0, 2, 8, 30)))
        size = max(0, size + rng.choice((0, 0, 0, 0, 2, 10, -2)))
        content = gen.blob(rng, size)
        if kind == 0xB41 and rng.random() < 0.8:
            content = (struct.pack("<I", rng.choice(OPERATIONS)) + content[4:])[:size]
        elif kind in (0x103, 0x107) and rng.random() < 0.8:
            content = (struct.pack("<H", rng.choice((0, 1, 2, 3, 4, 5, 8, 9))) + content[2:])[:size]
        hot += [(len(data), 4), (len(data) + 4, 2)]
        data += struct.pack("<IH", (6 + len(content)) // 2, kind) + content
    return data, hot


def scenarios(rng, tier, dumped):
    result = gen.model_inputs(dumped, 400, tier)
    for number in range(500 if tier == "quick" else 8000):
        which = rng.choice(("emf", "wmf"))
        data, hot = emf(rng) if which == "emf" else wmf(rng)
        kind = "random"
        if rng.random() < 0.3:
            kind, data = gen.mutate(rng, data, hot)
        result.append({"name": f"{which}-{kind}-{number}", "kind": which, "data": data})
    # every known number of a record type, object, mode and raster operation
    head = emf(rng)[0][:4] + struct.pack("<I", 108) + bytes(100)
    for start in range(0, 130, 26):
        data = head + b"".join(struct.pack("<III", kind, 12, 0x80000000 + kind % 24) for kind in range(start, start + 26))
        result.append({"name": f"emf-types-{start}", "kind": "emf", "data": data})
    data = head + b"".join(struct.pack("<III", 37, 12, 0x80000000 + number) for number in range(24))
    result.append({"name": "emf-objects", "kind": "emf", "data": data})
    head = struct.pack("<HHHHHHIH", 2, 9, 0x300, 0, 0, 0, 0, 0)
    for operations in (OPERATION_CODES[index : index + 32] for index in range(0, 256, 32)):
        data = head + b"".join(struct.pack("<IHI", 13, 0xB41, code) + bytes(16) for code in operations)
        result.append({"name": f"wmf-operations-{operations[0]}", "kind": "wmf", "data": data})
    for high in range(0, 16):
        data = head + b"".join(struct.pack("<IH", 13, kind) + bytes(20) for kind in WMF_CODES if kind >> 8 == high)
        result.append({"name": f"wmf-types-{high}", "kind": "wmf", "data": data})
    for name, which, limit in (("grid.wmf", "wmf", 100000), ("Memo.emf", "emf", 6000)):
        with open(os.path.join(vt.REPO, "test_data", name), "rb") as file_object:
            corpus = file_object.read()[:limit]
        result.append({"name": name, "kind": which, "data": corpus})
        for number in range(5 if tier == "quick" else 100):
            kind, data = gen.mutate(rng, corpus[: rng.choice((200, 1000, 3000))], [(0, 4), (4, 4), (22, 4), (40, 4), (46, 2)])
            result.append({"name": f"{name}-{kind}-{number}", "kind": which, "data": data})
    return result


def names():
    """The codes the specification names."""
    table = {}
    current = None
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "WemfNames.tla"), encoding="ascii") as file_object:
        for line in file_object:
            if line.endswith("== <<\n"):
                current = table.setdefault(line.split()[0], [])
            elif line.startswith("  <<"):
                high, low = line.strip(" <").split(",")[:2]
                current.append(int(high) << 16 | int(low))
    return table


OPERATION_CODES = names()["RasterOperations"]
WMF_CODES = names()["WmfTypes"]


def observe(scenario):
    from dtformats import wemf

    reader = wemf.EMFFile if scenario["kind"] == "emf" else wemf.WMFFile
    return dbg.run_file(lambda debug, writer: reader(debug=debug, output_writer=writer), scenario["data"])


def trace_input(scenario, _part):
    return {"src": list(scenario["data"]), "kind": scenario["kind"]}
