"""Conformance of the WMI class definitions and instances with spec/WmiObjects.tla."""

import struct

import dbg
import gen
import vt

SPEC = "WmiObjects"
MODELS = {
    "quick": [("WmiObjectsMC", "WmiObjectsMC.cfg")],
    "thorough": [("WmiObjectsMC", "WmiObjectsMC_thorough.cfg")],
}
SIZES = {2: 2, 3: 4, 4: 4, 5: 8, 11: 2, 16: 1, 17: 1, 18: 2, 19: 4, 20: 8, 21: 8}
ARRAYS = (8194, 8195, 8196, 8197, 8200, 8203, 8208, 8209, 8210, 8211, 8212, 8213)
TYPES = {2: "sint16", 3: "sint32", 4: "real32", 5: "real64", 8: "string", 11: "boolean", 16: "sint8", 17: "uint8", 18: "uint16", 19: "uint32", 20: "sint64", 21: "uint64", 101: "datetime", 102: "ref:Win32_Thing"}
NAMES = ("Name", "name", "NAME", "Handle", "Caption", "Size", "Enabled", "Ratio", "\xc9tat", "\xe9tat", "__PATH", "")
WORDS = ("", "a", "Win32_Process", "caf\xe9", "\u20ac 5", "root\\cimv2", "x" * 40, "a:b")
PREDEFINED = (1, 3, 4, 6, 7, 10, 0, 2, 99, 0x7FFFFFFF)
QUALIFIERS = ("key", "KEY", "Description", "abstract", "Abstract", "MaxLen", "CIMTYPE", "\xc9t\xe9", "")


def u16(value):
    return struct.pack("<H", value & 0xFFFF)


def u32(value):
    return struct.pack("<I", value & 0xFFFFFFFF)


class Values:
    """The strings (and other data) of a block, by offset."""

    def __init__(self, rng):
        self.rng = rng
        self.data = b""

    def add(self, data):
        if self.rng.random() < 0.2:
            self.data += b"\0" * self.rng.randrange(1, 5)
        offset = len(self.data)
        self.data += data
        return offset

    def text(self, text):
        raw = text.encode("cp1252")
        return self.add(bytes([self.rng.choice((0, 0, 0, 1, 0x80, 255))]) + raw + b"\0")


def number(rng, kind):
    """The data of a value of a type."""
    if kind == 11:
        return rng.choice((b"\0\0", b"\xff\xff", b"\xff\xff") + ((b"\1\0",) if rng.random() < 0.2 else ()))
    if kind == 4:
        return struct.pack("<f", rng.choice((0.0, -0.0, 1.5, -0.25, 1e10, 3.0)))
    if kind == 5:
        return struct.pack("<d", rng.choice((0.0, -0.0, 1.5, -0.25, 1e15, 3.0, float("inf"))))
    size = SIZES[kind]
    return gen.u(rng, 8 * size).to_bytes(size, "little")


def qualifiers(rng, values, floats, type_name=None):
    """Qualifiers, with the type of a property."""
    items = []
    for _ in range(rng.choice((0, 0, 1, 2))):
        items.append(None)
    if type_name is not None:
        items.append("type")
        rng.shuffle(items)
    data = b""
    for item in items:
        if item == "type":
            name = 0x8000000A if rng.random() < 0.9 else values.text(rng.choice(("type", "Type", "TYPE")))
            kind = 8
            value = u32(values.text(type_name))
            if rng.random() < 0.02:
                kind, value = 19, u32(rng.choice((0, 7)))
        else:
            name = 0x80000000 | rng.choice(PREDEFINED[:5] * 3 + PREDEFINED[6:]) if rng.random() < 0.4 else values.text(rng.choice(QUALIFIERS))
            kind = rng.choice((8, 8, 11, 11) + ((4, 5) if floats else ()) + (2, 3, 16, 17, 18, 19, 20, 21) + ARRAYS[:: rng.choice((1, 3))])
            if kind in SIZES:
                value = number(rng, kind)
            else:
                value = u32(values.text(rng.choice(WORDS)))
            if rng.random() < 0.005:
                kind = rng.choice((0, 13, 101, 0x4008, 0x6002))
        data += u32(name) + bytes([rng.choice((0, 1, 127))]) + u32(kind) + value
    return data


def define(rng, name, super_name, depth, offset, floats, wild):
    """A class definition; returns (data of its record, properties, next offset)."""
    values = Values(rng)
    if rng.random() < 0.7:
        values.add(b"\0")
    name_offset = values.text(name)
    properties = []
    descriptors = b""
    for index in range(rng.choice((0, 1, 1, 2, 3, 5))):
        kind = rng.choice(tuple(SIZES) + (8, 8, 101, 102, 8200, 8200) + (8211, 8203, 13, 103, 0x400B, 0x4008)) if wild else rng.choice(tuple(SIZES) + (8, 8, 8, 101, 102, 8200, 8200))
        if not floats and kind in (4, 5):
            kind = 19
        property_name = rng.choice(NAMES)
        if rng.random() < 0.15:
            index_ = rng.choice(PREDEFINED)
            name_at = 0x80000000 | index_
            property_name = None
        else:
            name_at = values.text(property_name)
        type_name = TYPES.get(kind, rng.choice(("string", "uint32", "object:x")))
        if rng.random() < 0.3:
            type_name = rng.choice((type_name.upper(), type_name.title()))
        roll = rng.random()
        if roll < 0.06:
            # another type of the same size or not
            type_name = rng.choice(("uint32", "sint32", "boolean", "uint8", "uint64", "offset", "string", "uint16:x"))
        elif roll < 0.08:
            type_name = rng.choice(("", "OBJECT", "nothing", ":"))
        elif roll < (0.3 if depth else 0.1):
            type_name = None if rng.random() < 0.25 else type_name
        size = SIZES.get(kind, 4)
        at = offset
        if rng.random() < 0.08:
            at = rng.choice((0, 1, max(0, offset - 1), offset + 3))
        data = qualifiers(rng, values, floats, type_name)
        block_size = 4 + len(data) + (rng.choice((-4, -1, 1, 2)) if rng.random() < 0.01 else 0)
        definition = u32(kind) + u16(rng.choice((index, 7, 65535))) + u32(at) + u32(rng.choice((0, 1, 2))) + u32(block_size) + data
        descriptors += u32(name_at) + u32(values.add(definition))
        if type_name:
            key = (property_name if property_name is not None else f"\0{index_}").lower()
            properties.append((kind, at, key))
        offset = max(offset, at + size)
    super_block = bytes([rng.choice((0, 1))]) + super_name.encode("cp1252") + b"\0" if super_name is not None else b""
    super_block = super_block + (u32(len(super_block) + 4) if super_block and rng.random() < 0.3 else b"")
    class_qualifiers = qualifiers(rng, values, floats)
    default = gen.blob(rng, rng.choice((0, 0, 3, 9)))
    if rng.random() < 0.3:
        values.add(gen.blob(rng, 3))
    block = bytes([rng.choice((0, 1))]) + u32(name_offset) + u32(len(default)) + u32(len(super_block) + 4) + super_block
    block += u32(len(class_qualifiers) + 4) + class_qualifiers + u32(len(descriptors) // 8) + descriptors + default
    block += u32(len(values.data) | 0x80000000) + values.data
    if rng.random() < 0.5:
        block += u32(0x80000004) + gen.blob(rng, rng.choice((0, 2)))
    if rng.random() < 0.05:
        kind, block = gen.mutate(rng, block, [(offset, 4) for offset in (1, 5, 9, 13)])
        # a bit of the values size that is not used, and the lines of the report
        block = block.replace(b"\n", b"\x0b").replace(b"\t", b"\x0b")
    wide = (super_name or "").encode("utf-16-le")
    record = u32(len(wide) // 2) + wide + struct.pack("<Q", rng.choice((0, 1, 128166372003061629, 116444736000000000, gen.u(rng, 60)))) + u32(len(block) + 4) + block
    if rng.random() < 0.1:
        record += gen.blob(rng, 4)
    return record, properties, offset


def instance(rng, name, count, properties, size, v1):
    values = Values(rng)
    name_at = values.text(name)
    fixed = bytearray(size)
    for kind, at, _ in properties:
        if kind in SIZES:
            data = number(rng, kind)
        elif kind in (8, 101, 102) and rng.random() < 0.9:
            data = u32(values.text(rng.choice(WORDS + ("20260101000000.000000+000",)))) if rng.random() < 0.8 else u32(0)
        elif kind == 8200 and rng.random() < 0.95:
            offsets = [values.text(rng.choice(WORDS)) for _ in range(rng.choice((1, 2, 3, 1, 2, 0)))]
            data = u32(values.add(u32(len(offsets)) + b"".join(u32(offset) for offset in offsets))) if rng.random() < 0.8 else u32(0)
        else:
            data = u32(gen.u(rng, 16))
        fixed[at : at + len(data)] = data[: max(0, size - at)]
    block = u32(name_at) + bytes([rng.choice((0, 1, 255))]) + gen.blob(rng, (count + 3) // 4) + bytes(fixed)
    extra = gen.blob(rng, rng.choice((0, 0, 5)))
    block += u32(len(extra) + 4) + extra
    if rng.random() < 0.6:
        block += b"\1"
    else:
        entries = [gen.blob(rng, rng.randrange(0, 5)) for _ in range(rng.randrange(0, 3))]
        block += b"\2" + u32(len(entries)) + b"".join(u32(len(entry) + 4) + entry for entry in entries)
    block += u32(gen.u(rng, 32)) + values.data
    if rng.random() < 0.15:
        kind, block = gen.mutate(rng, block, [(0, 4)])
        block = block.replace(b"\n", b"\x0b").replace(b"\t", b"\x0b")
    wide = "".join(rng.choice("0123456789ABCDEF") for _ in range(32 if v1 else 64)).encode("utf-16-le")
    record = wide + struct.pack("<QQ", gen.u(rng, 60), rng.choice((0, 128166372003061629))) + u32(len(block) + 4) + block
    if rng.random() < 0.03:
        record = record[: rng.randrange(len(record))]
    return record


def registration(rng):
    data = b""
    for _ in range(4):
        wide = rng.choice(WORDS + ("\u65e5\u672c", "\U0001d11e")).encode("utf-16-le")
        data += u32(len(wide) // 2) + wide
    data += gen.blob(rng, 8)
    if rng.random() < 0.2:
        _, data = gen.mutate(rng, data, [(0, 4)])
        data = data.replace(b"\n", b"\x0b").replace(b"\t", b"\x0b")
    return data


def scenarios(rng, tier, dumped):
    result = []
    step = max(1, len(dumped) // 160) if tier == "quick" else 1
    for number_, (_, scenario) in enumerate(dumped):
        if number_ % step:
            continue
        source = scenario["src"]
        result.append({"name": f"model-{number_}", "v1": source["v1"], "floats": source["floats"],
                       **{key: [bytes(one) for one in source[key]] for key in ("classes", "instances", "registrations")}})
    for number_ in range(420 if tier == "quick" else 5000):
        floats = rng.random() < 0.3
        v1 = rng.random() < 0.5
        wild = rng.random() < 0.4
        classes, properties, offset, super_name = [], [], 0, None
        for depth in range(rng.choice((1, 1, 2, 2, 3, 4))):
            name = rng.choice(("Base", "CIM_Thing", "Win32_\xc9tat")) + str(depth)
            record, own, offset = define(rng, name, super_name, depth, offset, floats, wild)
            classes.append(record)
            properties += own
            super_name = name
        # the layout of the values, had every class been accepted
        count = len({key for _, _, key in properties})
        last = max(properties, key=lambda item: item[1], default=None)
        size = last[1] + SIZES.get(last[0], 4) if last else 0
        instances = [instance(rng, name, count, properties, size, v1) for _ in range(rng.choice((0, 1, 1, 2)))] if size < 4096 else []
        registrations = [registration(rng)] if rng.random() < 0.2 else []
        result.append({"name": f"random-{number_}", "v1": v1, "floats": floats, "classes": classes, "instances": instances, "registrations": registrations})
    for number_ in range(40 if tier == "quick" else 400):
        result.append({"name": f"registration-{number_}", "v1": True, "floats": False, "classes": [], "instances": [], "registrations": [registration(rng), registration(rng)]})
    return result


def load(record, debug=False, writer=None):
    from dtformats import wmi_repository

    reference = wmi_repository.ClassDefinitionReference(debug=debug, output_writer=writer)
    reference.ReadObjectRecord(record)
    definition = wmi_repository.ClassDefinition(debug=debug, output_writer=writer)
    definition.ReadClassDefinitionBlock(reference.data, record_data_offset=reference.offset)
    return reference, definition


def value(item):
    if item is None:
        return {"t": "none", "v": []}
    if isinstance(item, bool):
        return {"t": "bool", "v": [1] if item else []}
    if isinstance(item, int):
        return {"t": "int", "v": [1 if item < 0 else 0] + vt.nat(abs(item))}
    if isinstance(item, float):
        return {"t": "flt", "v": vt.text(f"{item:f}")}
    if isinstance(item, list):
        return {"t": "strs", "v": [vt.text(one) for one in item]}
    return {"t": "str", "v": vt.text(item)}


def pairs(mapping):
    return [{"n": vt.text(name), "v": value(item)} for name, item in mapping.items()]


def observe(scenario):
    from dtformats import wmi_repository

    def body(debug, writer, out, directory):
        definitions = []
        for record in scenario["classes"]:
            reference, definition = load(record, debug, writer)
            if debug:
                definition.DebugPrint()
            definitions.append(definition)
            shown = []
            for name, item in definition.properties.items():
                shown.append({"n": vt.text(name), "index": vt.nat(item.index), "offset": vt.nat(item.value_data_offset), "dt": vt.nat(item.value_data_type), "q": pairs(item.qualifiers)})
                if item.name != name:
                    out.append({"k": "!name", "v": [vt.text(item.name), vt.text(name)]})
            out.append({"k": "!class", "v": {"super": vt.text(reference.super_class_name), "abstract": value(definition.IsAbstract()),
                                            "c": {"name": vt.text(definition.name), "super": value(definition.super_class_name), "q": pairs(definition.qualifiers), "ps": shown}}})
        if definitions:
            layout = wmi_repository.ClassValueDataMap()
            layout.Build(definitions)
            shown = [{"key": vt.text(key), "name": vt.text(item.name), "dt": vt.nat(item.data_type), "offset": vt.nat(item.offset), "size": item.size, "tq": vt.text(item.type_qualifier)} for key, item in layout.properties.items()]
            out.append({"k": "!layout", "v": {"ok": True, "name": vt.text(layout.class_name), "derivation": [vt.text(one) for one in layout.derivation], "super": value(layout.super_class_name),
                                              "dynasty": value(layout.dynasty), "ps": shown, "size": vt.nat(layout.properties_size)}})
            for record in scenario["instances"]:
                reference = wmi_repository.InstanceReference("2.1" if scenario["v1"] else "2.2", debug=debug, output_writer=writer)
                reference.ReadObjectRecord(record)
                item = wmi_repository.Instance(debug=debug, output_writer=writer)
                item.ReadInstanceBlockData(layout, reference.data, record_data_offset=reference.offset)
                if debug:
                    item.DebugPrint()
                out.append({"k": "!instance", "v": {"hash": vt.text(reference.class_name_hash), "name": vt.text(item.class_name), "ps": pairs(item.properties)}})
        for record in scenario["registrations"]:
            wmi_repository.Registration(debug=debug, output_writer=writer).ReadObjectRecord(record)

    parts = dbg.run_dir(body)
    # how a floating-point value is shown is not specified
    if scenario["floats"]:
        parts[0]["bind"] = False
    return parts


def trace_input(scenario, part):
    return {"src": {"v1": scenario["v1"], "floats": scenario["floats"], **{key: [list(one) for one in scenario[key]] for key in ("classes", "instances", "registrations")}}}
