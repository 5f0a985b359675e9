"""Conformance of the structure reading core with spec/Core.tla."""

import io

import vt

SPEC = "Core"
MODELS = {
    "quick": [("CoreMC", "CoreMC.cfg")],
    "thorough": [("CoreMC", "CoreMC_thorough.cfg")],
}

YAML = b"""name: vt
type: format
---
name: byte
type: integer
attributes:
  format: unsigned
  size: 1
  units: bytes
---
name: uint8
type: integer
attributes:
  format: unsigned
  size: 1
  units: bytes
---
name: char
type: integer
attributes:
  format: unsigned
  size: 1
  units: bytes
---
name: uint16
type: integer
attributes:
  format: unsigned
  size: 2
  units: bytes
---
name: uint32
type: integer
attributes:
  format: unsigned
  size: 4
  units: bytes
---
name: uint64
type: integer
attributes:
  format: unsigned
  size: 8
  units: bytes
---
name: item
type: structure
attributes:
  byte_order: little-endian
members:
- name: n
  data_type: uint8
- name: d
  type: stream
  element_data_type: byte
  elements_data_size: item.n
"""


def _member_yaml(types, index, name):
    t = types[index]
    if t["t"] == "u":
        return f"- name: m{index + 1}\n  data_type: uint{8 * t['n']}\n"
    if t["t"] == "bytes":
        return (f"- name: m{index + 1}\n  type: stream\n  element_data_type: byte\n"
                f"  elements_data_size: {name}.m{t['ref']}\n")
    if t["t"] == "arr":
        return (f"- name: m{index + 1}\n  type: sequence\n  element_data_type: uint{8 * t['n']}\n"
                f"  number_of_elements: {name}.m{t['ref']}\n")
    if t["t"] == "cstr":
        return (f"- name: m{index + 1}\n  type: string\n  encoding: latin1\n  element_data_type: char\n"
                f"  elements_terminator: \"\\x00\"\n")
    return (f"- name: m{index + 1}\n  type: sequence\n  element_data_type: item\n"
            f"  number_of_elements: {name}.m{t['ref']}\n")


def _struct_yaml(name, types):
    order = "big-endian" if any(t.get("be") for t in types) else "little-endian"
    text = f"---\nname: {name}\ntype: structure\nattributes:\n  byte_order: {order}\nmembers:\n"
    for index in range(len(types)):
        text += _member_yaml(types, index, name)
    return text.encode("ascii")


def random_type(rng):
    be = rng.randrange(2)
    u = lambda n: {"t": "u", "n": n, "be": be, "ref": 0}
    members = [u(rng.choice((1, 1, 2)))]
    for _ in range(rng.randrange(0, 5)):
        kind = rng.choice(("u", "u", "bytes", "arr", "cstr"))
        refs = [i + 1 for i, m in enumerate(members) if m["t"] == "u" and m["n"] <= 2]
        ref = rng.choice(refs)
        if kind == "u":
            members.append(u(rng.choice((1, 2, 4, 8))))
        elif kind == "arr":
            members.append({"t": "arr", "n": rng.choice((1, 2, 4)), "be": be, "ref": ref})
        else:
            members.append({"t": kind, "n": 0, "be": be, "ref": ref if kind != "cstr" else 0})
    return members


def scenarios(rng, tier, dumped):
    result = []
    for number, (_, scen) in enumerate(dumped):
        result.append({"name": f"model-{number}", "s": scen})
    for number in range(1500 if tier == "quick" else 20000):
        types = random_type(rng)
        data = [rng.choice((0, 0, 1, 1, 2, 3, 4, 5, 65, 97, 200, 255)) for _ in range(rng.choice((0, 1, 3, 8, 20, 60, 400)))]
        off = rng.choice((0, 0, 1, 2, 7, len(data), len(data) + 1))
        op = rng.choice(("struct", "struct", "struct", "struct", "data", "stream"))
        if op == "stream":
            off = 0
            data = data or [1]
        size = 0
        if op == "data":
            size = rng.choice((0, 1, 2, len(data), max(0, len(data) - off), len(data) + 1, 5))
        if rng.random() < 0.05 and op != "stream":
            off = rng.choice((-1, -5, 1073741823))
        if rng.random() < 0.05 and op == "data":
            size = rng.choice((-1, -2, 1073741823))
        result.append({"name": f"random-{number}", "s": {"data": data, "off": off, "op": op, "size": size,
                                                         "type": [] if op == "data" else types}})
    return result


_CACHE = {}


def observe(scenario):
    from dtfabric.runtime import fabric
    from dtformats import data_format

    s = scenario["s"]
    parts = []
    for debug in (False, True):
        def run():
            key = repr(s["type"])
            if key not in _CACHE:
                class Format(data_format.BinaryDataFormat):
                    _FABRIC = fabric.DataTypeFabric(
                        yaml_definition=YAML + (_struct_yaml("vts", s["type"]) if s["type"] else b""))
                if len(_CACHE) > 500:
                    _CACHE.clear()
                _CACHE[key] = Format
            reader = _CACHE[key](debug=debug, output_writer=None)
            file_object = io.BytesIO(bytes(s["data"]))
            if s["op"] == "data":
                value = reader._ReadData(file_object, _wide(s["off"]), s["size"], "test")
                return [{"k": "bytes", "v": vt.data(value)}]
            data_type_map = reader._GetDataTypeMap("vts")
            if s["op"] == "struct":
                value, size = reader._ReadStructureFromFileObject(file_object, _wide(s["off"]), data_type_map, "test")
            else:
                value = reader._ReadStructureFromByteStream(bytes(s["data"]), 0, data_type_map, "test")
                size = None
            values = []
            for index, t in enumerate(s["type"]):
                member = getattr(value, f"m{index + 1}")
                if t["t"] == "u":
                    values.append([vt.nat(member)])
                elif t["t"] == "bytes":
                    values.append([vt.data(bytes(member))])
                elif t["t"] == "cstr":
                    values.append([list(member.encode("latin1"))])
                elif t["t"] == "arr":
                    values.append([vt.nat(v) for v in member])
                else:
                    values.append([vt.data(bytes(v.d)) for v in member])
            if size is None:
                size = sum(_width(t, v) for t, v in zip(s["type"], values))
            return [{"k": "struct", "v": values, "n": size}]

        result, events = vt.call(run)
        parts.append({"obs": events or [], "res": result})
    return parts


def _wide(offset):
    """An offset at the saturation limit stands for one that no file can have."""
    return (1 << 64) - 2 if offset == 1073741823 else offset


def _width(t, v):
    if t["t"] == "u":
        return t["n"]
    if t["t"] == "bytes":
        return len(v[0])
    if t["t"] == "cstr":
        return len(v[0]) + 1
    if t["t"] == "arr":
        return t["n"] * len(v)
    return sum(1 + len(i) for i in v)


def trace_input(scenario, _part):
    return {"src": scenario["s"], "weight": len(scenario["s"]["data"])}
