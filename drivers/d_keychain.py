"""Conformance of the keychain database reader with spec/Keychain.tla."""

import os
import struct

import dbg
import gen
import vt

SPEC = "Keychain"
MODELS = {
    "quick": [("KeychainMC", "KeychainMC.cfg")],
    "thorough": [("KeychainMC", "KeychainMC_thorough.cfg")],
}
RELATIONS = (3, *range(10, 20), *range(0x80000000, 0x80000008), 0x80001000, 0x80008000, 77, 0xFFFFFFFF)


def be(value):
    return struct.pack(">I", value & 0xFFFFFFFF)


def header(rng, size, key=0):
    return be(size) + be(gen.u(rng, 32)) + be(gen.u(rng, 32)) + be(gen.u(rng, 32)) + be(key) + be(gen.u(rng, 32))


def info(rng, relation, name):
    pad = rng.choice((0, 0, 1, 2, 3))
    size = 40 + len(name) + pad + rng.choice((0,) * 12 + (1, -1, -4, 100000))
    return header(rng, size) + b"".join(map(be, (0x21, 0x25) if rng.random() < 0.95 else rng.choice(((0x21, 0x24), (0x25, 0x25), (0x20, 0x25), (0x21, 0))))) + be(relation) + be(len(name)) + name + bytes(pad)


def index(rng, relation):
    pad = rng.choice((0, 0, 4))
    return header(rng, 64 + pad) + b"".join(map(be, (0x2D, 0x31, 0x35, 0x39, 0x3D, relation))) + b"".join(be(gen.u(rng, 32)) for _ in range(4)) + bytes(pad)


def place(rng, values, base):
    """Stores optional values in some order; returns their offsets and the data."""
    offsets = [0] * len(values)
    order = list(range(len(values)))
    if rng.random() < 0.3:
        rng.shuffle(order)
    data = b""
    for number in order:
        if values[number] is None:
            continue
        offsets[number] = base + len(data) + 1
        data += values[number]
        data += bytes(-len(data) % 4)
    return offsets, data


def attribute(rng, relation, name, code, data_type):
    values = [
        be(relation),
        None if code is None else code,
        be(rng.choice((*range(10), 0xFFFFFFFF))) if rng.random() < 0.8 else None,
        None if name is None else be(len(name)) + name,
        None,
        None if data_type is None else be(data_type),
    ]
    if rng.random() < 0.02:
        values[0] = None
    offsets, data = place(rng, values, 48)
    return header(rng, 48 + len(data)) + b"".join(map(be, offsets)) + data


def value(rng, data_type):
    if rng.random() < 0.15:
        return None
    if data_type == 0:
        text = rng.choice(gen.ASCII_WORDS).encode("ascii", "replace") + rng.choice((b"", b"", b"\0", b"\xff"))
        return be(len(text)) + text
    if data_type == 5:
        return rng.choice((b"20260102030405Z\0", b"0" * 16, bytes(16), b"\0\x0020260102030405", b"\0" + b"1" * 14 + b"\0", b"1999\0\0\0\0\0\0\0\0\0\0\0\0", b"20260102030405\xff\0"))
    if data_type == 6:
        blob = gen.blob(rng, rng.choice((0, 1, 5, 20)))
        return be(len(blob)) + blob
    return be(gen.u(rng, 32))


def record(rng, types):
    base = 24 + 4 * len(types)
    key = gen.blob(rng, rng.choice((0, 0, 0, 4, 20)))
    offsets, data = place(rng, [value(rng, data_type) for data_type in types], base + len(key))
    if offsets and rng.random() < 0.1:
        number = rng.randrange(len(offsets))
        offsets[number] = rng.choice((1, base - 2, base, base + 1, base + len(key) + len(data), base + len(key) + len(data) + 1, 0xFFFFFFFF, rng.choice(offsets)))
    key_size = len(key) if rng.random() < 0.95 else rng.choice((1, 1000, 0xFFFFFFFF))
    return header(rng, base + len(key) + len(data) + rng.choice((0,) * 20 + (-1, 1)), key_size) + b"".join(map(be, offsets)) + key + data


def table(rng, relation, records):
    base = 28 + 4 * len(records)
    offsets = []
    body = b""
    for data in records:
        offsets.append(base + len(body) if rng.random() > 0.03 else 0)
        body += data
    pad = rng.choice((0, 0, 0, 4, 8))
    size = base + len(body) + pad + rng.choice((0,) * 15 + (-4, 7, 0x7FFFFFFF))
    return b"".join(map(be, (size, relation, len(records), base, gen.u(rng, 32), gen.u(rng, 32), len(records)))) + b"".join(map(be, offsets)) + body + bytes(pad)


def build(rng):
    relations = rng.sample(RELATIONS, rng.randrange(0, 4))
    names = {0: b"CSSM_DL_DB_SCHEMA_INFO", 1: b"INDEXES", 2: b"ATTRIBUTES"}
    for relation in relations:
        names[relation] = rng.choice((b"", b"Name", b"CSSM_DL_DB_RECORD_METADATA", b"a\0b")) if rng.random() < 0.97 else b"\xe9"
    infos = [info(rng, relation, name) for relation, name in names.items() if relation == 0 or rng.random() < 0.97]
    if rng.random() < 0.05 and relations:
        infos.append(info(rng, rng.choice(relations), b"again"))
    columns = {}
    attributes = []
    for relation in relations:
        columns[relation] = []
        for _ in range(rng.choice((0, 1, 1, 2, 3, 5))):
            data_type = rng.choice((0, 1, 2, 5, 6, 0, 6, 0, 1, 2, 5, 6, rng.choice((3, 4, 7, 8, 9)), None))
            name = rng.choice((None, b"Name", b"Label", b"", b"Longer name", b"\xc3\xa9" if rng.random() < 0.1 else b"x"))
            code = rng.choice((None, b"abcd", b"svce", b"\0\0\0\1", b"\x80\0\0\0" if rng.random() < 0.2 else b"mdat"))
            columns[relation].append(data_type)
            attributes.append(attribute(rng, relation if rng.random() < 0.98 else 99, name, code, data_type))
    indexes = [index(rng, rng.choice(relations + [0, 1])) for _ in range(rng.choice((0, 0, 1, 2)))]
    if rng.random() < 0.03:
        indexes.append(index(rng, 123))
    tables = [(0, infos), (1, indexes), (2, attributes)]
    for relation in relations:
        tables.append((relation, [record(rng, columns[relation]) for _ in range(rng.choice((0, 1, 1, 2, 3)))]))
    if rng.random() < 0.05:
        rng.shuffle(tables)
    gap = rng.choice((0, 0, 4))
    base = 8 + 4 * len(tables) + gap
    body = b""
    offsets = []
    for relation, records in tables:
        offsets.append(base + len(body))
        body += table(rng, relation, records)
    start = rng.choice((20, 20, 24))
    data = b"kych" + struct.pack(">HHIII", 1, 0, 16, start, gen.u(rng, 32)) + bytes(start - 20)
    data += be(base + len(body)) + be(len(tables)) + b"".join(map(be, offsets)) + bytes(gap) + body
    hot = [(0, 4), (12, 4), (start + 4, 4)]
    hot += [(start + offset + 4 * rng.randrange(8), 4) for offset in offsets]
    return data, hot


def scenarios(rng, tier, dumped):
    result = gen.model_inputs(dumped, 200, tier)
    for number in range(350 if tier == "quick" else 5000):
        data, hot = build(rng)
        kind = "random"
        if rng.random() < 0.25:
            kind, data = gen.mutate(rng, data, hot)
        result.append({"name": f"{kind}-{number}", "data": data})
    with open(os.path.join(vt.REPO, "test_data", "login.keychain"), "rb") as file_object:
        corpus = file_object.read()
    result.append({"name": "corpus", "data": corpus})
    return result


def finish(reader, out):
    def item(value):
        if value is None:
            return {"t": "none", "v": []}
        if isinstance(value, int):
            return {"t": "int", "v": vt.nat(value)}
        return {"t": "str", "v": vt.text(value)}

    for each in reader.tables:
        out.append(
            {
                "k": "!table",
                "v": {
                    "id": vt.nat(each.relation_identifier),
                    "name": vt.text(each.relation_name),
                    "cols": [{"id": item(column.attribute_identifier), "name": item(column.attribute_name), "format": item(column.attribute_data_type)} for column in each.columns],
                    "recs": [[{"n": item(name), "v": item(value)} for name, value in entry.items()] for entry in each.records],
                },
            }
        )


def observe(scenario):
    from dtformats import keychain

    return dbg.run_file(lambda debug, writer: keychain.KeychainDatabaseFile(debug=debug, output_writer=writer), scenario["data"], finish=finish)


def trace_input(scenario, _part):
    return {"src": list(scenario["data"])}
