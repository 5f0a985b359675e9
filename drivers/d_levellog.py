"""Conformance of the LevelDB log and descriptor readers with spec/LevelLog.tla."""

import struct

import dbg
import gen
import vt

SPEC = "LevelLog"
EXTRA = {"Page": "page", "Kind": "kind"}
MODELS = {
    "quick": [("LevelLogMC", "LevelLogMC.cfg"), ("LevelLogMC", "LevelLogMC_pages.cfg")],
    "thorough": [("LevelLogMC", "LevelLogMC_thorough.cfg"), ("LevelLogMC", "LevelLogMC_pages_thorough.cfg")],
}
PAGE = 32768


def varint(value, pad=0):
    out = bytearray()
    while value > 127:
        out.append(value & 127 | 128)
        value >>= 7
    out.append(value)
    if pad:
        out[-1] |= 128
        out += b"\x80" * (pad - 1) + b"\0"
    return bytes(out)


def number(rng):
    return varint(gen.u(rng, rng.choice((7, 8, 14, 32, 64))), rng.choice((0,) * 12 + (1, 2)))


def piece(rng, big=False):
    size = rng.choice((0, 1, 3, 8, 20, 127, 128, 200)) if not big else rng.randrange(20000, 60000)
    return varint(size) + (gen.blob(rng, min(size, 40)) * (size // 40 + 1))[:size]


def log_record(rng, big=False):
    data = struct.pack("<QI", gen.u(rng, 64), gen.u(rng, 32))
    for index in range(rng.choice((0, 1, 1, 2, 4))):
        kind = rng.choice((0, 1, 1))
        data += bytes([kind]) + piece(rng)
        if kind:
            data += piece(rng, big and index == 0)
    return data


def tag_record(rng, big=False):
    data = b""
    for index in range(rng.choice((0, 1, 2, 5))):
        tag = rng.choice((1, 2, 3, 4, 5, 6, 7, 7, 9, 9))
        data += varint(tag, rng.choice((0,) * 10 + (1,)))
        if tag == 1:
            text = rng.choice(gen.WORDS).encode()
            data += varint(len(text)) + text
        elif tag == 5:
            data += number(rng) + piece(rng, big and index == 0)
        elif tag == 7:
            data += number(rng) + number(rng) + number(rng) + piece(rng, big and index == 0) + piece(rng)
        else:
            data += b"".join(number(rng) for _ in range(2 if tag == 6 else 1))
    return data


def fragment(rng, kind, data):
    return struct.pack("<IHB", gen.u(rng, 32), len(data), kind) + data


def put(rng, out, record):
    first = True
    while True:
        left = PAGE - len(out) % PAGE
        if left <= 6:
            out += bytes(left)
            left = PAGE
        room = left - 7
        if len(record) <= room and (first or rng.random() < 2):
            # an artificial split is as good as one at the end of a page
            if len(record) > 1 and rng.random() < 0.25:
                cut = rng.randrange(1, len(record))
                out += fragment(rng, 2 if first else 3, record[:cut])
                record, first = record[cut:], False
                continue
            out += fragment(rng, 1 if first else 4, record)
            return
        out += fragment(rng, 2 if first else 3, record[:room])
        record, first = record[room:], False


def scenarios(rng, tier, dumped):
    result = gen.model_inputs(dumped, 250, tier)
    quick = tier == "quick"
    for number_ in range(300 if quick else 5000):
        kind = rng.choice(("log", "descriptor"))
        make = log_record if kind == "log" else tag_record
        data = bytearray()
        for _ in range(rng.choice((0, 1, 2, 3, 5))):
            record = make(rng)
            if rng.random() < 0.15 and len(record) > 2:
                # the last value exceeds its record by a few bytes
                record = record[: -rng.randrange(1, 3)]
            put(rng, data, record)
            if rng.random() < 0.1:
                data += fragment(rng, rng.choice((0, 3, 4, 5, 255)), gen.blob(rng, rng.choice((0, 3))))
        data = bytes(data)
        name = "random"
        if rng.random() < 0.5 and data:
            name, data = gen.mutate(rng, data, [(4, 2), (6, 1), (7 + rng.randrange(12), 1), (19, 1), (20, 1)])
        result.append({"name": f"{name}-{number_}", "kind": kind, "data": data})
    for number_ in range(30 if quick else 140):
        kind = ("log", "descriptor")[number_ % 2]
        make = log_record if kind == "log" else tag_record
        data = bytearray()
        if number_ < 18 or (not quick and number_ < 70):
            # end a fragment 0 to 8 bytes before the end of the page
            gap = number_ // 2 if number_ < 18 else rng.randrange(0, 12)
            size = PAGE - 7 - gap - (0 if kind == "log" else 0)
            if kind == "log":
                payload = struct.pack("<QI", 7, 1) + b"\x00"
            else:
                payload = b"\x05\x01"
            body = size - len(payload) - 3
            payload += varint(body) + b"abcd" * (body // 4) + b"abcd"[: body % 4]
            data += fragment(rng, 1, payload)
            put(rng, data, make(rng))
        else:
            while len(data) < PAGE:
                put(rng, data, make(rng, True))
            put(rng, data, make(rng))
        data = bytes(data)
        if number_ % 8 == 7:
            _, data = gen.mutate(rng, data, [(PAGE + 4, 2), (PAGE + 6, 1), (6, 1)])
        result.append({"name": f"pages-{number_}", "kind": kind, "data": data})
    return [scenario for scenario in result if 10 not in scenario["data"] or scenario["kind"] == "log"]


def observe(scenario):
    from dtformats import leveldb

    classes = {"log": leveldb.LevelDBDatabaseLogFile, "descriptor": leveldb.LevelDBDatabaseDescriptorFile}
    return dbg.run_file(
        lambda debug, writer: classes[scenario["kind"]](debug=debug, output_writer=writer), scenario["data"])


def trace_input(scenario, _part):
    return {"src": list(scenario["data"]), "page": PAGE, "kind": scenario["kind"]}
