"""Conformance of the LevelDB and IndexedDB table readers with spec/LevelTable.tla."""

import os
import struct

import dbg
import gen
import vt
from d_levellog import varint

SPEC = "LevelTable"
EXTRA = {"Unz": "unz", "Kind": "kind"}
MODELS = {
    "quick": [("LevelTableMC", "LevelTableMC.cfg")],
    "thorough": [("LevelTableMC", "LevelTableMC_thorough.cfg")],
}
MAGIC = b"W\xfb\x80\x8b$uG\xdb"


def table(rng, entries, every, hot, base):
    data = b""
    previous = b""
    restarts = []
    for index, (key, value) in enumerate(entries):
        shared = 0
        if index % every:
            shared = len(os.path.commonprefix([previous, key]))
            if shared and rng.random() < 0.2:
                shared = rng.randrange(shared)
        else:
            restarts.append(len(data))
        hot += [(base + len(data) + k, 1) for k in range(3)]
        data += varint(shared) + varint(len(key) - shared) + varint(len(value)) + key[shared:] + value
        previous = key
    restarts = restarts or [0]
    if rng.random() < 0.05:
        restarts = []
    return data + b"".join(struct.pack("<I", value) for value in restarts) + struct.pack("<I", len(restarts))


def compress(rng, data):
    import snappy
    import zstd

    kind = rng.choice((0, 0, 0, 1, 1, 2))
    if kind == 1:
        data = snappy.compress(data)
    elif kind == 2:
        data = zstd.compress(data)
    return kind, data


def make_key(rng, kind, stem):
    key = stem + rng.choice((b"", b"a", b"ab", b"abc'", b'"x', b"\\", b"\x7f\xff\0", b"zz\t"))
    if kind == "indexeddb":
        sizes = [rng.choice((0, 0, 1, 7)), rng.choice((0, 0, 2, 7)), rng.choice((0, 0, 3))]
        numbers = [gen.blob(rng, n + 1) if rng.random() < 0.6 else bytes(n + 1) for n in sizes]
        prefix = bytes([sizes[0] << 5 | sizes[1] << 2 | sizes[2]]) + b"".join(numbers)
        draw = rng.random()
        if draw < 0.06:
            # a key that ends in its prefix, or after it
            key = prefix[: rng.randrange(len(prefix) + 1)]
        elif draw < 0.12:
            key = rng.choice((b"", bytes(4), bytes(5), bytes([0x20]) + bytes(5), bytes([0x24]) + bytes(6), bytes([0x03]) + bytes(7)))
        else:
            key = prefix + (bytes([rng.randrange(256)]) if rng.random() < 0.8 else b"") + key
    return key + suffix(rng)


def suffix(rng):
    kind = bytes([rng.choice((0, 1, 1, 1, 2, 255))])
    if rng.random() < 0.5:
        return kind + gen.blob(rng, 7)
    return kind + struct.pack("<Q", rng.choice((0, 1, 2, 255, 256, 257, 65536, 1 << 40)))[:7]


def extend(rng, entries):
    """Adds keys that start with the whole of a key, or with part of its suffix."""
    for _ in range(rng.choice((1, 1, 2, 3))):
        key = rng.choice(entries)[0] if entries else bytes(8)
        start = key[: len(key) - rng.choice((0, 0, 1, 2, 5, 7, 8))]
        entries.append((start + rng.choice((b"", b"", b"n", bytes(3))) + suffix(rng), gen.blob(rng, rng.choice((0, 1, 5)))))


def scenario(rng, kind):
    data = b""
    handles = []
    hot = []
    for _ in range(rng.choice((0, 1, 1, 2, 3))):
        stem = rng.choice((b"", b"key", b"prefix-"))
        entries = [(make_key(rng, kind, stem), gen.blob(rng, rng.choice((0, 1, 5, 130)))) for _ in range(rng.choice((0, 1, 2, 3, 5)))]
        if rng.random() < 0.4:
            extend(rng, entries)
        if kind == "leveldb" or rng.random() < 0.5:
            entries.sort()
        contents = table(rng, entries, rng.choice((1, 2, 3, 16)), hot, len(data))
        how, contents = compress(rng, contents)
        handles.append((len(data), len(contents)))
        hot.append((len(data) + len(contents), 1))
        data += contents + bytes([how]) + gen.blob(rng, 4)
    metaindex = b"\0\0\0\0\1\0\0\0"
    meta_offset = len(data)
    data += metaindex + bytes(5)
    if handles and rng.random() < 0.1:
        handles.append(rng.choice(handles))
    if rng.random() < 0.05:
        handles.append((gen.u(rng, 64), gen.u(rng, 32)))
    index = table(rng, [(b"sep%d" % k + b"\1" + bytes(7), varint(o) + varint(n) + rng.choice((b"", b"", b"\x80"))) for k, (o, n) in enumerate(handles)], rng.choice((1, 1, 16)), hot, len(data))
    how, index = compress(rng, index)
    footer = varint(meta_offset) + varint(len(metaindex)) + varint(len(data)) + varint(len(index))
    data += index + bytes([how]) + gen.blob(rng, 4)
    hot += [(len(data) + k, 1) for k in range(len(footer))] * 2
    data += footer + (bytes(40 - len(footer)) if rng.random() < 0.8 else gen.blob(rng, 40 - len(footer))) + MAGIC
    return data, hot


def scenarios(rng, tier, dumped):
    result = gen.model_inputs(dumped, 250, tier)
    for number in range(400 if tier == "quick" else 6000):
        kind = rng.choice(("leveldb", "indexeddb"))
        data, hot = scenario(rng, kind)
        name = "random"
        if rng.random() < 0.5:
            name, data = gen.mutate(rng, data, hot)
        result.append({"name": f"{name}-{number}", "kind": kind, "data": data})
    for item in result:
        item["unz"] = contents(item["data"])
    return result


def number_at(data, offset):
    value = shift = 0
    while offset < len(data):
        value |= (data[offset] & 127) << shift
        shift += 7
        offset += 1
        if data[offset - 1] < 128:
            return value, offset
    raise ValueError


def contents(data):
    """What the compression libraries make of the blocks of a table file."""
    import snappy
    import zstd

    result = {}

    def block(offset, size):
        raw = data[offset : offset + size]
        kind = data[offset + size]
        if kind not in (1, 2):
            return raw
        if (offset, size) not in result:
            try:
                result[(offset, size)] = (snappy if kind == 1 else zstd).decompress(raw)
            except Exception:
                result[(offset, size)] = None
        return result[(offset, size)]

    try:
        offset = len(data) - 48
        _, offset = number_at(data, offset)
        _, offset = number_at(data, offset)
        where, offset = number_at(data, offset)
        size, _ = number_at(data, offset)
        index = block(where, size)
        end = len(index) - 4 - 4 * struct.unpack("<I", index[-4:])[0]
        offset = 0
        while offset < end:
            _, offset = number_at(index, offset)
            own, offset = number_at(index, offset)
            size, offset = number_at(index, offset)
            where, at = number_at(index, offset + own)
            amount, _ = number_at(index, at)
            offset += own + size
            if where + amount < len(data):
                block(where, amount)
    except (IndexError, OverflowError, TypeError, ValueError, struct.error, MemoryError):
        pass
    return [{"o": o, "n": n, "ok": d is not None, "data": list(d or b"")} for (o, n), d in result.items()]


def observe(scenario):
    from dtformats import indexeddb
    from dtformats import leveldb

    def make(debug, writer):
        if scenario["kind"] == "leveldb":
            return leveldb.LevelDBDatabaseTableFile(debug=debug, output_writer=writer)
        return indexeddb.IndexedDBDatabaseTableFile(debug=debug, output_writer=writer)

    def finish(reader, out):
        if scenario["kind"] == "leveldb":
            for entry in reader.ReadTableEntries():
                out.append({"k": "!entry", "key": list(entry.key), "seq": vt.nat(entry.sequence_number), "type": vt.nat(entry.value_type), "value": list(entry.value)})
        else:
            for entry in reader.ReadEntries():
                out.append({"k": "!entry", "key": [vt.text(segment) for segment in entry.key_segments], "seq": vt.nat(entry.sequence_number), "type": vt.nat(entry.value_type), "value": list(entry.value)})

    return dbg.run_file(make, scenario["data"], finish=finish)


def trace_input(scenario, _part):
    return {"src": list(scenario["data"]), "unz": scenario["unz"], "kind": scenario["kind"]}
