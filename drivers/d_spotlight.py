"""Conformance of the Spotlight store database reader with spec/Spotlight.tla."""

import os
import struct
import zlib

import dbg
import gen
import vt

SPEC = "Spotlight"
MODELS = {
    "quick": [("SpotlightMC", "SpotlightMC.cfg")],
    "thorough": [("SpotlightMC", "SpotlightMC_thorough.cfg")],
}
BLOCK = 4096
IDS = (0, 1, 2, 3, 5, 77, 300, 70000, 2**34 + 5, 2**41)
KEYS = (b"k", b"kMDItemKind", b"kMDItemFSName", b"kMDStoreAccumulatedSizes", b"_kMDItemGroupId", b"", b"k\xc3\xa9")
NAMES = (b"", b"public.data", b"PDF\x16\x02en", b"it's", b'say "x"', b"a\\b", b"caf\xc3\xa9", b"tab\tx", b"\x16\x02", b"one\x16\x02two\x16\x02three", b"both ' and \"")
FLOATS = (0.0, -0.0, 1.0, -1.5, 500000000.25, 7499999999.5, 7500000000.0, -63145526400.0, -63145526401.0, 1e300, -1e300, float("inf"), float("-inf"), float("nan"), 0.0009765625, -0.25, 123456789.0625)


def u32(value):
    return struct.pack("<I", value & 0xFFFFFFFF)


def varint(value, extra=0):
    """A variable size integer, possibly in more bytes than needed."""
    size = 0
    while size < 8 and value >= (1 << (8 * size + (7 - size if size <= 4 else 0))):
        size += 1
    size = min(8, size + extra)
    first = (0xFF00 >> size) & 0xFF
    data = value.to_bytes(size + 1, "big")
    return bytes([data[0] | first]) + data[1:]


def number(rng):
    return varint(rng.choice((0, 1, 2, 127, 128, 300, 16383, 16384, 70000, 2**28, 2**34 + 1, 2**40, 2**63, 2**64 - 1, rng.randrange(1 << rng.randrange(1, 60)))), rng.choice((0, 0, 0, 0, 1, 2)))


def sized(rng, data):
    size = len(data) + rng.choice((0,) * 80 + (1, -1, 5, 1000, 2**40))
    return varint(max(0, size), rng.choice((0, 0, 0, 1))) + data


def floats(rng, code, count):
    return b"".join(struct.pack("<" + code, max(-1e30, min(1e30, rng.choice(FLOATS))) if code == "f" else rng.choice(FLOATS)) for _ in range(count))


def value(rng, value_type, property_type):
    multi = property_type & 2
    if value_type == 7 and multi:
        return sized(rng, b"".join(number(rng) for _ in range(rng.randrange(0, 5))))
    if value_type in (0, 2, 6, 7):
        return number(rng)
    if value_type == 8:
        return sized(rng, gen.blob(rng, rng.randrange(0, 5))) if multi else gen.blob(rng, 1)
    if value_type in (9, 10, 12):
        code = "f" if value_type == 9 else "d"
        if not multi:
            return floats(rng, code, 1)
        return sized(rng, floats(rng, code, rng.randrange(0, 4)) + gen.blob(rng, rng.choice((0, 0, 0, 0, 1, 3))))
    if value_type == 11:
        strings = [rng.choice(NAMES) for _ in range(rng.choice((0, 1, 1, 1, 2, 3)))]
        return sized(rng, b"".join(string + b"\0" for string in strings) + (b"x" if rng.random() < 0.03 else b""))
    if value_type == 14:
        return sized(rng, gen.blob(rng, rng.choice((0, 1, 5, 20))))
    if value_type == 15:
        return varint(rng.choice((1, 2, 3, 4, 9)))
    return b"\1"


def record(rng, identifier, types):
    data = varint(identifier, rng.choice((0, 0, 1))) + gen.blob(rng, 1) + number(rng) + varint(rng.choice((0, 1, 2, 900))) + varint(rng.choice((0, 1, 1500000000123456, 2**63, 2**64 - 1)))
    last = 0
    for index, (value_type, property_type, key) in sorted(rng.sample(sorted(types.items()), min(len(types), rng.randrange(0, 5)))):
        if value_type in (1, 13) and rng.random() < 0.7:
            continue
        if index < last:
            continue
        data += varint(index - last) + value(rng, value_type, property_type)
        last = index
        if key == b"kMDStoreAccumulatedSizes":
            data += gen.blob(rng, rng.randrange(0, 20))
            break
    if rng.random() < 0.04:
        data += varint(rng.choice((0, 1, 40))) + gen.blob(rng, rng.randrange(0, 3))
    return u32(len(data) + rng.choice((0,) * 60 + (1, -1, 4, -4))) + data


def page(rng, kind, data, uncompressed=0, pad=None):
    pad = rng.choice((0, 0, 1, 5, 40)) if pad is None else pad
    used = 20 + len(data) + rng.choice((0,) * 60 + (1, -1, -8, 30))
    return b"2pbd" + u32(20 + len(data) + pad) + u32(used) + u32(kind) + u32(uncompressed) + data + bytes(pad)


def indexes(rng, count):
    return b"".join(u32(rng.choice((1, 2, 3, 4, 5, 70000, 0xFFFFFFFF))) for _ in range(count))


def streams(rng, values):
    offsets = []
    body = b""
    if rng.random() < 0.05:
        # a size that ends early
        values = values[:-1] + [rng.choice((b"\x80", b"\xc0\1", b"\xe0\0\0"))]
    for each in values:
        offsets.append(len(body))
        body += each
    size = len(body)
    if rng.random() < 0.04 and offsets:
        offsets[rng.randrange(len(offsets))] = rng.choice((0, 3, size, size + 1, 0xFFFFFFFF))
    tail = gen.blob(rng, rng.choice((0, 0, 4)))
    claimed = size + rng.choice((0,) * 90 + (1, -1, 100))
    numbers = len(values) + rng.choice((0,) * 90 + (1, -1))
    header = b"\0PataD\0\0" + gen.blob(rng, 12) + u32(claimed) + u32(3) + u32(numbers) + gen.blob(rng, 24)
    if rng.random() < 0.02:
        header = header[:-1] if rng.random() < 0.5 else b"\1" + header[1:]
    return header, b"".join(map(u32, offsets)) + tail, body + tail


def lz4_page(rng, data):
    import lz4.block

    result = b""
    previous = None
    while data:
        size = min(len(data), rng.choice((5, 40, 100, 4096)))
        part, data = data[:size], data[size:]
        if rng.random() < 0.3:
            result += b"bv4-" + u32(len(part)) + part
        else:
            packed = lz4.block.compress(part, store_size=False, dict=previous)
            if rng.random() < 0.03:
                packed = packed[:-1]
            result += b"bv41" + u32(len(part) + rng.choice((0,) * 20 + (1, -1, 2**31))) + u32(len(packed)) + packed
        previous = part
    if rng.random() < 0.95:
        result += b"bv4$"
    return result if result[:4] != b"bv4$" else b"bv4-" + u32(0) + result


def build(rng):
    types = {index: (rng.choice((0, 2, 6, 7, 7, 8, 9, 10, 11, 11, 12, 12, 14, 15, 15, 7, 11, 1 if rng.random() < 0.3 else 15)), rng.choice((0, 1, 2, 3, 0x12, 0x43, 4, 6, 7)), rng.choice(KEYS)) for index in rng.sample((1, 2, 3, 4, 5, 6, 30, 200, 20000), rng.randrange(0, 8))}
    use_streams = rng.random() < 0.3
    if use_streams:
        types = {index: entry for index, entry in types.items() if index < 7}
    blocks = [b""]
    root = [0] * 5
    maps = []
    tables = [
        (0x11, [(index, bytes([t, p]) + key + b"\0") for index, (t, p, key) in types.items()]),
        (0x21, [(index, rng.choice(NAMES) + b"\0") for index in range(1, rng.randrange(1, 6))]),
        (0x41, []),
        (0x81, [(index, indexes(rng, rng.randrange(0, 4))) for index in range(1, rng.randrange(1, 5))]),
        (0x81, [(index, indexes(rng, rng.randrange(0, 4))) for index in range(1, rng.randrange(1, 5))]),
    ]
    for number_, (kind, entries) in enumerate(tables):
        # the streams map of the table
        values = [gen.blob(rng, rng.choice((0, 0, 1, 4)))]
        filled = dict(entries)
        for index in range(1, max(filled, default=0) + 1 if not filled or max(filled) < 10 else 1):
            data = filled.get(index)
            if kind == 0x81 and data is not None:
                padding = gen.blob(rng, rng.choice((0, 0, 1, 3)))
                values.append(number(rng) + varint(len(data) + len(padding)) + padding + data + gen.blob(rng, rng.choice((0, 0, 2))))
            elif data is None:
                values.append(varint(0 if rng.random() < 0.03 else 3))
            else:
                values.append(varint(len(data) + rng.choice((0,) * 25 + (1, 2**33)), rng.choice((0, 0, 1, 3))) + data)
        maps.append(streams(rng, values))
        if use_streams and rng.random() < 0.95:
            continue
        # its pages
        if kind == 0x81:
            entries = [(index, (lambda padding: varint(len(data) + len(padding), rng.choice((0, 0, 1))) + padding + data)(gen.blob(rng, rng.choice((0, 0, 1, 3))))) for index, data in entries]
        encoded = [u32(index) + data for index, data in entries]
        if encoded and rng.random() < (0.3 if kind == 0x81 else 0.1):
            # an entry again, with other contents
            entry = rng.choice(encoded)
            encoded.append(entry[:4] + (entry if len(encoded) == 1 else rng.choice([one for one in encoded if one is not entry]))[4:])
        parts = [encoded]
        if rng.random() < 0.3:
            middle = rng.randrange(len(encoded) + 1)
            parts = [encoded[:middle], encoded[middle:]]
        first = len(blocks)
        root[number_] = first
        for position, part in enumerate(parts):
            follow = first + position + 1 if position + 1 < len(parts) else 0
            if rng.random() < 0.02:
                follow = rng.choice((first, 1, 90000, 0xFFFFFFFF)) if rng.random() < 0.5 else 0
            blocks.append(page(rng, kind, u32(follow) + gen.blob(rng, 8) + b"".join(part)))
    records = []
    for _ in range(rng.choice((0, 1, 1, 1, 2, 3))):
        body = b"".join(record(rng, rng.choice(IDS), types) for _ in range(rng.choice((0, 1, 2, 3))))
        form = rng.random()
        if form < 0.4:
            data = page(rng, rng.choice((0x9, 0x1009, 0x4009)), body)
        elif form < 0.7:
            packed = zlib.compress(body, rng.choice((-1, 0, 1, 4, 9)))
            if rng.random() < 0.05:
                packed = packed[:-3] if rng.random() < 0.5 else b"\x79" + packed[1:]
            data = page(rng, rng.choice((0x9, 0x1009, 0x4009, 0x5009)), packed, len(body) + 20)
        else:
            data = page(rng, rng.choice((0x9, 0x4009)) if rng.random() < 0.08 else rng.choice((0x1009, 0x5009)), lz4_page(rng, body), len(body) + 20)
        records.append(len(blocks))
        blocks.append(data)
    if records and rng.random() < 0.05:
        records.append(rng.choice(records + [1, 5000]))
    gap = gen.blob(rng, rng.choice((0, 0, 4, 140)))
    map_offset = 580 + len(gap)
    pages = []
    rest = list(records)
    while True:
        count = rng.randrange(0, len(rest) + 1) if rng.random() < 0.3 else len(rest)
        part, rest = rest[:count], rest[count:]
        slack = rng.choice((0, 0, 7, 16))
        size = 20 + 16 * count + slack + rng.choice((0,) * 60 + (-1, -20 - slack))
        pages.append(rng.choice((b"1mbd", b"2mbd")) + u32(size) + u32(count) + gen.blob(rng, 8) + b"".join(struct.pack("<QII", gen.u(rng, 64), block, 0x4000) for block in part) + bytes(slack))
        if not rest:
            break
    map_data = b"".join(pages)
    path = rng.choice((b"", b"/private/var", b"x" * 256, b"caf\xc3\xa9", b"\xff" if rng.random() < 0.05 else b"p"))[:256].ljust(256, b"\0")
    header = b"8tsd" + gen.blob(rng, 32) + u32(map_offset) + u32(len(map_data)) + u32(4096) + b"".join(map(u32, root)) + gen.blob(rng, 256) + path
    blocks[0] = header + gap + map_data
    data = b"".join(block.ljust(-(-max(len(block), 1) // BLOCK) * BLOCK, b"\0") for block in blocks[:-1]) + blocks[-1]
    hot = [(0, 4), (36, 4), (40, 4)] + [(48 + 4 * index, 4) for index in range(5)] + [(map_offset + 4, 4), (map_offset + 8, 4)]
    for block in range(1, len(blocks)):
        hot += [(block * BLOCK + 4, 4), (block * BLOCK + 8, 4), (block * BLOCK + 12, 4), (block * BLOCK + 20, 4), (block * BLOCK + 40, 1)]
    return data, maps, hot


def scenarios(rng, tier, dumped):
    result = []
    step = 1 if tier != "quick" else max(1, len(dumped) // 250)
    for number_, (_, each) in enumerate(dumped[::step]):
        source = each["src"]
        data = bytearray(source["size"])
        for index, block in enumerate(source["blk"]):
            data[index * BLOCK : index * BLOCK + len(block)] = bytes(block)
        maps = [(bytes(item["h"]), bytes(item["o"]), bytes(item["d"])) for item in source["maps"]]
        result.append({"name": f"model-{number_}", "data": bytes(data[: source["size"]]), "maps": maps})
    for number_ in range(420 if tier == "quick" else 6000):
        data, maps, hot = build(rng)
        kind = "random"
        if rng.random() < 0.25:
            kind, data = gen.mutate(rng, data, hot)
            # a new line would end a value of the report
            data = data[: 40 * BLOCK].replace(b"\n", b"\x0b")
        result.append({"name": f"{kind}-{number_}", "data": data, "maps": maps})
    return result


def finish(reader, out):
    def text(value_):
        return f"{value_:f}"

    def shown(attribute):
        item = attribute.value
        kind = attribute.value_type
        if attribute.key == "kMDStoreAccumulatedSizes" or kind == 14:
            return {"k": "bytes", "v": [list(item)]}
        if isinstance(item, (list, tuple)):
            if kind in (7, 8):
                return {"k": "ints", "v": [vt.nat(one) for one in item]}
            if kind in (9, 10, 12):
                return {"k": "floats", "v": [vt.text(text(one)) for one in item]}
            return {"k": "strs", "v": [vt.text(one) for one in item]}
        if isinstance(item, int):
            return {"k": "int", "v": [vt.nat(item)]}
        if isinstance(item, float):
            return {"k": "float", "v": [vt.text(text(item))]}
        return {"k": "str", "v": [vt.text(item)]}

    out.append({"k": "!count", "v": reader.number_of_metadata_items})
    for identifier in IDS:
        item = reader.GetMetadataItemByIdentifier(identifier)
        if item is None:
            out.append({"k": "!none", "v": vt.nat(identifier)})
            continue
        out.append({"k": "!item", "v": {"id": vt.nat(item.identifier), "item": vt.nat(item.item_identifier), "parent": vt.nat(item.parent_identifier), "time": vt.nat(item.last_update_time)}})
        for key, attribute in item.attributes.items():
            out.append({"k": "!attribute", "v": {"key": vt.text(key), "t": attribute.value_type, "p": attribute.property_type, "x": shown(attribute)}})


def observe(scenario):
    from dtformats import spotlight_storedb

    def body(debug, writer, out, directory):
        path = os.path.join(directory, "store.db")
        with open(path, "wb") as file_object:
            file_object.write(scenario["data"])
        for index, parts in enumerate(scenario["maps"]):
            for suffix, part in zip(("header", "offsets", "data"), parts):
                with open(os.path.join(directory, f"dbStr-{index + 1:d}.map.{suffix:s}"), "wb") as file_object:
                    file_object.write(part)
        reader = spotlight_storedb.SpotlightStoreDatabaseFile(debug=debug, output_writer=writer)
        reader.Open(path)
        finish(reader, out)
        reader.Close()

    return dbg.run_dir(body)


def inflate(data):
    try:
        return {"ok": True, "d": list(zlib.decompress(data))}
    except zlib.error:
        return {"ok": False, "d": []}


def lz4_blocks(data):
    """What the compressed blocks of LZ4 page data hold."""
    import lz4.block

    result = []
    offset = 0
    previous = None
    while data[offset : offset + 4] in (b"bv41", b"bv4-") and len(data) - offset >= 12:
        size, packed = struct.unpack_from("<II", data, offset + 4)
        if data[offset : offset + 4] == b"bv4-":
            previous = data[offset + 8 : offset + 8 + size]
            offset += 8 + size
            continue
        try:
            if size > 2**27:
                raise ValueError
            previous = lz4.block.decompress(data[offset + 12 : offset + 12 + packed], uncompressed_size=size, dict=previous)
        except Exception:
            result.append({"ok": False, "d": []})
            break
        result.append({"ok": True, "d": list(previous)})
        offset += 12 + packed
    return result


def trace_input(scenario, part):
    data = scenario["data"]
    blocks, inflated, unpacked = [], [], []
    for offset in range(0, max(len(data), 1), BLOCK):
        blocks.append(list(data[offset : offset + BLOCK].rstrip(b"\0")))
        size = struct.unpack("<I", data[offset + 4 : offset + 8].ljust(4, b"\0"))[0]
        content = data[offset + 20 : offset + max(size, 20)]
        inflated.append(inflate(content) if content[:1] == b"\x78" else {"ok": False, "d": []})
        unpacked.append(lz4_blocks(content))
    maps = [{"h": list(header), "o": list(offsets), "d": list(body)} for header, offsets, body in scenario["maps"]]
    return {"src": {"size": len(data), "blk": blocks, "maps": maps, "dbg": not part.get("api", False), "ask": [vt.nat(identifier) for identifier in IDS], "zl": inflated, "lz": unpacked}}
