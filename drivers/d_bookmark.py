"""Conformance of the Mac OS bookmark data reader with spec/Bookmark.tla."""

import os
import struct

import dbg
import gen
import vt

SPEC = "Bookmark"
EXTRA = {}
MODELS = {
    "quick": [("BookmarkMC", "BookmarkMC.cfg")],
    "thorough": [("BookmarkMC", "BookmarkMC_thorough.cfg")],
}


def build(rng):
    area = b""
    strings, integers, others = [], [], []

    def add(kind, data, group):
        nonlocal area
        offset = 4 + len(area)
        size = len(data)
        if rng.random() < 0.03:
            size = rng.choice((size + 4, max(0, size - 1), 0))
        area += struct.pack("<II", size, kind) + data
        area += bytes(-len(area) % 4)
        group.append(offset)
        return offset

    for _ in range(rng.randrange(1, 4)):
        add(0x0101, rng.choice(gen.WORDS).encode() + b"\0" * rng.choice((0, 0, 0, 1)), strings)
    for _ in range(rng.randrange(1, 4)):
        kind = rng.choice((0x0301, 0x0302, 0x0303, 0x0304))
        width = 1 << (kind - 0x0301)
        add(kind, gen.u(rng, 8 * width).to_bytes(width, "little"), integers)
    add(0x0305, gen.blob(rng, 4), others)
    add(0x0306, rng.choice((gen.blob(rng, 8), struct.pack("<d", rng.uniform(-1e6, 1e6)))), others)
    time = add(0x0400, struct.pack(">d", rng.choice((0.0, rng.uniform(-1e9, 1e9), 5e8, float("nan"), float("-inf")))), others)
    flags = add(rng.choice((0x0201, 0x0201, 0x0501)), struct.pack("<QQQ", gen.u(rng, 64), gen.u(rng, 64), gen.u(rng, 64)), others)
    add(rng.choice((0x0201, 0x0500, 0x0501, 0x0901)), gen.blob(rng, rng.choice((0, 4, 20))), others)
    path = add(0x0601, b"".join(struct.pack("<I", rng.choice(strings)) for _ in range(rng.randrange(4))), others)
    numbers = add(0x0601, b"".join(struct.pack("<I", rng.choice(integers)) for _ in range(rng.randrange(4))), others)
    values = []
    for _ in range(rng.randrange(7)):
        values.append(rng.choice((
            (0x1004, path), (0x1005, numbers), (0x1010, flags), (0x2020, flags), (0x1040, time), (0x2010, rng.choice(strings)),
            (0x1030, rng.choice(integers)), (0xF010, rng.choice(others)))))
    if values and rng.random() < 0.12:
        index = rng.randrange(len(values))
        values[index] = (rng.choice((0x1004, 0x1005, 0x1010, 0x2020)), rng.choice(strings + integers + others))
    toc = struct.pack("<IIIII", 8 + 12 * len(values), 0xFFFFFFFE, gen.u(rng, 32), 0, len(values))
    toc += b"".join(struct.pack("<III", tag, offset, gen.u(rng, 32)) for tag, offset in values)
    body = struct.pack("<I", 4 + len(area)) + area + toc
    data = rng.choice((b"book", b"book", b"alis")) + struct.pack("<III", 48 + len(body), gen.u(rng, 32), 48) + gen.blob(rng, 32) + body
    base = 48 + 4 + len(area)
    hot = [(0, 1), (4, 4), (12, 4), (48, 4), (base, 4), (base + 4, 4), (base + 12, 4), (base + 16, 4)]
    hot += [(base + 20 + 12 * i + o, 4) for i in range(len(values)) for o in (0, 4)]
    hot += [(48 + offset + o, 4) for offset in strings + integers + others for o in (0, 4)]
    hot += [(48 + offset + 8, 4) for offset in (path, numbers)]
    return data, hot


def scenarios(rng, tier, dumped):
    result = gen.model_inputs(dumped, 160, tier)
    for number in range(220 if tier == "quick" else 4000):
        data, hot = build(rng)
        how = "random"
        if rng.random() < 0.5:
            how, data = gen.mutate(rng, data, hot)
            data = data.replace(b"\n", b"\x0b")
            if rng.random() < 0.8 and len(data) >= 8:
                data = data[:4] + struct.pack("<I", len(data)) + data[8:]
        result.append({"name": f"{how}-{number}", "data": data})
    with open(os.path.join(vt.REPO, "test_data", "backgrounditems.btm.bookmark_data"), "rb") as file_object:
        result.append({"name": "corpus", "data": file_object.read()})
    return result


def observe(scenario):
    from dtformats import bookmark_data

    return dbg.run_file(lambda debug, writer: bookmark_data.MacOSBackgroundItemBookmarkData(debug=debug, output_writer=writer), scenario["data"])


def trace_input(scenario, _part):
    return {"src": list(scenario["data"])}
