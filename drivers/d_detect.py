"""Conformance of the Windows Defender scan DetectionHistory reader with spec/Detect.tla."""

import struct

import dbg
import gen

SPEC = "Detect"
EXTRA = {}
MODELS = {
    "quick": [("DetectMC", "DetectMC.cfg")],
    "thorough": [("DetectMC", "DetectMC_thorough.cfg")],
}


def value(kind, data):
    data = struct.pack("<II", len(data), kind) + data
    return data + bytes(-len(data) % 8)


def string(text):
    return value(0x15, text.encode("utf-16-le") + b"\0\0")


def tracking(rng):
    body = b""
    for _ in range(rng.randrange(5)):
        key = rng.choice(gen.WORDS).encode("utf-16-le") + rng.choice((b"\0\0", b"\0\0", b""))
        kind = rng.choice((3, 4, 5, 6, 7) if rng.random() < 0.97 else (0, 1, 8, 255, 256 + 3))
        if kind == 6:
            text = rng.choice(gen.WORDS).encode("utf-16-le") + b"\0\0"
            data = struct.pack("<I", len(text)) + text
        else:
            data = gen.blob(rng, {3: 4, 4: 8, 5: 1, 7: 5}.get(kind, 4))
        body += struct.pack("<I", len(key)) + key + struct.pack("<I", kind) + data
    delta = rng.choice((0,) * 8 + (1, -1, 4, -4, 100))
    if rng.random() < 0.5:
        return struct.pack("<I", max(0, 4 + len(body) + delta)) + body
    header_size = rng.choice((20, 20, 20, 24, 16))
    header = struct.pack("<IIIII", 1, header_size, len(body), max(0, header_size + 4 + len(body) + delta), gen.u(rng, 32))[: max(20, header_size)]
    return header.ljust(header_size, b"\0") + struct.pack("<I", len(body)) + body


def anything(rng):
    kind = rng.choice((0, 5, 6, 8, 10, 0x15, 0x15, 0x1E, 0x28))
    if kind in (0, 5, 6):
        return value(kind, struct.pack("<I", gen.u(rng, 32)))
    if kind in (8, 10):
        return value(kind, struct.pack("<Q", gen.u(rng, rng.choice((56, 60, 64)))))
    if kind == 0x15:
        return string(rng.choice(gen.WORDS))
    if kind == 0x1E:
        return value(kind, gen.blob(rng, 16))
    return value(kind, gen.blob(rng, rng.choice((0, 1, 8, 30))))


def build(rng):
    magic = string("Magic.Version:1.2")
    data = value(5, struct.pack("<I", gen.u(rng, 32))) + value(0x1E, gen.blob(rng, 16))
    parts = [magic]
    parts.extend(anything(rng) for _ in range(3))
    parts.append(value(rng.choice((5, 5, 0, 6)), struct.pack("<I", rng.randrange(60))) if rng.random() < 0.8 else anything(rng))
    for _ in range(rng.randrange(3)):
        parts.append(magic)
        parts.extend(anything(rng) for _ in range(3))
        track = tracking(rng)
        parts.append(value(6, struct.pack("<I", len(track))))
        parts.append(value(0x28, track) if rng.random() < 0.93 else anything(rng))
        parts.extend(anything(rng) for _ in range(rng.choice((0, 0, 3, 20))))
    data += b"".join(parts[: rng.choice((len(parts),) * 5 + (rng.randrange(len(parts)),))])
    return data


def spots(data):
    """The offsets of the sizes and types of the values."""
    offset, result = 0, []
    while offset + 8 <= len(data):
        result.extend([(offset, 4), (offset + 4, 4), (offset + 8, 4)])
        offset += 8 + struct.unpack_from("<I", data, offset)[0]
        offset += -offset % 8
    return result


def scenarios(rng, tier, dumped):
    result = gen.model_inputs(dumped, 160, tier)
    for number in range(200 if tier == "quick" else 4000):
        data = build(rng)
        how = "random"
        if rng.random() < 0.4:
            how, data = gen.mutate(rng, data, spots(data))
        result.append({"name": f"{how}-{number}", "data": data})
    return result


def observe(scenario):
    from dtformats import detection_history

    return dbg.run_file(lambda debug, writer: detection_history.WindowsDefenderScanDetectionHistoryFile(debug=debug, output_writer=writer), scenario["data"])


def trace_input(scenario, _part):
    return {"src": list(scenario["data"])}
