"""Conformance of the BSM event auditing file reader with spec/Bsm.tla."""

import os
import re
import struct

import dbg
import gen
import vt

SPEC = "Bsm"
MODELS = {
    "quick": [("BsmMC", "BsmMC.cfg")],
    "thorough": [("BsmMC", "BsmMC_thorough.cfg")],
}
KEEP = tuple(f"#Token {name} data" for name in ("ip", "ipc_perm", "groups", "newgroups", "exec_args", "exec_env"))


def text(rng):
    return rng.choice(gen.ASCII_WORDS).encode() + rng.choice((b"", b"\0", b"\0\0", b"\0x"))


def net(rng, fmt=">I"):
    size = rng.choice((4, 4, 16, 16, rng.choice((0, 1, 5, 17))))
    return struct.pack(fmt, size), gen.blob(rng, size)


def stamp64(rng):
    return rng.choice((0, 1, gen.u(rng, 32), 253402300799, 253402300800, gen.u(rng, 64)))


def subject(rng, kind):
    data = bytes([kind]) + b"".join(struct.pack(">I", gen.u(rng, 32)) for _ in range(7))
    data += struct.pack(">Q", gen.u(rng, 64)) if kind in (117, 119, 124, 125) else struct.pack(">I", gen.u(rng, 32))
    if kind >= 122:
        return data + b"".join(net(rng))
    return data + gen.blob(rng, 4)


FIXED = {34: 5, 39: 5, 42: 4, 43: 20, 44: 2, 47: 4, 50: 28, 62: 28, 82: 8, 114: 9, 115: 32, 128: 8, 129: 20}


def token(rng):
    kind = rng.choice((17, 33, 35, 36, 38, 40, 41, 45, 52, 59, 60, 61, 96, 113, 117, 119, 122, 123, 124, 125, 126, 127, 130) + tuple(FIXED))
    head = bytes([kind])
    if kind in FIXED:
        return head + b"".join(bytes([rng.choice((0, 1, 255, rng.randrange(256)))]) for _ in range(FIXED[kind]))
    if kind in (36, 38, 117, 119, 122, 123, 124, 125):
        return subject(rng, kind)
    if kind in (35, 40, 96):
        value = text(rng)
        return head + struct.pack(">H", len(value)) + value
    if kind == 17:
        value = text(rng)
        return head + struct.pack(">IIH", gen.u(rng, 32), gen.u(rng, 32), len(value)) + value
    if kind == 33:
        value = gen.blob(rng, rng.choice((0, 1, 4, 33)))
        return head + struct.pack(">BBB", gen.u(rng, 8), gen.u(rng, 8), len(value)) + value
    if kind == 41:
        value = gen.blob(rng, rng.choice((0, 1, 16, 40)))
        return head + struct.pack(">H", len(value)) + value
    if kind == 45:
        value = text(rng)
        return head + struct.pack(">BIH", gen.u(rng, 8), gen.u(rng, 32), len(value)) + value
    if kind == 113:
        value = text(rng)
        return head + struct.pack(">BQH", gen.u(rng, 8), gen.u(rng, 64), len(value)) + value
    if kind in (52, 59):
        count = rng.choice((0, 1, 2, 5))
        return head + struct.pack(">I", count) + gen.blob(rng, 4 * count)
    if kind in (60, 61):
        strings = [rng.choice(gen.ASCII_WORDS).encode() for _ in range(rng.choice((0, 1, 2, 3)))]
        return head + struct.pack(">I", len(strings)) + b"".join(s + b"\0" for s in strings)
    if kind == 126:
        return head + struct.pack(">I", rng.choice((4, 16, 16, 0))) + gen.blob(rng, 16)
    if kind == 127:
        size, address = net(rng, ">H")
        return head + gen.blob(rng, 4) + size + gen.blob(rng, 2) + address + gen.blob(rng, 2) + gen.blob(rng, len(address))
    return head + struct.pack(">H", gen.u(rng, 16)) + rng.choice(gen.ASCII_WORDS).encode() + b"\0"


def record(rng, events):
    kind = rng.choice((20, 20, 21, 116, 121))
    event = rng.choice(events) if rng.random() < 0.7 else gen.u(rng, 16)
    middle = struct.pack(">BHH", 11 if rng.random() < 0.97 else rng.choice((0, 10, 12)), event, gen.u(rng, 16))
    if kind in (21, 121):
        middle += b"".join(net(rng))
    if kind in (20, 21):
        middle += struct.pack(">II", gen.u(rng, 32), gen.u(rng, 32))
    else:
        middle += struct.pack(">QQ", stamp64(rng), gen.u(rng, 64))
    body = b"".join(token(rng) for _ in range(rng.choice((0, 1, 2, 3, 4))))
    size = 5 + len(middle) + len(body) + 7
    return bytes([kind]) + struct.pack(">I", size) + middle + body + struct.pack(">BHI", 19, 0xB105, size)


def scenarios(rng, tier, dumped):
    result = gen.model_inputs(dumped, 250, tier)
    with open(os.path.join(vt.SPEC_DIR, "BsmEvents.tla"), encoding="utf-8") as file_object:
        events = [int(value) for value in re.findall(r"<<(\d+),", file_object.read())]
    for number in range(350 if tier == "quick" else 5000):
        data = b""
        hot = []
        for _ in range(rng.choice((1, 1, 2, 3))):
            offset = len(data)
            data += record(rng, events)
            hot += [(offset, 1), (offset + 1, 4), (offset + 5, 1), (len(data) - 7, 1), (len(data) - 6, 2), (len(data) - 4, 4)]
        kind = "random"
        if rng.random() < 0.35:
            kind, data = gen.mutate(rng, data, hot, ">")
        result.append({"name": f"{kind}-{number}", "data": data.replace(b"\n", b"\x0b")})
    # every event type, a few per file
    for start in range(0, len(events), 24):
        data = b"".join(struct.pack(">BIBHHIIBHI", 20, 25, 11, event, 0, 1, 2, 19, 0xB105, 25) for event in events[start : start + 24])
        result.append({"name": f"events-{start}", "data": data})
    for name in ("apple.bsm", "openbsm.bsm"):
        with open(os.path.join(vt.REPO, "test_data", name), "rb") as file_object:
            data = file_object.read()
        # the first records
        offset = 0
        while offset < min(len(data), 3000):
            offset += int.from_bytes(data[offset + 1 : offset + 5], "big")
        result.append({"name": "corpus", "data": data[:offset]})
    return result


def observe(scenario):
    from dtformats import bsm

    return dbg.run_file(lambda debug, writer: bsm.BSMEventAuditingFile(debug=debug, output_writer=writer), scenario["data"], keep=KEEP)


def trace_input(scenario, _part):
    return {"src": list(scenario["data"])}
