"""Conformance of the systemd journal reader with spec/Journal.tla."""

import struct

import dbg

SPEC = "Journal"
MODELS = {"quick": [("JournalMC", "JournalMC.cfg")], "thorough": [("JournalMC", "JournalMC_thorough.cfg")]}


def build(rng):
    data = bytearray(rng.choice((208, 224, 240)))
    header_size = len(data)
    u = lambda: rng.choice((0, 1, 255, 4096, rng.randrange(1 << 32), rng.randrange(1 << 64), (1 << 64) - 1))
    t = lambda: rng.choice((0, 1, 999999, 1000000, 1400000000123456, 1583020799999999, rng.randrange(1 << 52)))
    raw = lambda n: bytes(rng.randrange(256) for _ in range(n))

    def put(kind, flags, body):
        offset = len(data)
        data.extend(struct.pack("<BB6sQ", kind, flags, raw(6), 16 + len(body)) + body)
        data.extend(bytes(-len(data) % rng.choice((1, 8))))
        return offset

    datas = []
    for _ in range(rng.randrange(1, 5)):
        payload = rng.choice((b"MESSAGE=hello", b"_PID=1", b"", raw(20), b"X=" + b"y" * 40))
        datas.append(put(1, rng.choice((0, 0, 1, 2)), struct.pack("<6Q", *(u() for _ in range(6))) + payload))
    entries = []
    for _ in range(rng.randrange(0, 5)):
        items = [rng.choice(datas) for _ in range(rng.randrange(0, 4))]
        body = struct.pack("<QQQ16sQ", u(), t(), u(), raw(16), u())
        for item in items:
            body += struct.pack("<QQ", item, u())
        entries.append(put(3, 0, body))
    arrays = []
    for _ in range(rng.randrange(1, 4)):
        picks = [rng.choice(entries + [0]) for _ in range(rng.randrange(0, 5))]
        arrays.append(put(6, 0, struct.pack("<Q", 0) + struct.pack(f"<{len(picks)}Q", *picks)))
    rng.shuffle(arrays)
    for number, offset in enumerate(arrays):
        struct.pack_into("<Q", data, offset + 16, arrays[number + 1] if number + 1 < len(arrays) else 0)
    struct.pack_into("<8sIIB7s16s16s16s16sQ", data, 0, b"LPKSHHRH", u() & 0xFFFFFFFF, u() & 0xFFFFFFFF, rng.randrange(256), raw(7), raw(16), raw(16), raw(16), raw(16), header_size)
    struct.pack_into("<QQQQQQQQQQQQQQ", data, 96, u(), u(), u(), u(), u(), u(), u(), u(), u(), u(), arrays[0], t(), t(), u())
    return data, datas, entries, arrays


def scenarios(rng, tier, dumped):
    result = []
    step = max(1, len(dumped) // (300 if tier == "quick" else 4000))
    for number, (_, scen) in enumerate(dumped):
        if number % step == 0:
            result.append({"name": f"model-{number}", "data": bytes(scen["src"])})
    for number in range(250 if tier == "quick" else 4000):
        data, datas, entries, arrays = build(rng)
        kind = rng.choice(("random", "random", "random", "random", "cut", "type", "flags", "size", "next", "sig", "hs", "item"))
        if kind == "cut":
            data = data[: rng.randrange(len(data))]
        elif kind == "type":
            data[rng.choice(datas + entries + arrays)] = rng.choice((0, 1, 2, 3, 4, 6, 7, 8, 200))
        elif kind == "flags":
            data[rng.choice(datas + entries + arrays) + 1] = rng.choice((1, 2, 3, 4, 128))
        elif kind == "size":
            o = rng.choice(datas + entries + arrays)
            size = struct.unpack_from("<Q", data, o + 8)[0]
            struct.pack_into("<Q", data, o + 8, max(0, rng.choice((size - 16, 0, 16, 23, size + 100000, 1 << 31))))
        elif kind == "next":
            struct.pack_into("<Q", data, rng.choice(arrays) + 16, rng.choice(arrays + datas + [1 << 40, (1 << 64) - 1]))
        elif kind == "sig":
            data[rng.randrange(8)] ^= 0x20
        elif kind == "hs":
            struct.pack_into("<Q", data, 88, rng.choice((0, 200, 209, 232, 256, 208)))
        elif kind == "item" and entries:
            o = rng.choice(entries)
            if struct.unpack_from("<Q", data, o + 8)[0] > 64:
                struct.pack_into("<Q", data, o + 64, rng.choice([0, len(data), 1 << 63] + arrays))
        result.append({"name": f"{kind}-{number}", "data": bytes(data)})
    return result


def observe(scenario):
    from dtformats import systemd

    return dbg.run_file(lambda debug, writer: systemd.SystemdJournalFile(debug=debug, output_writer=writer),
                        scenario["data"], keep=("#Data object data",))


def trace_input(scenario, _part):
    return {"src": list(scenario["data"])}
