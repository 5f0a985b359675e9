"""Conformance of the Automatic Destinations Jump List reader with spec/JumpAuto.tla."""

import io
import os
import struct

import dbg
import gen
import vt

SPEC = "JumpAuto"
EXTRA = {"Opened": "opened"}
MODELS = {
    "quick": [("JumpAutoMC", "JumpAutoMC.cfg")],
    "thorough": [("JumpAutoMC", "JumpAutoMC_thorough.cfg")],
}
ASSUMPTIONS = ["libolecf (pyolecf) lists the streams of an OLECF file and liblnk (pylnk) decides what is a LNK file"]


def olecf(streams):
    """An OLECF file with the streams, all in the mini stream or FAT."""
    end, free = 0xFFFFFFFE, 0xFFFFFFFF
    sectors = []
    fat = []

    def chain(data):
        if not data:
            return end
        first = len(sectors)
        count = (len(data) + 511) // 512
        for index in range(count):
            sectors.append(data[index * 512 : index * 512 + 512].ljust(512, b"\0"))
            fat.append(first + index + 1 if index + 1 < count else end)
        return first

    mini = b""
    minifat = []
    entries = []
    for name, data in streams:
        if len(data) >= 4096:
            entries.append((name, chain(data), len(data)))
        elif not data:
            entries.append((name, end, 0))
        else:
            first = len(mini) // 64
            count = (len(data) + 63) // 64
            mini += data.ljust(count * 64, b"\0")
            minifat += [first + i + 1 for i in range(count - 1)] + [end]
            entries.append((name, first, len(data)))
    mini_first = chain(mini)
    minifat_data = struct.pack(f"<{len(minifat)}I", *minifat)
    if len(minifat_data) % 512:
        minifat_data += b"\xff" * (512 - len(minifat_data) % 512)
    minifat_first = chain(minifat_data)

    def directory_entry(name, kind, left, right, child, first, size):
        raw = (name + "\0").encode("utf-16-le")
        return raw.ljust(64, b"\0") + struct.pack("<HBBIII", len(raw), kind, 1, left, right, child) + bytes(16 + 4 + 16) + struct.pack("<IQ", first, size)

    # the sub items are a chain to the right, in the order of OLECF names
    order = sorted(range(len(entries)), key=lambda i: (len(entries[i][0]), entries[i][0].upper()))
    right = {order[i]: order[i + 1] + 1 for i in range(len(order) - 1)}
    directory = directory_entry("Root Entry", 5, free, free, order[0] + 1 if order else free, mini_first, len(mini))
    for index, (name, first, size) in enumerate(entries):
        directory += directory_entry(name, 2, free, right.get(index, free), free, first, size)
    while len(directory) % 512:
        directory += directory_entry("", 0, free, free, free, 0, 0)[:0] + bytes(68) + struct.pack("<III", free, free, free) + bytes(48)
    directory_first = chain(directory)
    fat_first = len(sectors)
    fat_count = 1
    while fat_count * 128 < len(fat) + fat_count:
        fat_count += 1
    fat += [0xFFFFFFFD] * fat_count
    fat_data = struct.pack(f"<{len(fat)}I", *fat).ljust(fat_count * 512, b"\xff")
    for index in range(fat_count):
        sectors.append(fat_data[index * 512 : index * 512 + 512])
    difat = [fat_first + i for i in range(fat_count)] + [free] * (109 - fat_count)
    header = bytes.fromhex("d0cf11e0a1b11ae1") + bytes(16) + struct.pack("<HHHHH6xIIIIIIIII", 0x3E, 3, 0xFFFE, 9, 6, 0, fat_count, directory_first, 0, 4096,
                                                                         minifat_first, len(minifat_data) // 512, end, 0) + struct.pack("<109I", *difat)
    assert len(header) == 512
    return header + b"".join(sectors)


def lnk(rng):
    data = bytes.fromhex("4c0000000114020000000000c000000000000046") + struct.pack("<IIQQQIIIHHII", 0, gen.u(rng, 32), gen.u(rng, 62), gen.u(rng, 62), gen.u(rng, 62), gen.u(rng, 32),
                                                                                   gen.u(rng, 32), rng.choice((1, 3, 7)), gen.u(rng, 16), 0, 0, 0)
    return data + rng.choice((b"", bytes(4), bytes(4), bytes(40)))


def dest_list(rng):
    hot = [(0, 4)]
    version = rng.choice((1, 1, 2, 3, 4))
    count = rng.choice((0, 1, 1, 2, 3))
    data = struct.pack("<IIIfIIII", version, gen.u(rng, 32), gen.u(rng, 32), rng.choice((0.0, 1.0, -2.5, 1e9, 3.4e38, float("inf"), rng.random())), *[gen.u(rng, 32) for _ in range(4)])
    for _ in range(count):
        path = rng.choice(gen.WORDS).encode("utf-16-le")
        host = rng.choice(("host", "", "a-long-host-name", "x\0junk")).encode().ljust(16, b"\0")
        hot.append((len(data) + 72, 1))
        data += struct.pack("<Q", gen.u(rng, 64)) + gen.blob(rng, 64) + host
        data += struct.pack("<II", gen.u(rng, 32), gen.u(rng, 32)) + rng.choice((struct.pack("<f", rng.uniform(-5, 500)), gen.blob(rng, 4)))
        data += struct.pack("<QI", gen.u(rng, 64) % (1 << 61), gen.u(rng, 32))
        if version >= 2:
            data += struct.pack("<IIQ", gen.u(rng, 32), gen.u(rng, 32), gen.u(rng, 64))
        hot.append((len(data), 2))
        data += struct.pack("<H", len(path) // 2) + path
        if version >= 2:
            data += struct.pack("<I", gen.u(rng, 32))
    return data, hot


def scenarios(rng, tier, dumped):
    result = []
    step = 1 if tier != "quick" else max(1, len(dumped) // 250)
    for number, (_, scen) in enumerate(dumped):
        if number % step == 0:
            streams = [("".join(map(chr, s["n"])), bytes(s["d"])) for s in scen["src"]]
            result.append({"name": f"model-{number}", "data": olecf(streams)})
    for number in range(250 if tier == "quick" else 4000):
        dest, hot = dest_list(rng)
        kind = "random"
        if rng.random() < 0.35:
            kind, dest = gen.mutate(rng, dest, hot)
        streams = [("DestList", dest)] if rng.random() < 0.96 else []
        for index in range(rng.choice((0, 1, 2, 3, 5))):
            data = lnk(rng)
            if rng.random() < 0.08:
                _, data = gen.mutate(rng, data)
            streams.insert(rng.randrange(len(streams) + 1), (f"{rng.randrange(1 << 12):x}{index}", data))
        data = olecf(streams)
        if rng.random() < 0.05:
            kind = "broken"
            data = rng.choice((b"", data[:100], b"\0" + data[1:], b"not an OLECF file", data[:511]))
        result.append({"name": f"{kind}-{number}", "data": data})
    for name in ("1b4dd67f29cb1962.automaticDestinations-ms", "9d1f905ce5044aee.automaticDestinations-ms"):
        with open(os.path.join(vt.REPO, "test_data", name), "rb") as file_object:
            result.append({"name": "corpus", "data": file_object.read()})
    return result


def finish(reader, out):
    for entry in reader.GetJumpListEntries():
        out.append({"k": "!entry", "id": vt.text(entry.identifier), "flags": vt.nat(entry.lnk_file.file_attribute_flags), "size": vt.nat(entry.lnk_file.file_size)})


def observe(scenario):
    from dtformats import jump_list

    return dbg.run_file(lambda debug, writer: jump_list.AutomaticDestinationsFile(debug=debug, output_writer=writer), scenario["data"], finish=finish)


def lnk_size(data):
    """What the LNK library makes of data: (ok, size read)."""
    import pylnk

    file_object = io.BytesIO(data)
    lnk_file = pylnk.file()
    try:
        lnk_file.open_file_object(file_object)
    except OSError:
        return False, 0
    size = file_object.tell()
    lnk_file.close()
    return True, size


def trace_input(scenario, _part):
    import pyolecf

    if "streams" not in scenario:
        streams = []
        olecf_file = pyolecf.file()
        opened = True
        try:
            olecf_file.open_file_object(io.BytesIO(scenario["data"]))
            root_item = olecf_file.root_item
            opened = root_item is not None
            for item in root_item.sub_items if opened else ():
                data = item.read(item.size) if item.size else b""
                streams.append({"n": vt.text(item.name), "d": list(data), "ok": item.name != "DestList" and lnk_size(data)[0]})
            olecf_file.close()
        except OSError:
            opened = False
        scenario["streams"] = streams
        scenario["opened"] = opened
    return {"src": scenario["streams"], "opened": scenario["opened"], "weight": len(scenario["data"])}
