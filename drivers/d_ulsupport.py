"""Conformance of the unified logging support file readers with spec/ULSupport.tla."""

import os
import struct

import dbg
import gen
import vt

SPEC = "ULSupport"
MODELS = {
    "quick": [("ULSupportMC", "ULSupportMC.cfg")],
    "thorough": [("ULSupportMC", "ULSupportMC_thorough.cfg")],
}
PATHS = ["/usr/lib/libsystem_kernel.dylib", "/System/é", "", "a", "/bin/" + "x" * 150]
STRINGS = ["%s", "Hello %d of %@", "", "日本 %{public}s", "long " * 40, "x"]
TIMES = [0, 1, -1, 1600000000123456789, -1500000000, 1 << 63, (1 << 63) - 1, 999999999, 1000000000, -1000000000, -1000000001]


def strings(rng, count):
    """A block of NUL terminated strings and the offsets of them."""
    block, offsets = b"", []
    for _ in range(count):
        offsets.append(len(block))
        block += rng.choice(STRINGS).encode() + b"\0"
    return block, offsets


def dsc(rng):
    version = rng.choice((1, 2))
    count, images = rng.choice((1, 2, 3, 0)), rng.choice((1, 2, 3))
    size = 16 + count * (16 if version == 1 else 24) + images * (28 if version == 1 else 32)
    blocks, ranges, refs = b"", [], []
    at = rng.choice((0, 0x1000, 0x7FFFFFF0, 0xFFFFFF00 if version == 1 else 0x123456789A))
    for _ in range(count):
        block, offsets = strings(rng, rng.choice((1, 2, 4)))
        length = len(block) + rng.choice((0, 0, 0, 1, -1, 10))
        ranges.append((at, size + len(blocks), max(0, length), rng.choice((rng.randrange(images), rng.randrange(images), rng.randrange(images), images, 0xFFFFFFFF if rng.random() < 0.3 else 0))))
        for offset in [*offsets, len(block) - 1, len(block), len(block) + 1, length, length - 1]:
            refs.append((at + offset, False))
        refs.append((max(0, at - 1), False))
        at += rng.choice((len(block), len(block), len(block) + 16, 1, max(1, length)))
        blocks += block
    paths, entries = b"", []
    for _ in range(images):
        text, length = rng.choice((0, 0x1000, 0x7FFF0000, gen.u(rng, 32))), rng.choice((0, 1, 0x100, 0x1000))
        entries.append((text, length, gen.blob(rng, 16), size + len(blocks) + len(paths)))
        paths += rng.choice(PATHS).encode() + b"\0"
        refs += [(text + value, True) for value in (0, length - 1, length, length // 2) if text + value >= 0]
    data = b"hcsd" + struct.pack("<HHII", rng.choice((version,) * 30 + (0, 3)), rng.choice((0,) * 30 + (1,)), count, images)
    for begin, offset, length, image in ranges:
        data += struct.pack("<IIII", image, begin & 0xFFFFFFFF, offset, length) if version == 1 else struct.pack("<QIIQ", begin, offset, length, image)
    for text, length, identifier, offset in entries:
        data += struct.pack("<I" if version == 1 else "<Q", text) + struct.pack("<I", length) + identifier + struct.pack("<I", offset)
    return data + blocks + paths, [(max(0, reference), dynamic) for reference, dynamic in refs]


def uuidtext(rng):
    count = rng.choice((1, 2, 3, 0))
    blocks, entries, refs, at = b"", [], [], rng.choice((0, 0x1000, 0xFFFF0000))
    for _ in range(count):
        block, offsets = strings(rng, rng.choice((1, 2, 4)))
        entries.append((at, len(block)))
        for offset in [*offsets, len(block) - 1, len(block), len(block) + 1]:
            refs.append((at + offset, False))
        refs.append((max(0, at - 1), False))
        at += rng.choice((len(block), len(block), len(block) + 16, 1))
        blocks += block
    if rng.random() < 0.15:
        rng.shuffle(entries)
    data = b"\x99\x88\x77\x66" + struct.pack("<III", rng.choice((2,) * 30 + (1, 3)), rng.choice((1,) * 30 + (0, 2)), count)
    data += b"".join(struct.pack("<II", *entry) for entry in entries) + blocks
    return data + rng.choice(PATHS).encode() + rng.choice((b"\0", b"\0", b"\0", b"")), refs


def timesync(rng):
    data = b""
    for _ in range(rng.choice((1, 2, 4, 0))):
        time = rng.choice(TIMES + [rng.randrange(1 << 63), -rng.randrange(1 << 63)]) & (1 << 64) - 1
        end = struct.pack("<QiI", time, rng.choice((0, -60, 480, -(1 << 31))), gen.u(rng, 32))
        pad = rng.choice((0, 0, 0, 0, 8, 1))
        if rng.random() < 0.5:
            data += b"\xb0\xbb" + struct.pack("<HI", 48 + pad, gen.u(rng, 32)) + gen.blob(rng, 16) + struct.pack("<II", gen.u(rng, 32), gen.u(rng, 32)) + end
        else:
            data += b"Ts" + struct.pack("<HIQ", 32 + pad, gen.u(rng, 32), gen.u(rng, 64)) + end
        data += gen.blob(rng, pad)
    return data, []


def scenarios(rng, tier, dumped):
    result = []
    inputs = [scen["src"] for _, scen in dumped]
    if tier == "quick" and len(inputs) > 500:
        inputs = rng.sample(inputs, 500)
    for number, src in enumerate(inputs):
        result.append({"name": f"model-{number}", "kind": src["kind"], "data": bytes(src["data"]), "refs": [(int.from_bytes(bytes(r["r"]), "little"), r["d"]) for r in src["refs"]]})
    for number in range(480 if tier == "quick" else 9000):
        kind = ("dsc", "uuidtext", "timesync", "dsc")[number % 4]
        data, refs = {"dsc": dsc, "uuidtext": uuidtext, "timesync": timesync}[kind](rng)
        name = kind
        if rng.random() < 0.3 and data:
            name, data = gen.mutate(rng, data, [(0, 4), (2, 2), (4, 4), (8, 4), (12, 4), (16, 8), (24, 8)])
            data = data.replace(b"\n", b"\x0b")
            name = kind + "-" + name
        elif rng.random() < 0.1:
            data = data[:rng.randrange(len(data) + 1)]
        result.append({"name": f"{name}-{number}", "kind": kind, "data": data, "refs": refs})
    base = os.path.join(vt.REPO, "test_data", "unified_logging")
    for name, kind in (("timesync/0000000000000002.timesync", "timesync"), ("uuidtext/dsc/dsc-version1", "dsc"), ("uuidtext/dsc/dsc-version2", "dsc"), ("uuidtext/22/0D3C2953A33917B333DD8366AC25F2", "uuidtext")):
        path = os.path.join(base, name)
        if os.path.exists(path) and os.path.getsize(path) < 20000:
            with open(path, "rb") as file_object:
                result.append({"name": "corpus-" + os.path.basename(name), "kind": kind, "data": file_object.read(), "refs": [(value, False) for value in (0, 64, 1000, 3000)] if kind != "timesync" else []})
    return result


def signed(value):
    return [1 if value < 0 else 0] + vt.nat(abs(value))


def finish_with(scenario):
    def finish(reader, out):
        from dtformats import errors

        kind = scenario["kind"]
        if kind == "timesync":
            for record in reader.ReadRecords():
                event = {"time": signed(record.timestamp), "zone": signed(record.time_zone_offset), "dst": vt.nat(record.daylight_saving_flag)}
                if hasattr(record, "boot_identifier"):
                    event.update({"k": "!boot", "id": list(record.boot_identifier.bytes), "num": vt.nat(record.timebase_numerator), "den": vt.nat(record.timebase_denominator)})
                else:
                    event.update({"k": "!sync", "kernel": vt.nat(record.kernel_time)})
                out.append(event)
            return
        if kind == "dsc":
            for item in reader.ranges:
                out.append({"k": "!range", "data": vt.nat(item.data_offset), "at": vt.nat(item.range_offset), "size": vt.nat(item.range_size), "uuid": vt.nat(item.uuid_index),
                            "id": list(item.image_identifier.bytes), "path": vt.text(item.image_path), "text": vt.nat(item.text_offset), "tsize": vt.nat(item.text_size)})
        else:
            out.append({"k": "!image", "path": vt.text(reader.GetImagePath())})
        for reference, dynamic in scenario["refs"]:
            try:
                if kind == "dsc":
                    values = reader.GetImageValues(reference, dynamic)
                    if values is None:
                        out.append({"k": "!none"})
                    else:
                        out.append({"k": "!found", "path": vt.text(values.path), "id": list(values.identifier.bytes), "text": vt.nat(values.text_offset), "s": vt.text(values.string)})
                else:
                    value = reader.GetString(reference)
                    out.append({"k": "!none"} if value is None else {"k": "!found", "s": vt.text(value)})
            except errors.ParseError:
                out.append({"k": "!error"})

    return finish


def observe(scenario):
    from dtformats import unified_logging as ul

    reader = {"dsc": ul.DSCFile, "uuidtext": ul.UUIDTextFile, "timesync": ul.TimesyncDatabaseFile}[scenario["kind"]]
    return dbg.run_file(lambda debug, writer: reader(debug=debug, output_writer=writer), scenario["data"], finish=finish_with(scenario))


def trace_input(scenario, _part):
    return {"src": {"kind": scenario["kind"], "data": list(scenario["data"]), "refs": [{"r": list(r.to_bytes(8, "little")), "d": d} for r, d in scenario["refs"]]},
            "weight": len(scenario["data"])}
