"""Conformance of the restore point change.log reader with spec/RpChange.tla."""

import os
import struct

import dbg
import gen
import vt

SPEC = "RpChange"
MODELS = {
    "quick": [("RpChangeMC", "RpChangeMC.cfg")],
    "thorough": [("RpChangeMC", "RpChangeMC_thorough.cfg")],
}


def z16(text):
    return (text + "\0").encode("utf-16-le")


def record(rng):
    kind = rng.choice((3, 4, 5, 6, 7, 8, 9, 9, 4, rng.randrange(12)))
    if kind in (4, 5, 9):
        body = z16(rng.choice(gen.WORDS)) + bytes(rng.choice((0, 0, 2)))
    else:
        body = gen.blob(rng, rng.choice((0, 1, 4, 12, 20)))
    return struct.pack("<II", 8 + len(body), kind) + body


def scenarios(rng, tier, dumped):
    result = gen.model_inputs(dumped, 200, tier)
    for number in range(200 if tier == "quick" else 3000):
        path = z16(rng.choice([word for word in gen.WORDS if word]))
        body = struct.pack("<II", 8 + len(path), 2) + path + bytes(rng.choice((0, 0, 4)))
        size = 16 + len(body) + 4
        data = struct.pack("<IIII", size, 0, 0xABCDEF12, 2) + body + struct.pack("<I", size)
        hot = [(0, 4), (4, 4), (8, 4), (12, 4), (16, 4), (20, 4), (len(data) - 4, 4)]
        for _ in range(rng.choice((0, 1, 1, 2, 3))):
            name = rng.choice(gen.WORDS)
            body = z16(name)
            marks = []
            for _ in range(rng.choice((0, 1, 2, 3))):
                marks.append(len(body))
                body += record(rng)
            body += bytes(rng.choice((0, 0, 0, 4, 8)))
            size = 72 + len(body) + 4
            base = len(data)
            data += struct.pack("<IIIIIIQ", size, 1, 0xABCDEF12, gen.u(rng, 32), gen.u(rng, 32), gen.u(rng, 32), gen.u(rng, 64))
            data += gen.blob(rng, 32) + struct.pack("<II", len(name) * 2 + 2, gen.u(rng, 32)) + body + struct.pack("<I", size)
            hot += [(base, 4), (base + 4, 4), (base + 8, 4), (len(data) - 4, 4)]
            for mark in marks:
                hot += [(base + 72 + mark, 4), (base + 76 + mark, 4)]
        kind = "random"
        if rng.random() < 0.35:
            kind, data = gen.mutate(rng, data, hot)
        result.append({"name": f"{kind}-{number}", "data": data})
    with open(os.path.join(vt.REPO, "test_data", "change.log.1"), "rb") as file_object:
        data = file_object.read()
    offset = 0
    for _ in range(12):
        offset += struct.unpack_from("<I", data, offset)[0]
    result.append({"name": "corpus", "data": data[:offset]})
    return result


def finish(reader, out):
    out.append({"k": "!volume", "v": vt.text(reader.volume_path)})
    for entry in reader.entries:
        out.append({"k": "!entry", "t": vt.nat(entry.entry_type), "f": vt.nat(entry.entry_flags), "a": vt.nat(entry.file_attribute_flags),
                    "n": vt.nat(entry.sequence_number), "p": vt.text(entry.process_name)})


def observe(scenario):
    from dtformats import rp_change_log

    return dbg.run_file(lambda debug, writer: rp_change_log.RestorePointChangeLogFile(debug=debug, output_writer=writer), scenario["data"], finish=finish)


def trace_input(scenario, _part):
    return {"src": list(scenario["data"])}
