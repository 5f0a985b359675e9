"""Conformance of the $I metadata file reader with spec/RecycleBin.tla."""

import os
import struct

import dbg
import gen
import vt

SPEC = "RecycleBin"
MODELS = {
    "quick": [("RecycleBinMC", "RecycleBinMC.cfg")],
    "thorough": [("RecycleBinMC", "RecycleBinMC_thorough.cfg")],
}
TIMES = [0, 1, 0x7FFFFFFFFFFFFFFF, 0xFFFFFFFFFFFFFFFF, 116444736000000000, 129756797290460000, 2650467744000000000, 116444735999999999, 125911584000000000, 9999999, 10000000]


def scenarios(rng, tier, dumped):
    result = gen.model_inputs(dumped, 250, tier)
    for number in range(250 if tier == "quick" else 4000):
        version = rng.choice((1, 2, 2, 1, 0, 3, 1 << 32 | 1, gen.u(rng, 64)))
        data = struct.pack("<QQQ", version, gen.u(rng, 64), rng.choice(TIMES + [rng.randrange(1 << 58)]))
        name = rng.choice(gen.WORDS)
        if version == 1:
            data += (name + "\0").encode("utf-16-le") + bytes(rng.choice((0, 1, 2, 40)))
        else:
            name += rng.choice(("\0", "\0", "", "\0\0", "\0z"))
            raw = name.encode("utf-16-le")
            data += struct.pack("<I", len(raw) // 2 + rng.choice((0, 0, 0, 0, 1, -1 if raw else 0))) + raw + bytes(rng.choice((0, 0, 2, 4)))
        kind = "random"
        if rng.random() < 0.3:
            kind, data = gen.mutate(rng, data, [(0, 8), (24, 4)])
        result.append({"name": f"{kind}-{number}", "data": data})
    for name in ("$I103S5F.jpg", "$II3DF3L.zip"):
        with open(os.path.join(vt.REPO, "test_data", name), "rb") as file_object:
            result.append({"name": "corpus-" + name, "data": file_object.read()})
    return result


def finish(reader, out):
    out.append({"k": "!file", "version": vt.nat(reader.format_version), "size": vt.nat(reader.original_file_size),
                "time": vt.nat(reader.deletion_time), "name": vt.text(reader.original_filename)})


def observe(scenario):
    from dtformats import recycle_bin

    return dbg.run_file(lambda debug, writer: recycle_bin.RecycleBinMetadataFile(debug=debug, output_writer=writer), scenario["data"], finish=finish)


def trace_input(scenario, _part):
    return {"src": list(scenario["data"])}
