"""Conformance of the Recycler INFO2 reader with spec/Info2.tla."""

import os
import struct

import dbg
import gen
import vt
from d_recyclebin import TIMES

SPEC = "Info2"
MODELS = {
    "quick": [("Info2MC", "Info2MC.cfg")],
    "thorough": [("Info2MC", "Info2MC_thorough.cfg")],
}
ASSUMPTIONS = ["bytes that code page 1252 does not define are not generated in the ANSI filename (the report of such an entry is a ParseError by design)"]
UNDEFINED = {0x81, 0x8D, 0x8F, 0x90, 0x9D, 0x0A}


def scenarios(rng, tier, dumped):
    result = gen.model_inputs(dumped, 80, tier)
    for number in range(120 if tier == "quick" else 1500):
        width = rng.choice((280, 800, 800))
        count = rng.choice((0, 1, 2, 2, 3))
        data = struct.pack("<5I", gen.u(rng, 32), rng.choice((count, 0, 99)), gen.u(rng, 32), rng.choice((width,) * 9 + (280 + 800 - width, 0, 279, 1 << 31)), gen.u(rng, 32))
        for _ in range(count):
            name = bytes(rng.choice([c for c in range(256) if c not in UNDEFINED]) for _ in range(260)) if rng.random() < 0.2 else rng.choice((b"C:\\a.txt", b"\0:\\deleted", b"D:\\\xe9t\xe9 \x80", b"E" * 260)).ljust(260, rng.choice((b"\0", b"\0", b"z")))
            entry = name + struct.pack("<IIQI", gen.u(rng, 32), rng.choice((0, 2, 25, 26)), rng.choice(TIMES + [rng.randrange(1 << 58)]), gen.u(rng, 32))
            if width == 800:
                wide = rng.choice(gen.WORDS).encode("utf-16-le")[:518]
                entry += (wide + b"\0\0").ljust(520, rng.choice((b"\0", b"\0", b"q"))) if rng.random() < 0.9 else b"q\0" * 260
            data += entry
        kind = "random"
        roll = rng.random()
        if roll < 0.1:
            data, kind = data[: rng.randrange(len(data))], "cut"
        elif roll < 0.2:
            data, kind = data + bytes(rng.choice((1, 20, 279, 280, 800))), "tail"
        result.append({"name": f"{kind}-{number}", "data": data})
    with open(os.path.join(vt.REPO, "test_data", "INFO2"), "rb") as file_object:
        result.append({"name": "corpus", "data": file_object.read()})
    return result


def observe(scenario):
    from dtformats import recycler

    return dbg.run_file(lambda debug, writer: recycler.RecyclerInfo2File(debug=debug, output_writer=writer), scenario["data"])


def trace_input(scenario, _part):
    return {"src": list(scenario["data"])}
