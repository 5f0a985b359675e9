"""Conformance of the restore point rp.log reader with spec/RpLog.tla."""

import os
import struct

import dbg
import gen
import vt

SPEC = "RpLog"
MODELS = {
    "quick": [("RpLogMC", "RpLogMC.cfg")],
    "thorough": [("RpLogMC", "RpLogMC_thorough.cfg")],
}


def scenarios(rng, tier, dumped):
    result = gen.model_inputs(dumped, 150, tier)
    for number in range(250 if tier == "quick" else 4000):
        event = rng.choice((99, 100, 101, 102, 103, 104, gen.u(rng, 32)))
        kind_of = rng.choice((0, 1, 2, 10, 11, 12, 13, 14, gen.u(rng, 32)))
        data = struct.pack("<IIQ", event, kind_of, gen.u(rng, 64)) + (rng.choice(gen.WORDS) + "\0").encode("utf-16-le")
        data += gen.blob(rng, rng.choice((0, 0, 1, 16, 40)))
        data += struct.pack("<Q", rng.choice((0, 1, 0x01CD1234567890AB, 0x7FFFFFFFFFFFFFFF, rng.randrange(1 << 60))))
        kind = "random"
        if rng.random() < 0.35:
            kind, data = gen.mutate(rng, data, [(0, 4), (4, 4), (len(data) - 8, 8)])
            if len(data) >= 8 and data[-1] > 0x20:
                data = data[:-1] + b"\x01"
        result.append({"name": f"{kind}-{number}", "data": data})
    with open(os.path.join(vt.REPO, "test_data", "rp.log"), "rb") as file_object:
        result.append({"name": "corpus", "data": file_object.read()})
    return result


def observe(scenario):
    from dtformats import rp_log

    return dbg.run_file(lambda debug, writer: rp_log.RestorePointLogFile(debug=debug, output_writer=writer), scenario["data"])


def trace_input(scenario, _part):
    return {"src": list(scenario["data"])}
