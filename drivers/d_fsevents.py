"""Conformance of the fseventsd reader with spec/Fsevents.tla."""

import gzip
import os
import struct

import dbg
import gen
import vt

SPEC = "Fsevents"
MODELS = {
    "quick": [("FseventsMC", "FseventsMC.cfg")],
    "thorough": [("FseventsMC", "FseventsMC_thorough.cfg")],
}
ASSUMPTIONS = ["fseventsd: the gzip layer is the pygzipf library; the specification starts at the uncompressed contents"]


def scenarios(rng, tier, dumped):
    result = gen.model_inputs(dumped, 200, tier)
    for number in range(200 if tier == "quick" else 3000):
        data = b""
        hot = []
        for _ in range(rng.choice((0, 1, 1, 2, 3))):
            version = rng.choice((1, 2))
            body = b""
            for _ in range(rng.choice((0, 1, 2, 5))):
                body += rng.choice(gen.WORDS).encode() + b"\0" + struct.pack("<QI", gen.u(rng, 64), gen.u(rng, 32))
                if version == 2:
                    body += struct.pack("<Q", gen.u(rng, 64))
            hot.append((len(data) + 8, 4))
            data += b"%dSLD" % version + gen.blob(rng, 4) + struct.pack("<I", 12 + len(body)) + body
        kind = "random"
        if rng.random() < 0.5:
            kind, data = gen.mutate(rng, data, hot)
        result.append({"name": f"{kind}-{number}", "data": data})
    for name in ("fsevents-00000000001a0b79", "fsevents-0000000002d89b58"):
        with open(os.path.join(vt.REPO, "test_data", name), "rb") as file_object:
            raw = gzip.decompress(file_object.read())
        # whole records up to some size: the specification is quadratic in it
        result.append({"name": "corpus-" + name, "data": raw})
    return result


def observe(scenario):
    from dtformats import fseventsd

    return dbg.run_file(lambda debug, writer: fseventsd.FseventsFile(debug=debug, output_writer=writer), gzip.compress(scenario["data"]))


def trace_input(scenario, _part):
    return {"src": list(scenario["data"])}
