"""Conformance of the time zone information file reader with spec/Tzif.tla."""

import ast
import os
import struct

import dbg
import gen
import vt

SPEC = "Tzif"
MODELS = {
    "quick": [("TzifMC", "TzifMC.cfg")],
    "thorough": [("TzifMC", "TzifMC_thorough.cfg")],
}


def block(rng, size, version):
    utc, std, leap, times, types = [rng.choice((0, 0, 1, 2, 5)) for _ in range(5)]
    abbreviations = rng.choice((0, 4, 9))
    data = b"TZif" + bytes([version]) + gen.blob(rng, 15)
    data += struct.pack(">6I", utc, std, leap, times, types, abbreviations)
    for _ in range(times):
        data += struct.pack(">i" if size == 4 else ">q", rng.choice((-1, 0, 1, -(1 << 31), rng.randrange(-(1 << 31), 1 << 31))))
    data += gen.blob(rng, times + 6 * types + abbreviations + leap * (size + 4) + std + utc)
    return data


def scenarios(rng, tier, dumped):
    result = gen.model_inputs(dumped, 250, tier)
    for number in range(250 if tier == "quick" else 4000):
        version = rng.choice((0, 0, 0x32, 0x32, 0x33, 0x33, 0x34, 0x31))
        data = block(rng, 4, version)
        hot = [(4, 1)] + [(20 + 4 * index, 4) for index in range(6)]
        if version:
            base = len(data)
            data += block(rng, 8, rng.choice((version, version, 0, 0x35)))
            hot += [(base + 4, 1)] + [(base + 20 + 4 * index, 4) for index in range(6)]
        data += rng.choice((b"", b"", b"\x0bCET-1\x0b", gen.blob(rng, 20)))
        kind = "random"
        if rng.random() < 0.4:
            kind, data = gen.mutate(rng, data, hot, ">")
        result.append({"name": f"{kind}-{number}", "data": data})
    with open(os.path.join(vt.REPO, "test_data", "localtime.tzif"), "rb") as file_object:
        result.append({"name": "corpus", "data": file_object.read()})
    return result


def finish(reader, out):
    out.append({"k": "!version", "v": vt.nat(reader.format_version)})


def observe(scenario):
    from dtformats import tzif

    traces = dbg.run_file(lambda debug, writer: tzif.TimeZoneInformationFile(debug=debug, output_writer=writer), scenario["data"], finish=finish)
    for trace in traces:
        for event in trace["obs"]:
            if event["k"] == "Signature":
                # shown as a Python bytes literal
                try:
                    event["v"] = list(ast.literal_eval("".join(map(chr, event["v"]))))
                except (SyntaxError, TypeError, ValueError):
                    pass
    return traces


def trace_input(scenario, _part):
    return {"src": list(scenario["data"])}
