"""Conformance of the Custom Destinations Jump List reader with spec/JumpCustom.tla."""

import os
import struct

import d_jumpauto
import dbg
import gen
import vt

SPEC = "JumpCustom"
EXTRA = {"Lnks": "lnks"}
MODELS = {
    "quick": [("JumpCustomMC", "JumpCustomMC.cfg")],
    "thorough": [("JumpCustomMC", "JumpCustomMC_thorough.cfg")],
}
GUID = bytes.fromhex("0114020000000000c000000000000046")


def scenarios(rng, tier, dumped):
    result = gen.model_inputs(dumped, 250, tier)
    for number in range(300 if tier == "quick" else 4000):
        count = rng.choice((0, 1, 1, 2, 3))
        data = struct.pack("<III", 2, count, gen.u(rng, 32))
        hot = [(0, 4), (4, 4)]
        for _ in range(count):
            kind = rng.randrange(3)
            entries = rng.choice((0, 1, 1, 2, 3))
            declared = entries + rng.choice((0, 0, 0, 0, 1, -1, 5, 0xFFFFFFFF - entries))
            hot.append((len(data), 4))
            data += struct.pack("<I", kind)
            if kind == 0:
                name = (rng.choice(gen.WORDS) + rng.choice(("", "", "\0", "\0x"))).encode("utf-16-le")
                hot.append((len(data), 2))
                data += struct.pack("<H", len(name) // 2) + name
            hot.append((len(data), 4))
            if kind == 1:
                data += struct.pack("<I", gen.u(rng, 32))
                entries = 0
            else:
                data += struct.pack("<I", max(0, declared))
            for _ in range(entries):
                hot.append((len(data), 1))
                data += GUID + d_jumpauto.lnk(rng)[:76] + rng.choice((bytes(4), bytes(4), bytes(4), b""))
            hot.append((len(data), 1))
            data += b"\xab\xfb\xbf\xba"
        data += rng.choice((b"", b"", gen.blob(rng, rng.choice((1, 3, 16, 20)))))
        kind = "random"
        if rng.random() < 0.3:
            kind, data = gen.mutate(rng, data, hot)
        result.append({"name": f"{kind}-{number}", "data": data})
    with open(os.path.join(vt.REPO, "test_data", "5afe4de1b92fc382.customDestinations-ms"), "rb") as file_object:
        corpus = file_object.read()
    result.append({"name": "corpus", "data": corpus})
    for number in range(20 if tier == "quick" else 300):
        kind, data = gen.mutate(rng, corpus, [(0, 4), (4, 4), (12, 4), (16, 4)])
        result.append({"name": f"corpus-{kind}-{number}", "data": data})
    return result


def observe(scenario):
    from dtformats import jump_list

    return dbg.run_file(lambda debug, writer: jump_list.CustomDestinationsFile(debug=debug, output_writer=writer), scenario["data"], finish=d_jumpauto.finish)


def trace_input(scenario, _part):
    if "lnks" not in scenario:
        data = scenario["data"]
        lnks = []
        offset = data.find(GUID)
        while offset >= 0:
            ok, size = d_jumpauto.lnk_size(data[offset + 16 :])
            lnks.append({"o": offset + 16, "ok": ok, "n": size})
            offset = data.find(GUID, offset + 1)
        scenario["lnks"] = lnks
    return {"src": list(scenario["data"]), "lnks": scenario["lnks"]}
