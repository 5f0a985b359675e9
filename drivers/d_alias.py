"""Conformance of the Mac OS alias data reader with spec/Alias.tla."""

import os
import struct

import dbg
import gen
import vt

SPEC = "Alias"
EXTRA = {}
MODELS = {
    "quick": [("AliasMC", "AliasMC.cfg")],
    "thorough": [("AliasMC", "AliasMC_thorough.cfg")],
}


def tagged(rng):
    tag = rng.choice((0, 1, 2, 3, 6, 14, 15, 18, 19, 0xFFFF, 0xFFFF, 7, 17, 256, 270))
    word = rng.choice(gen.WORDS)
    if tag == 1:
        data = b"".join(struct.pack(">I", gen.u(rng, 32)) for _ in range(rng.randrange(4)))
        if rng.random() < 0.05:
            data += b"\1" * rng.randrange(1, 4)
    elif tag in (0, 2, 6, 18, 19):
        data = word.encode() + b"\0" * rng.choice((0, 0, 1, 2))
    elif tag in (14, 15):
        text = word.encode("utf-16-be")
        data = struct.pack(">H", len(text) // 2 + (rng.choice((1, -1, 255)) if rng.random() < 0.08 and text else 0)) + text
    else:
        data = gen.blob(rng, rng.choice((0, 0, 1, 2, 5, 20, 40)))
    return struct.pack(">HH", tag, len(data)) + data + (rng.choice((b"\0", b"\xff")) if len(data) % 2 else b"")


def scenarios(rng, tier, dumped):
    result = gen.model_inputs(dumped, 200, tier)
    for number in range(220 if tier == "quick" else 4000):
        version = rng.choice((2, 3))
        if version == 2:
            body = gen.blob(rng, 30) + struct.pack(">I", gen.u(rng, 32)) + gen.blob(rng, 76) + struct.pack(">I", gen.u(rng, 32)) + gen.blob(rng, 28)
        else:
            body = struct.pack(
                ">HQ4sHIIQI14s", gen.u(rng, 16), gen.u(rng, rng.choice((48, 48, 64))), gen.blob(rng, 4), gen.u(rng, 16), gen.u(rng, 32), gen.u(rng, 32),
                gen.u(rng, rng.choice((48, 48, 64))), gen.u(rng, 32), gen.blob(rng, 14))
        hot = [(4, 2), (6, 2)]
        for _ in range(rng.randrange(6)):
            hot.extend([(8 + len(body), 2), (8 + len(body) + 2, 2), (8 + len(body) + 4, 2)])
            body += tagged(rng)
        data = struct.pack(">IHH", 0, 8 + len(body), version) + body
        how = "random"
        if rng.random() < 0.45:
            how, data = gen.mutate(rng, data, hot, ">")
            data = data.replace(b"\n", b"\x0b")
            if rng.random() < 0.8 and len(data) >= 6:
                data = data[:4] + struct.pack(">H", len(data)) + data[6:]
        result.append({"name": f"{how}-{number}", "data": data})
    with open(os.path.join(vt.REPO, "test_data", "com.apple.loginitems.plist.alias_data"), "rb") as file_object:
        result.append({"name": "corpus", "data": file_object.read()})
    return result


def observe(scenario):
    from dtformats import alias_data

    return dbg.run_file(lambda debug, writer: alias_data.MacOSLoginItemAliasData(debug=debug, output_writer=writer), scenario["data"])


def trace_input(scenario, _part):
    return {"src": list(scenario["data"])}
