"""Conformance of the Firefox cache version 1 readers with spec/Firefox.tla."""

import os
import struct

import dbg
import gen
import vt

SPEC = "Firefox"
EXTRA = {"Kind": "kind"}
MODELS = {
    "quick": [("FirefoxMC", "FirefoxMC.cfg")],
    "thorough": [("FirefoxMC", "FirefoxMC_thorough.cfg")],
}
SIZES = {"_CACHE_001_": 256, "_CACHE_002_": 1024, "_CACHE_003_": 4096}


def entry(rng, block):
    request = ("HTTP:http://" + rng.choice(gen.ASCII_WORDS)).encode() + b"\0"
    roll = rng.random()
    if roll < 0.1:
        request = b""
    elif roll < 0.2:
        request = rng.choice(gen.WORDS).encode()
    room = block * rng.choice((1, 1, 1, 2, 3)) - 36 - len(request)
    information = gen.blob(rng, max(0, rng.choice((room, room, room - 1, rng.randrange(40)))))
    if block > 256 and rng.random() < 0.8:
        information = information[: rng.randrange(60)]
    data = struct.pack(
        ">HHIIIIIIII", rng.choice((1,) * 8 + (0, 2, 257, 0x8001)), gen.u(rng, 16), gen.u(rng, 32), gen.u(rng, 32), gen.u(rng, 32),
        gen.u(rng, 32), gen.u(rng, 32), gen.u(rng, 32), len(request), len(information))
    data += request + information
    return data + bytes(-len(data) % block)


def scenarios(rng, tier, dumped):
    result = gen.model_inputs(dumped, 150, tier)
    for number in range(160 if tier == "quick" else 2500):
        how = "random"
        if rng.random() < 0.3:
            kind = "map"
            count = rng.randrange(5)
            data = struct.pack(">HHIIII", 1, gen.u(rng, 16), count * 16, gen.u(rng, 32), gen.u(rng, 32), gen.u(rng, 32))
            data += b"".join(struct.pack(">I", gen.u(rng, 32)) for _ in range(64 + 4 * count))
            hot = [(0, 2), (4, 4), (8, 4), (16, 4)]
        else:
            kind = rng.choice(("_CACHE_001_",) * 5 + ("_CACHE_002_", "_CACHE_003_"))
            block = SIZES[kind]
            data = b"".join(
                entry(rng, block) if rng.random() < 0.8 else rng.choice((bytes(block), gen.blob(rng, block).replace(b"\n", b"\0")))
                for _ in range(rng.randrange(5 if block < 4096 else 3)))
            hot = [(base + offset, size) for base in range(0, len(data), block) for offset, size in ((0, 2), (28, 4), (32, 4), (28, 4), (32, 4), (36, 1))]
            if rng.random() < 0.04:
                kind = rng.choice(("_CACHE_004_", "_CACHE_001", "_cache_001_", "_CACHE_MAP_"))
        if rng.random() < 0.5:
            kinds = []
            for _ in range(rng.choice((1, 1, 2))):
                one, data = gen.mutate(rng, data, hot, ">")
                data = data.replace(b"\n", b"\x0b")
                kinds.append(one)
            how = "+".join(kinds)
        result.append({"name": f"{how}-{kind}-{number}", "data": data, "kind": kind})
    directory = os.path.join(vt.REPO, "test_data", "firefox_cache1")
    for root, _, names in os.walk(directory):
        for name in sorted(names):
            if name in SIZES or name == "_CACHE_MAP_":
                with open(os.path.join(root, name), "rb") as file_object:
                    data = file_object.read()
                if len(data) <= 70000:
                    result.append({"name": "corpus-" + name, "data": data, "kind": "map" if name == "_CACHE_MAP_" else name})
    return result


def observe(scenario):
    from dtformats import firefox_cache1

    kind = scenario["kind"]
    cls = firefox_cache1.CacheMapFile if kind == "map" else firefox_cache1.CacheBlockFile
    return dbg.run_file(
        lambda debug, writer: cls(debug=debug, output_writer=writer), scenario["data"], name="_CACHE_MAP_" if kind == "map" else kind)


def trace_input(scenario, _part):
    return {"src": list(scenario["data"]), "kind": scenario["kind"]}
