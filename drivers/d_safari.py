"""Conformance of the Safari cookies reader with spec/Safari.tla."""

import os
import struct

import dbg
import gen
import vt

SPEC = "Safari"
MODELS = {
    "quick": [("SafariMC", "SafariMC.cfg")],
    "thorough": [("SafariMC", "SafariMC_thorough.cfg")],
}
FLOATS = [0.0, 1.0, -1.0, 0.5, -0.5, 366857040.0, 1e-7, 5e-7, 1.5e-6, -86400.0, -86401.0, 2.5e-6, 252455615999.0, 252455616000.0, -63145267200.0, -63145267201.0, 1e300, -1e18,
          float("inf"), float("-inf"), float("nan"), -0.0, 123456789.123456789, 1e15 + 0.3, 4503599627370496.5, 5e-324, 9007199254740993.0]


def build(rng):
    pages = []
    for _ in range(rng.choice((0, 1, 1, 2, 3))):
        records = []
        for _ in range(rng.choice((0, 1, 1, 2, 3))):
            strings = b""
            offsets = []
            for _ in range(4):
                if rng.random() < 0.2:
                    offsets.append(0)
                elif rng.random() < 0.1 and offsets:
                    offsets.append(rng.choice(offsets))
                else:
                    offsets.append(56 + len(strings))
                    strings += rng.choice(gen.ASCII_WORDS).encode() + b"\0"
            order = [0, 1, 2, 3]
            if rng.random() < 0.3:
                rng.shuffle(order)
            size = 56 + len(strings)
            records.append(struct.pack("<8IQ", rng.choice((size, size, size, 0, 56, 100000)), gen.u(rng, 32), gen.u(rng, 32), gen.u(rng, 32), *[offsets[i] for i in order], gen.u(rng, 64)) + struct.pack("<dd", rng.choice(FLOATS), rng.uniform(-1e9, 1e9) if rng.random() < 0.5 else rng.choice(FLOATS)) + strings)
        base = 12 + 4 * len(records)
        offs = []
        body = b""
        for record in records:
            offs.append(base + len(body))
            body += record
        if rng.random() < 0.2:
            rng.shuffle(offs)
        pages.append(struct.pack("<II", gen.u(rng, 32), len(records)) + b"".join(struct.pack("<I", o) for o in offs) + bytes(4) + body + bytes(rng.choice((0, 0, 5))))
    data = b"cook" + struct.pack(">I", len(pages)) + b"".join(struct.pack(">I", len(p)) for p in pages) + b"".join(pages) + gen.blob(rng, rng.choice((8, 8, 8, 7, 30, 0)))
    return data, len(pages)


def scenarios(rng, tier, dumped):
    result = gen.model_inputs(dumped, 150, tier)
    for number in range(350 if tier == "quick" else 5000):
        data, pages = build(rng)
        kind = "random"
        if rng.random() < 0.45:
            hot = [(4, 4)] + [(8 + 4 * i, 4) for i in range(pages)]
            start = 8 + 4 * pages
            if rng.random() < 0.7:
                hot = [(start + 4, 4)] + [(start + 8 + 4 * i, 4) for i in range(8)]
                kind, data = gen.mutate(rng, data, hot, "<")
            else:
                kind, data = gen.mutate(rng, data, hot, ">")
        result.append({"name": f"{kind}-{number}", "data": data})
    with open(os.path.join(vt.REPO, "test_data", "Cookies.binarycookies"), "rb") as file_object:
        result.append({"name": "corpus", "data": file_object.read()})
    return result


def observe(scenario):
    from dtformats import safari_cookies

    return dbg.run_file(lambda debug, writer: safari_cookies.BinaryCookiesFile(debug=debug, output_writer=writer), scenario["data"])


def trace_input(scenario, _part):
    return {"src": list(scenario["data"])}
