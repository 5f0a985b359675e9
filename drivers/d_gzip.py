"""Conformance of the GZip file reader with spec/Gzip.tla."""

import os
import struct
import zlib

import dbg
import gen
import vt

SPEC = "Gzip"
MODELS = {
    "quick": [("GzipMC", "GzipMC.cfg")],
    "thorough": [("GzipMC", "GzipMC_thorough.cfg")],
}
EXTRA = {"Inf": "inf"}


def inflate_ends(data):
    """The end of the DEFLATE stream at every offset, -1 where there is none."""
    result = []
    for offset in range(len(data)):
        decompressor = zlib.decompressobj(-zlib.MAX_WBITS)
        try:
            decompressor.decompress(data[offset:])
            result.append(len(data) - len(decompressor.unused_data) if decompressor.eof else -1)
        except zlib.error:
            result.append(-1)
    return result


def member(rng, hot, base):
    flags = rng.choice((0, 0, 8, 8, 2, 4, 16, 30, 31, rng.randrange(256)))
    data = struct.pack("<HBBiBB", 0x8B1F, 8, flags, rng.choice((0, 1, -1, 0x50000000, -0x80000000)), gen.u(rng, 8), gen.u(rng, 8))
    hot += [(base, 2), (base + 2, 1), (base + 3, 1)]
    if flags & 4:
        size = rng.choice((0, 1, 7))
        hot.append((base + len(data), 2))
        data += struct.pack("<H", size) + gen.blob(rng, size)
    if flags & 8:
        data += rng.choice([word.encode("latin-1") for word in gen.ASCII_WORDS + ["été"]]) + b"\0"
    if flags & 16:
        data += rng.choice([word.encode("latin-1") for word in gen.ASCII_WORDS]) + b"\0"
    if flags & 2:
        data += gen.blob(rng, 2)
    plain = rng.choice((b"", b"", b"a", b"hello " * 5, gen.blob(rng, 40), bytes(300)))
    compressor = zlib.compressobj(rng.choice((0, 1, 9)), zlib.DEFLATED, -zlib.MAX_WBITS)
    data += compressor.compress(plain) + compressor.flush()
    return data + struct.pack("<II", rng.choice((zlib.crc32(plain), gen.u(rng, 32))), rng.choice((len(plain), gen.u(rng, 32))))


def scenarios(rng, tier, dumped):
    result = gen.model_inputs(dumped, 350, tier)
    for number in range(350 if tier == "quick" else 5000):
        data, hot = b"", []
        for _ in range(rng.choice((0, 1, 1, 2, 3))):
            data += member(rng, hot, len(data))
        kind = "random"
        if rng.random() < 0.35 and data:
            kind, data = gen.mutate(rng, data, hot)
        result.append({"name": f"{kind}-{number}", "data": data})
    for number, scenario in enumerate(result):
        scenario["chunk"] = (0, 0, 1, 2, 7)[number % 5]
    with open(os.path.join(vt.REPO, "test_data", "syslog.gz"), "rb") as file_object:
        result.append({"name": "corpus", "data": file_object.read(), "chunk": 0})
    return result


def observe(scenario):
    from dtformats import gzipfile

    class Chunked(gzipfile.GZipFile):
        """Reads the compressed data in small parts."""

        _BUFFER_SIZE = scenario["chunk"] or getattr(gzipfile.GZipFile, "_BUFFER_SIZE", 65536)

    return dbg.run_file(lambda debug, writer: Chunked(debug=debug, output_writer=writer), scenario["data"])


def trace_input(scenario, _part):
    return {"src": list(scenario["data"]), "inf": inflate_ends(scenario["data"])}
