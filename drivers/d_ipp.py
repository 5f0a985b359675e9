"""Conformance of the CUPS IPP file reader with spec/Ipp.tla."""

import os
import struct

import dbg
import gen
import vt

SPEC = "Ipp"
MODELS = {
    "quick": [("IppMC", "IppMC.cfg")],
    "thorough": [("IppMC", "IppMC_thorough.cfg")],
}

CHARSETS = ("utf-8", "UTF-8", "us-ascii", "ascii", "iso-8859-1", "ISO-8859-1", "x-unknown", "")
KNOWN = {name.lower() for name in CHARSETS[:-2]}


def attribute(rng):
    tag = rng.choice((0x13, 0x21, 0x22, 0x23, 0x30, 0x31, 0x32, 0x33, 0x35, 0x41, 0x41, 0x42, 0x42, 0x44, 0x45, 0x46, 0x47, 0x47, 0x48, 0x49, rng.randrange(16, 128)))
    name = rng.choice(gen.WORDS).encode("utf-8")
    if tag in (0x21, 0x23):
        value = struct.pack(">i", rng.choice((0, 1, -1, 0x7FFFFFFF, -0x80000000, rng.randrange(1 << 31))))
    elif tag == 0x22:
        value = bytes([rng.choice((0, 1, 1, 0, 2))])
    elif tag == 0x31:
        value = struct.pack(">H9B", rng.choice((0, 1, 1900, 2000, 2023, 2024, 65535)), rng.choice((1, 2, 2, 12, 4, 0, 13)), rng.choice((1, 28, 29, 30, 31, 0)),
                            rng.choice((0, 23, 24)), rng.choice((0, 59, 60)), rng.choice((0, 59, 60)), rng.choice((0, 9, 11)), rng.choice((43, 43, 45, 32)),
                            rng.choice((0, 13, 14)), rng.choice((0, 59, 60)))
        if rng.random() < 0.5:
            value = struct.pack(">H9B", 2024, 2, 29, 23, 59, 59, 9, rng.choice((43, 45)), 13, 59)
    elif tag == 0x47:
        value = rng.choice(CHARSETS).encode()
    elif tag in (0x41, 0x42):
        value = rng.choice([word.encode("utf-8") for word in gen.WORDS] + [b"\xe9t\xe9", b"\xff"])
    elif 0x44 <= tag <= 0x49:
        value = rng.choice([word.encode() for word in gen.ASCII_WORDS] + [b"\xe9"])
    else:
        value = gen.blob(rng, rng.choice((0, 1, 4, 9, 20)))
    return struct.pack(">BH", tag, len(name)) + name + struct.pack(">H", len(value)) + value


def tidy(rng, state):
    """An attribute that is fit to be read, after those before it."""
    if rng.random() < 0.3:
        state["charset"] = rng.choice(CHARSETS[:-2])
        return encode(0x47, rng.choice(gen.ASCII_WORDS).encode(), state["charset"].encode())
    if rng.random() < 0.5:
        text = rng.choice(("", "a", "caf\u00e9", "\u00e9t\u00e9", "\u20ac 5", "\u65e5", "~"))
        try:
            value = text.encode(state["charset"])
        except UnicodeEncodeError:
            value = b"plain"
        return encode(rng.choice((0x41, 0x42)), b"text", value)
    while True:
        data = attribute(rng)
        value = data[5 + struct.unpack_from(">H", data, 1)[0] :]
        if data[0] in (0x13, 0x21, 0x23, 0x30, 0x32, 0x33, 0x35, 0x48, 0x49) and (data[0] < 0x44 or value.isascii()):
            return data
        if data[0] == 0x22 and value[0] < 2 or data[0] == 0x31 and value[:2] == b"\x07\xe8":
            return data


def encode(tag, name, value):
    return struct.pack(">BH", tag, len(name)) + name + struct.pack(">H", len(value)) + value


def odd_charset(data):
    """Whether the file has a character set the specification does not model."""
    offset = 8
    while offset < len(data) and data[offset] != 3:
        if data[offset] < 16:
            offset += 1
            continue
        if offset + 3 > len(data):
            return False
        size = struct.unpack_from(">H", data, offset + 1)[0]
        if offset + 5 + size > len(data):
            return False
        value_size = struct.unpack_from(">H", data, offset + 3 + size)[0]
        value = data[offset + 5 + size : offset + 5 + size + value_size]
        if data[offset] == 0x47:
            name = value.decode("latin-1")
            if name.lower() not in KNOWN:
                try:
                    b"a".decode(name)
                    return True
                except (LookupError, ValueError):
                    pass
        offset += 5 + size + value_size
    return False


def scenarios(rng, tier, dumped):
    result = gen.model_inputs(dumped, 350, tier)
    for number in range(350 if tier == "quick" else 5000):
        data = struct.pack(">bbhi", rng.choice((1, 2, -1, 127)), rng.choice((0, 1, -128)), rng.choice((2, -1, 0x7FFF, -0x8000)), rng.choice((0, 1, -1, 0x7FFFFFFF)))
        hot = []
        state = {"charset": "ascii"} if rng.random() < 0.5 else None
        for _ in range(rng.choice((0, 1, 2, 4, 7) if state is None else (2, 4, 7, 10))):
            if rng.random() < 0.25:
                data += bytes([rng.choice((1, 2, 4, 5))])
            hot += [(len(data), 1), (len(data) + 1, 2)]
            data += tidy(rng, state) if state else attribute(rng)
        data += rng.choice((b"\3", b"\3", b"\3", b"\3tail", b"", b"\0", b"\x0f"))
        kind = "random"
        if rng.random() < (0.2 if state else 0.5):
            kind, data = gen.mutate(rng, data, hot, ">")
        if 10 not in data and not odd_charset(data):
            result.append({"name": f"{kind}-{number}", "data": data})
    with open(os.path.join(vt.REPO, "test_data", "cups_ipp_2.0"), "rb") as file_object:
        result.append({"name": "corpus", "data": file_object.read()})
    return result


def observe(scenario):
    from dtformats import cups_ipp

    return dbg.run_file(lambda debug, writer: cups_ipp.CupsIppFile(debug=debug, output_writer=writer), scenario["data"])


def trace_input(scenario, _part):
    return {"src": list(scenario["data"])}
