"""Generators shared by the drivers."""

import struct

EDGE8 = (0, 1, 2, 7, 8, 0x7F, 0x80, 0xFE, 0xFF)
EDGE16 = (0, 1, 2, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFFFF)
EDGE32 = (0, 1, 2, 0xFF, 0xFFFF, 0x10000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF)
EDGE64 = (0, 1, 0xFFFFFFFF, 0x100000000, 0x7FFFFFFFFFFFFFFF, 0x8000000000000000, 0xFFFFFFFFFFFFFFFF)

WORDS = ["a", "bc", "foo.txt", "C:\\WINDOWS\\x", "été", "日本語", "𝄞 clef", "Zażółć gęślą", "", "long " * 9, "x=y;z", "tab-less", "%s{0}"]
ASCII_WORDS = ["a", "bc", "foo.txt", "/usr/bin/env", "www.example.com", "", "long " * 9, "x=y;z", "%s{0}", "~!@#$^&*()", "0123456789"]


def u(rng, bits):
    """An unsigned value with emphasis on the edges."""
    roll = rng.random()
    if roll < 0.35:
        return rng.choice((0, 1, (1 << bits) - 1, 1 << (bits - 1), (1 << (bits - 1)) - 1))
    if roll < 0.6:
        return rng.randrange(1 << min(bits, 8))
    return rng.randrange(1 << bits)


def blob(rng, size):
    return bytes(rng.randrange(256) for _ in range(size))


def mutate(rng, data, hot=None, order="<"):
    """Returns (kind, data) of one random edit; hot: preferred (offset, size) pairs."""
    data = bytearray(data)
    roll = rng.random()
    if not data:
        return "empty", bytes(data)
    if hot and roll < 0.5:
        offset, size = rng.choice(hot)
        if offset + size <= len(data):
            edges = {1: EDGE8, 2: EDGE16, 4: EDGE32, 8: EDGE64}.get(size, EDGE8)
            value = rng.choice(edges + (len(data), len(data) - offset, offset, rng.randrange(64)))
            if rng.random() < 0.4:
                current = int.from_bytes(data[offset : offset + size], "little" if order == "<" else "big")
                value = current + rng.choice((-16, -8, -4, -2, -1, 1, 2, 4, 8, 16))
            value %= 1 << (8 * size)
            data[offset : offset + size] = value.to_bytes(size, "little" if order == "<" else "big")
        return "hot", bytes(data)
    if roll < 0.65:
        return "cut", bytes(data[: rng.randrange(len(data))])
    if roll < 0.9:
        for _ in range(rng.choice((1, 1, 2, 4))):
            index = rng.randrange(len(data))
            value = rng.choice((data[index] ^ (1 << rng.randrange(8)), rng.randrange(256), 0, 255))
            if value != 10:
                data[index] = value
        return "flip", bytes(data)
    if roll < 0.95:
        index = rng.randrange(len(data))
        del data[index : index + rng.choice((1, 2, 4, 8, 16))]
        return "drop", bytes(data)
    return "tail", bytes(data) + bytes(rng.randrange(11, 256) for _ in range(rng.choice((1, 4, 12, 40))))


def model_inputs(dumped, limit, tier):
    """The inputs of the model's terminal states (a stride of them)."""
    step = 1 if tier != "quick" else max(1, len(dumped) // limit)
    result = []
    for number, (_, scen) in enumerate(dumped):
        if number % step == 0:
            scen = dict(scen)
            scen["data"] = bytes(scen.pop("src"))
            scen["name"] = f"model-{number}"
            result.append(scen)
    return result


def pack(fmt, *values):
    return struct.pack(fmt, *values)
