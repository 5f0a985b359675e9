"""Conformance of the Apple System Log reader with spec/Asl.tla."""

import os
import struct

import dbg
import vt

SPEC = "Asl"
MODELS = {
    "quick": [("AslMC", "AslMC.cfg")],
    "thorough": [("AslMC", "AslMC_thorough.cfg")],
}

WORDS = ["a", "host", "Sender", "x.y.z", "com.apple", "mach_kernel", "été", "zz top", "ASLExpireTime",
         "Message with (some) text, longer than seven", "日本", "", "1234567", "𝄞𝄞"]


class Builder:
    """Builds an ASL file."""

    def __init__(self, rng):
        self.rng = rng
        self.data = bytearray(80)
        self.records = []

    def ref(self, value, inline=None):
        rng = self.rng
        if value is None:
            return 0
        raw = value.encode("utf-8")
        if inline is None:
            inline = len(raw) < 8 and rng.random() < 0.7
        if inline:
            raw = raw[:7]
            return int.from_bytes(bytes([0x80 | len(raw)]) + raw.ljust(7, b"\x00"), "big")
        offset = len(self.data)
        raw += b"\x00" * rng.choice((1, 1, 1, 2) + ((0,) if raw else ()))
        self.data += struct.pack(">HI", rng.choice((0, 1, 0xFFFF)), len(raw)) + raw
        return offset

    def record(self, odd=None):
        rng = self.rng
        word = lambda: rng.choice(WORDS) if rng.random() < 0.85 else None
        refs = [self.ref(word()) for _ in range(4)]
        extras = []
        for _ in range(rng.randrange(0, 4)):
            name = rng.choice(["k1", "k2", "CFLog Local Time", "Sender_Mach_UUID", "ReadUID", "é"]) if rng.random() < 0.9 else None
            extras += [self.ref(name), self.ref(word())]
        if odd == "badflag":
            refs[rng.randrange(4)] = rng.choice((0x9, 0xA, 0xC, 0xF)) << 60 | rng.randrange(1 << 40)
        elif odd == "badsize":
            refs[rng.randrange(4)] = (0x80 | rng.randrange(8, 16)) << 56 | 0x61 << 48
        elif odd == "badutf":
            refs[rng.randrange(4)] = 0x83FFFE4100000000
        elif odd == "farref":
            refs[rng.randrange(4)] = rng.choice((len(self.data) + 100000, 1 << 40, 5))
        elif odd == "farextra":
            extras += [self.ref("k9"), len(self.data) + 50000]
        trailer = rng.choice((8, 8, 8, 8, 0)) if not extras else rng.choice((8, 8, 8, 0))
        self.data += b"\x00" * rng.choice((0, 0, 3)) if odd != "tight" else b""
        offset = len(self.data)
        size = 98 + 8 * len(extras) + trailer
        if odd == "size":
            size += rng.choice((1, 4, -8, 8, 16, -90, 100000))
        self.records.append(offset)
        u = lambda bits: rng.choice((0, 1, (1 << bits) - 1, 1 << (bits - 1), rng.randrange(1 << bits)))
        self.data += struct.pack(
            ">HIQQQIHHIIIIIQQQQQ", u(16), max(0, size - 6), 0, u(64), rng.choice((0, 1, 1300000000, 4294967296, 86399, 951782400, 951868800)),
            u(32), u(16), u(16), u(32), u(32), u(32), u(32), u(32), u(64), *refs)
        for e in extras:
            self.data += struct.pack(">Q", e)
        self.data += b"\x00" * trailer

    def finish(self, order=None, first=None):
        rng = self.rng
        order = order if order is not None else list(range(len(self.records)))
        chain = [self.records[i] for i in order]
        for number, offset in enumerate(chain):
            following = chain[number + 1] if number + 1 < len(chain) else 0
            struct.pack_into(">Q", self.data, offset + 6, following)
        start = chain[0] if chain else 0
        if first is not None:
            start = first
        self.data[:80] = struct.pack(">12sIQQIQ36s", b"ASL DB", rng.choice((2, 1)), start, rng.choice((0, 1300000000, 5000000000)),
                                     256, chain[-1] if chain else 0, bytes(rng.randrange(256) for _ in range(36)))
        return bytes(self.data)


def scenarios(rng, tier, dumped):
    result = []
    step = 1 if tier != "quick" else max(1, len(dumped) // 400)
    for number, (_, scen) in enumerate(dumped):
        if number % step == 0:
            result.append({"name": f"model-{number}", "data": bytes(scen["src"])})
    odds = ["badflag", "badsize", "badutf", "farref", "farextra", "size", "tight"]
    for number in range(300 if tier == "quick" else 4000):
        builder = Builder(rng)
        count = rng.randrange(0, 5)
        bad = rng.randrange(0, 8)
        for i in range(count):
            builder.record(rng.choice(odds) if i == bad else None)
        kind = "random"
        data = None
        roll = rng.random()
        if count and roll < 0.08:
            order = [rng.randrange(count) for _ in range(count)]
            data, kind = builder.finish(order), "order"
        elif roll < 0.12:
            data, kind = builder.finish(first=rng.choice([len(builder.data), len(builder.data) + 9, 1 << 50, 1 << 63, (1 << 64) - 1] + builder.records[-1:])), "first"
        else:
            data = builder.finish()
        if count and roll > 0.92:
            data, kind = data[: rng.randrange(len(data))], "cut"
        elif count and 0.88 < roll <= 0.92:
            # the last record points back to one of the records
            data = bytearray(data)
            struct.pack_into(">Q", data, builder.records[-1] + 6, rng.choice(builder.records))
            data, kind = bytes(data), "cycle"
        result.append({"name": f"{kind}-{number}", "data": data})
    # a record that points to itself while its last string lies before it
    builder = Builder(rng)
    value = builder.ref("somewhere", inline=False)
    offset = len(builder.data)
    builder.data += struct.pack(">HIQQQIHHIIIIIQQQQQ", 0, 98 + 24 - 6, offset, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0)
    builder.data += struct.pack(">QQQ", builder.ref("k", inline=True), value, 0)
    result.append({"name": "self-cycle", "data": builder.finish(first=offset)})
    with open(os.path.join(vt.REPO, "test_data", "applesystemlog.asl"), "rb") as file_object:
        result.append({"name": "corpus", "data": file_object.read()})
    return result


def observe(scenario):
    from dtformats import asl

    return dbg.run_file(lambda debug, writer: asl.AppleSystemLogFile(debug=debug, output_writer=writer), scenario["data"])


def trace_input(scenario, _part):
    return {"src": list(scenario["data"])}
