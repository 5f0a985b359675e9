"""Conformance of the utmp and utmpx readers with spec/Utmp.tla."""

import os
import struct

import dbg
import gen
import vt

SPEC = "Utmp"
EXTRA = {"Kind": "kind"}
MODELS = {
    "quick": [("UtmpMC", "UtmpMC.cfg")],
    "thorough": [("UtmpMC", "UtmpMC_thorough.cfg")],
}


def field(rng, size):
    roll = rng.random()
    if roll < 0.1:
        return bytes(rng.choice([c for c in range(256) if c != 10]) for _ in range(size))
    if roll < 0.25:
        return (rng.choice(("tty", "a")).encode() + b"\0" + rng.choice(("zz", "é")).encode()).ljust(size, b"\0")
    if roll < 0.3:
        return b"x" * size
    return rng.choice(gen.WORDS).encode()[:size].ljust(size, b"\0")


def linux(rng):
    ip = rng.choice((gen.blob(rng, 4) + bytes(12), bytes(16), gen.blob(rng, 16), bytes(15) + b"\1", gen.blob(rng, 4) + b"\1" + bytes(11), bytes(4) + b"\1" + bytes(11)))
    return struct.pack("<II32sI32s256sHHIII16s20s", rng.choice(list(range(0, 12)) + [0xFFFFFFFF, 0x80000000, 256]), gen.u(rng, 32), field(rng, 32), gen.u(rng, 32), field(rng, 32), field(rng, 256), gen.u(rng, 16), gen.u(rng, 16), gen.u(rng, 32), gen.u(rng, 32), gen.u(rng, 32), ip, gen.blob(rng, 20))


def mac(rng, first):
    name = rng.choice((b"utmpx-1.00\0",) * 6 + (b"utmpx-1.00", b"utmpx-1.01\0", b"utmpx-1.00x\0")).ljust(256, b"\0") if first else field(rng, 256)
    kind = (10 if rng.random() < 0.85 else rng.choice((0, 11, 266))) if first else rng.choice(list(range(0, 14)) + [0xFFFF, 0x8000])
    return struct.pack("<256sI32sIHHII256s64s", name, gen.u(rng, 32), field(rng, 32), gen.u(rng, 32), kind, gen.u(rng, 16), gen.u(rng, 32), gen.u(rng, 32), field(rng, 256), gen.blob(rng, 64))


def scenarios(rng, tier, dumped):
    result = gen.model_inputs(dumped, 120, tier)
    for number in range(200 if tier == "quick" else 3000):
        kind = rng.choice(("linux", "mac"))
        count = rng.choice((0, 1, 2, 3, 4))
        if kind == "linux":
            data = b"".join(linux(rng) for _ in range(count))
        else:
            data = b"".join(mac(rng, i == 0) for i in range(count))
        how = "random"
        roll = rng.random()
        if roll < 0.08 and data:
            data, how = data[: rng.randrange(len(data))], "cut"
        elif roll < 0.15:
            data, how = data + bytes(rng.choice((1, 100, 383, 384, 627))), "tail"
        result.append({"name": f"{how}-{kind}-{number}", "data": data, "kind": kind})
    for name, kind in (("utmp-linux_libc6", "linux"), ("utmpx-macosx10.5", "mac")):
        with open(os.path.join(vt.REPO, "test_data", name), "rb") as file_object:
            result.append({"name": "corpus-" + name, "data": file_object.read(), "kind": kind})
    return result


def observe(scenario):
    from dtformats import utmp

    cls = utmp.LinuxLibc6UtmpFile if scenario["kind"] == "linux" else utmp.MacOSXUtmpxFile
    return dbg.run_file(lambda debug, writer: cls(debug=debug, output_writer=writer), scenario["data"])


def trace_input(scenario, _part):
    return {"src": list(scenario["data"]), "kind": scenario["kind"]}
