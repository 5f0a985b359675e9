"""Conformance of the Chrome cache readers with spec/Chrome.tla."""

import contextlib
import logging
import os
import struct

import dbg
import gen
import vt

SPEC = "Chrome"
EXTRA = {"Kind": "kind", "Ops": "ops", "Hdr": "hdr"}
MODELS = {
    "quick": [("ChromeMC", "ChromeMC.cfg"), ("ChromeMC", "ChromeMC_shapes.cfg")],
    "thorough": [("ChromeMC", "ChromeMC_deep.cfg"), ("ChromeMC", "ChromeMC_thorough.cfg")],
}
HEADER = 8192
INDEX = 0xC103CAC3
BLOCK = 0xC104CAC3


def address(rng, wild=0.1):
    if rng.random() < wild:
        return gen.u(rng, 32)
    kind = rng.choice((2, 2, 2, 2, 3, 0, 1, 4))
    if kind == 0:
        return rng.choice((0, 0x80000001, 0x80000012, 0x8000000A))
    return 0x80000000 | kind << 28 | rng.randrange(4) << 24 | rng.choice((1, 1, 1, 2)) << 16 | rng.choice((0, 0, 1, 1, 2, 3, 7))


def timestamp(rng):
    return rng.choice((0, 1, 13043350000000000 + rng.randrange(10**12), 13043350000 * 10**6, 265046774399999999, 265046774400000000, gen.u(rng, 64)))


def index_file(rng, addresses):
    data = struct.pack("<IHH", INDEX, rng.choice((0, 1)), 2)
    data += b"".join(struct.pack("<I", gen.u(rng, 32)) for _ in range(8)) + struct.pack("<Q", timestamp(rng)) + gen.blob(rng, 208)
    data += gen.blob(rng, 8) + b"".join(struct.pack("<I", gen.u(rng, 32)) for _ in range(6))
    data += b"".join(struct.pack("<I", address(rng, 0.3)) for _ in range(11)) + struct.pack("<II", gen.u(rng, 32), gen.u(rng, 32)) + gen.blob(rng, 28)
    for value in addresses:
        data += struct.pack("<I", value)
    return data + rng.choice((b"", b"", b"\1\2\3"))


def entry(rng, nexts):
    key = rng.choice(gen.ASCII_WORDS).encode() + rng.choice((b"", b"", b"\0junk", b"\xe9\xff", b"\t\r"))
    if rng.random() < 0.1:
        key = b"k" * rng.choice((159, 160))
    data = struct.pack("<IIIIII", gen.u(rng, 32), nexts, address(rng, 0.3), gen.u(rng, 32), gen.u(rng, 32), gen.u(rng, 32))
    data += struct.pack("<QII", timestamp(rng), len(key), address(rng, 0.3))
    data += b"".join(struct.pack("<I", gen.u(rng, 32)) for _ in range(4)) + b"".join(struct.pack("<I", address(rng, 0.3)) for _ in range(4))
    data += struct.pack("<I", gen.u(rng, 32)) + gen.blob(rng, 16) + struct.pack("<I", gen.u(rng, 32))
    return (data + key.ljust(160, b"\0"))[:256]


def block_file(rng):
    data = struct.pack("<IHHHH", BLOCK, rng.choice((0, 1)), 2, gen.u(rng, 16), gen.u(rng, 16))
    data += b"".join(struct.pack("<I", gen.u(rng, 32)) for _ in range(17))
    bitmap = bytearray(8112)
    for _ in range(rng.choice((0, 1, 3))):
        at = rng.choice((0, 0, 1, rng.randrange(8112), 8111))
        for k in range(rng.choice((1, 2, 9))):
            if at + k < 8112:
                bitmap[at + k] = rng.choice((255, 255, 1, 128, 0x0F, rng.randrange(256)))
    data += bytes(bitmap)
    for _ in range(rng.choice((0, 2, 3, 4))):
        data += entry(rng, rng.choice((0, 0, address(rng))))
    return data


def scenarios(rng, tier, dumped):
    quick = tier == "quick"
    result = []
    step = max(1, len(dumped) // 110) if quick else 1
    for number, (_, scen) in enumerate(dumped):
        if number % step == 0:
            files = []
            for item in scen["src"]:
                data = bytes(item["data"])
                name = "".join(map(chr, item["name"]))
                if name != "index":
                    data = data[:88] + bytes(HEADER - 88) + data[88:]
                files.append((name, data))
            result.append({"name": f"model-{number}", "kind": "dir", "files": files, "ops": []})
    for number in range(60 if quick else 1500):
        names = rng.choice((["data_1"], ["data_1", "data_2"], ["data_1", "data_2", "f_000001"], []))
        files = [("index", index_file(rng, [address(rng, 0.02) if rng.random() < 0.7 else 0 for _ in range(rng.choice((0, 1, 3, 6)))]))]
        for name in names:
            files.append((name, block_file(rng) if name[0] == "d" or rng.random() < 0.5 else b"separate"))
        if rng.random() < 0.3:
            which = rng.randrange(len(files))
            name, data = files[which]
            kind, data = gen.mutate(rng, data, [(0, 4), (4, 2), (6, 2), (HEADER + 4, 4), (HEADER + 260, 4), (368, 4), (372, 4)])
            files[which] = (name, data)
        if rng.random() < 0.1:
            del files[rng.randrange(len(files))]
        result.append({"name": f"dir-{number}", "kind": "dir", "files": files, "ops": []})
    for number in range(120 if quick else 2500):
        kind = rng.choice(("index", "index", "data", "file"))
        if kind == "index" or (kind == "file" and rng.random() < 0.5):
            data = index_file(rng, [address(rng, 0.5) if rng.random() < 0.7 else 0 for _ in range(rng.choice((0, 1, 3, 12)))])
        else:
            data = block_file(rng)
        if rng.random() < 0.3:
            _, data = gen.mutate(rng, data, [(0, 4), (4, 2), (6, 2), (368, 4)])
        ops = []
        if kind == "data":
            ops = [HEADER + 256 * rng.randrange(4) + rng.choice((0, 0, 0, 36)) for _ in range(rng.choice((0, 1, 3)))]
        result.append({"name": f"{kind}-{number}", "kind": kind, "files": [("f", data)], "ops": ops})
    return result


class Lines:
    """Standard output as interface events."""

    def __init__(self, out):
        self.out = out
        self.rest = ""

    def write(self, text):
        self.rest += text
        *lines, self.rest = self.rest.split("\n")
        for line in lines:
            self.out.append({"k": "!line", "v": vt.text(line)})

    def flush(self):
        pass


def whole(value):
    return -1 if value is None else value


def observe(scenario):
    from dtformats import chrome_cache

    logging.disable(logging.CRITICAL)

    def body(debug, writer, out, directory):
        for name, data in scenario["files"]:
            with open(os.path.join(directory, name), "wb") as file_object:
                file_object.write(data)
        kind = scenario["kind"]
        path = os.path.join(directory, "f")
        if kind in ("dir", "file"):
            parser = chrome_cache.ChromeCacheParser(debug=debug, output_writer=writer)
            with contextlib.redirect_stdout(Lines(out)):
                if kind == "dir":
                    parser.ParseDirectory(directory)
                else:
                    parser.ParseFile(path)
        elif kind == "index":
            reader = chrome_cache.IndexFile(debug=debug, output_writer=writer)
            reader.Open(path)
            table = []
            for number, item in sorted(reader.index_table.items()):
                table.append({"n": number, "v": vt.nat(item.value), "init": item.is_initialized, "type": item.file_type,
                              "name": vt.text(item.filename) if item.filename is not None else [],
                              "num": whole(item.block_number), "off": whole(item.block_offset), "size": whole(item.block_size)})
            out.append({"k": "!index", "version": vt.text(reader.format_version), "time": vt.nat(reader.creation_time), "table": table})
            reader.Close()
        else:
            reader = chrome_cache.DataBlockFile(debug=debug, output_writer=writer)
            reader.Open(path)
            out.append({"k": "!data", "version": vt.text(reader.format_version), "size": vt.nat(reader.block_size), "n": vt.nat(reader.number_of_entries)})
            for offset in scenario["ops"]:
                item = reader.ReadCacheEntry(offset)
                out.append({"k": "!entry", "hash": vt.nat(item.hash), "key": vt.text(item.key), "time": vt.nat(item.creation_time),
                            "next": vt.nat(item.next.value), "rank": vt.nat(item.rankings_node.value)})
            reader.Close()

    return dbg.run_dir(body)


def trace_input(scenario, _part):
    return {"src": [{"name": vt.text(name), "data": list(data)} for name, data in scenario["files"]],
            "kind": scenario["kind"], "ops": scenario["ops"], "hdr": HEADER}
