"""Conformance of the CPIO archive reader with spec/Cpio.tla."""

import os

import dbg
import vt

SPEC = "Cpio"
MODELS = {
    "quick": [("CpioMC", "CpioMC.cfg")],
    "thorough": [("CpioMC", "CpioMC_thorough.cfg")],
}
EXTRA = {"Probes": "probes"}

FORMATS = ("bin-big-endian", "bin-little-endian", "odc", "newc", "crc")


def encode(fmt, entries, rng=None, upper=False):
    """Writes a CPIO archive."""
    out = b""
    for e in entries:
        name = e["path"] + (b"\x00" if not e.get("nonul") else b"")
        data = e["data"]
        if fmt.startswith("bin"):
            order = "big" if fmt == "bin-big-endian" else "little"
            p = lambda v: (v & 0xFFFF).to_bytes(2, order)
            q = lambda v: p(v >> 16) + p(v)
            head = (b"\x71\xc7" if order == "big" else b"\xc7\x71") + b"".join(
                p(v) for v in (e["dev"], e["ino"], e["mode"], e["uid"], e["gid"], e["nlink"], e["rdev"])
            ) + q(e["mtime"]) + p(len(name)) + q(e.get("size", len(data)))
            align = 2
        elif fmt == "odc":
            o = lambda v, n: (b"%o" % (v & (8**n - 1))).rjust(n, b"0")
            head = b"070707" + b"".join(
                o(v, 6) for v in (e["dev"], e["ino"], e["mode"], e["uid"], e["gid"], e["nlink"], e["rdev"])
            ) + o(e["mtime"], 11) + o(len(name), 6) + o(e.get("size", len(data)), 11)
            align = 1
        else:
            def h(v):
                s = b"%08x" % (v & 0xFFFFFFFF)
                return s.upper() if upper else s
            head = (b"070701" if fmt == "newc" else b"070702") + b"".join(
                h(v) for v in (
                    e["ino"], e["mode"], e["uid"], e["gid"], e["nlink"], e["mtime"],
                    e.get("size", len(data)), e["dev"] >> 8, e["dev"] & 255, e["rdev"] >> 8,
                    e["rdev"] & 255, len(name), sum(data) if fmt == "crc" else 0)
            )
            align = 4
        out += head + name
        out += b"\x00" * (-len(out) % align)
        out += data
        out += b"\x00" * (-len(out) % align)
    return out


def random_entry(rng, paths):
    big = rng.choice((0xFF, 0xFFFF, 0xFFFFFFFF))
    return {
        "path": rng.choice(paths), "data": bytes(rng.randrange(256) for _ in range(rng.choice((0, 1, 2, 3, 4, 5, 7, 8, 30)))),
        "dev": rng.randrange(0x10000), "ino": rng.randrange(big + 1), "mode": rng.choice((0o100644, 0o40755, 0o120777, rng.randrange(big + 1))),
        "uid": rng.randrange(big + 1), "gid": rng.randrange(big + 1), "nlink": rng.randrange(5), "rdev": rng.randrange(0x10000),
        "mtime": rng.randrange(0x100000000), "nonul": rng.random() < 0.05,
    }


PATHS = [b"a", b"ab", b"abc", b"abcd", b"dir/one", b"dir/two", b"dir/", b"dir", b".", b"", b"z" * 33,
         b"TRAILER", b"TRAILER!!!x", b"xTRAILER!!!", b"A b", b"trailer!!!"]


def scenarios(rng, tier, dumped):
    result = []
    default = [b"a", b"ab", b"TRAILER!!!", b""]
    for number, (_, scen) in enumerate(dumped):
        result.append({"name": f"model-{number}", "data": bytes(scen["src"]), "probe": default})
    count = 500 if tier == "quick" else 6000
    for number in range(count):
        fmt = FORMATS[number % 5]
        entries = [random_entry(rng, PATHS) for _ in range(rng.randrange(0, 7))]
        tail = b""
        if rng.random() < 0.75:
            trailer = random_entry(rng, [b"TRAILER!!!"])
            trailer["data"], trailer["nonul"] = b"", False
            entries.append(trailer)
            if rng.random() < 0.4:
                entries += [random_entry(rng, PATHS)]
            tail = b"\x00" * rng.choice((0, 0, 1, 3, 100))
        if entries and rng.random() < 0.1:
            victim = rng.choice(entries)
            victim["size"] = rng.choice((len(victim["data"]) + 1, 5000, 0x7FFFFFFF, 0xFFFFFFFF))
        data = encode(fmt, entries, upper=rng.random() < 0.3) + tail
        kind = "random"
        roll = rng.random()
        if roll < 0.15 and data:
            data = data[: rng.randrange(len(data))]
            kind = "cut"
        elif roll < 0.2 and data:
            position = rng.randrange(min(len(data), 26))
            data = data[:position] + bytes([rng.choice((0x38, 0x67, 0x7A, 0xFF, 0x80))]) + data[position + 1 :]
            kind = "flip"
        result.append({"name": f"{kind}-{number}-{fmt}", "data": data, "probe": rng.sample(PATHS, 5) + [b"TRAILER!!!"]})
    root = os.path.join(vt.REPO, "test_data", "cpio")
    for name in sorted(os.listdir(root)):
        with open(os.path.join(root, name), "rb") as file_object:
            data = file_object.read()
        result.append({"name": f"corpus-{name}", "data": data, "probe": default + [b"syslog", b"sys"]})
        for _ in range(3 if tier == "quick" else 40):
            result.append({"name": f"corpus-cut-{name}", "data": data[: rng.randrange(600)], "probe": default})
    for scenario in result:
        if scenario["name"].startswith(("random", "cut", "flip")):
            # no line breaks within the values of the report
            scenario["data"] = scenario["data"].replace(b"\n", b"\x0b")
    result.append({"name": "negative-size", "probe": default,
                   "data": b"070707" + b"000001" * 7 + b"00000000001" + b"000000" + b"-0000000114"})
    for fmt in FORMATS:
        entries = [random_entry(rng, [b"a"]), random_entry(rng, [b"caf\xc3\xa9"]), random_entry(rng, [b"b"])]
        result.append({"name": f"non-ascii-{fmt}", "data": encode(fmt, entries), "probe": default})
        result.append({"name": f"empty-{fmt}", "data": encode(fmt, [dict(entries[0], path=b"TRAILER!!!")]), "probe": default})
    for fmt, position in (("odc", 59), ("odc", 65), ("newc", 54), ("newc", 94), ("crc", 6)):
        data = bytearray(encode(fmt, [random_entry(rng, [b"a"]), random_entry(rng, [b"b"])]))
        data[position] = 0x2D
        result.append({"name": f"minus-{fmt}-{position}", "data": bytes(data), "probe": default})
    return result


def _probes(scenario):
    probes = []
    for path in scenario["probe"]:
        for op in ("exists", "get", "prefix"):
            probes.append({"op": op, "path": list(path)})
    return probes


def observe(scenario):
    from dtformats import cpio

    def finish(archive, out):
        out.append({"k": "!format", "fmt": archive.file_format})
        for entry in archive.GetFileEntries():
            entry.seek(0, os.SEEK_SET)
            out.append({
                "k": "!entry", "path": vt.text(entry.path), "ino": vt.nat(entry.inode_number),
                "mode": vt.nat(entry.mode), "uid": vt.nat(entry.user_identifier),
                "gid": vt.nat(entry.group_identifier), "mtime": vt.nat(entry.modification_time),
                "doff": vt.nat(entry.data_offset), "dsize": vt.nat(entry.data_size),
                "data": vt.data(entry.read()),
            })
        for probe in _probes(scenario):
            path_string = bytes(probe["path"]).decode("ascii")
            if probe["op"] == "exists":
                value = archive.FileEntryExistsByPath(path_string)
                value = {False: 0, True: 1}.get(value, -1)
            elif probe["op"] == "get":
                entry = archive.GetFileEntryByPath(path_string)
                value = []
                if entry is not None:
                    value = [vt.nat(entry.inode_number), vt.nat(entry.data_offset)]
            else:
                value = [vt.text(e.path) for e in archive.GetFileEntries(path_prefix=path_string)]
            out.append({"k": "!" + probe["op"], "v": value})
        out.append({"k": "!size", "v": min(archive.size, 1073741823)})

    return dbg.run_file(lambda debug, writer: cpio.CPIOArchiveFile(debug=debug, output_writer=writer), scenario["data"], finish=finish)


def trace_input(scenario, _part):
    return {"src": list(scenario["data"]), "probes": _probes(scenario)}
