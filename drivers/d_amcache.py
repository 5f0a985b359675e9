"""Conformance of the AMCache file reader with spec/AmCache.tla."""

import os
import struct

import dbg
import gen
import vt

SPEC = "AmCache"
MODELS = {
    "quick": [("AmCacheMC", "AmCacheMC.cfg")],
    "thorough": [("AmCacheMC", "AmCacheMC_thorough.cfg")],
}
ROOTS = ("{11517b7c-e79d-4e20-961b-75a811715add}", "{356c48f6-2fee-e7ef-2a64-39f59ec3be22}")
VALUE_NAMES = ("", "0", "1", "2", "3", "5", "6", "7", "9", "a", "b", "c", "d", "f", "10", "11", "12", "15", "17", "100", "101", "Files", "ProgramId", "ProgramInstanceId", "D", "F", "caf\xe9", "\u0416x", "LongerValueNameThanOthersHave")
TEXTS = ("", "a", "Program Files", "c:\\x\\y.exe", "caf\xe9", "\u0416", "it's", 'a "b"', "\U0001f600", "0000abc")
UNSET = 0xFFFFFFFF


def encode(name):
    try:
        return name.encode("latin-1"), 1
    except UnicodeEncodeError:
        return name.encode("utf-16-le"), 0


class Hive:
    """A Windows Registry file of a tree of keys."""

    def __init__(self, listing):
        self.cells, self.listing = bytearray(), listing

    def cell(self, data):
        size = (len(data) + 11) & ~7
        offset = len(self.cells) + 32
        self.cells += (struct.pack("<i", -size) + data).ljust(size, b"\0")
        return offset

    def patch(self, offset, position, value):
        struct.pack_into("<I", self.cells, offset - 28 + position, value)

    def value(self, one):
        name, kind, data = one
        raw, flags = encode(name)
        size = len(data)
        if not data:
            size, place = 0x80000000, 0
        elif size == 4:
            size, place = 0x80000004, struct.unpack("<I", data)[0]
        else:
            place = self.cell(data)
        return self.cell(struct.pack("<2sHIIIHH", b"vk", len(raw), size, place, kind, flags, 0) + raw)

    def key(self, node, parent=0, root=False):
        raw, flags = encode(node["n"])
        offset = self.cell(struct.pack("<2sHQ15I2H", b"nk", (0x20 if flags else 0) | (0x0C if root else 0), 0x01D0 << 48, 0, parent, len(node["k"]), 0,
                                       UNSET, UNSET, len(node["v"]), UNSET, UNSET, UNSET, 64, 0, 64, 64, 0, len(raw), 0) + raw)
        if node["v"]:
            values = [self.value(one) for one in node["v"]]
            self.patch(offset, 40, self.cell(struct.pack(f"<{len(values)}I", *values)))
        if node["k"]:
            keys = [(self.key(one, offset), one["n"]) for one in node["k"]]
            self.patch(offset, 28, self.list(keys, self.listing))
        return offset

    def list(self, keys, kind):
        if kind == "ri":
            half = max(1, len(keys) // 2)
            lists = [self.list(part, "lf") for part in (keys[:half], keys[half:]) if part]
            return self.cell(struct.pack("<2sH", b"ri", len(lists)) + b"".join(struct.pack("<I", one) for one in lists))
        body = b""
        for offset, name in keys:
            body += struct.pack("<I", offset)
            if kind == "lf":
                body += name.encode("utf-8")[:4].ljust(4, b"\0")
            elif kind == "lh":
                number = 0
                for char in name:
                    number = (number * 37 + ord(char.upper())) & 0xFFFFFFFF
                body += struct.pack("<I", number)
        return self.cell(struct.pack("<2sH", kind.encode(), len(keys)) + body)

    def file(self, root):
        offset = self.key(root, root=True)
        size = (len(self.cells) + 32 + 4095) & ~4095
        free = size - 32 - len(self.cells)
        if free:
            self.cells += struct.pack("<i", free).ljust(free, b"\0")
        head = struct.pack("<4sIIQIIIIIII", b"regf", 1, 1, 0, 1, 5, 0, 1, offset, size, 1).ljust(508, b"\0")
        check = 0
        for (word,) in struct.iter_unpack("<I", head):
            check ^= word
        return (head + struct.pack("<I", check)).ljust(4096, b"\0") + struct.pack("<4sIIQQI", b"hbin", 0, size, 0, 0, 0) + bytes(self.cells)


def wide(text):
    return text.encode("utf-16-le")


def value(rng, wrong):
    """A value with data of its type, of those that the type can have."""
    name = rng.choice(VALUE_NAMES)
    kind = rng.choice((0, 1, 1, 1, 2, 3, 3, 4, 4, 4, 5, 6, 7, 7, 7, 8, 11, 11, 11, 0x12))
    if kind in (1, 2, 6):
        data = wide(rng.choice(TEXTS) + rng.choice(("\0", "\0", "", "\0more\0")))
    elif kind == 7:
        data = b"".join(wide(one + "\0") for one in rng.choices([one for one in TEXTS if one], k=rng.choice((0, 1, 2, 3)))) + b"\0\0"
    elif kind in (4, 5):
        data = struct.pack("<I", gen.u(rng, 32)) + (b"more" if rng.random() < 0.1 else b"")
    elif kind == 11:
        data = struct.pack("<Q", rng.choice((0, 1, 130000000000000000, 2**63 - 1, 1400000000, 253402300799, 253402300800, gen.u(rng, 32), 132223104000000000 + gen.u(rng, 32), 2**64 - 1 if name not in ("11", "12", "17") else 5)))
    else:
        data = rng.choice((b"", gen.blob(rng, 4), gen.blob(rng, 5), gen.blob(rng, 40), b"it's", b'"\\\r\n'))
    if wrong and rng.random() < 0.2:
        data = data[: rng.choice((0, 0, 2))] if kind in (4, 5, 7, 11) else data
        data = b"" if kind == 7 else data
    return (name, kind, data)


def reference(rng):
    roll = rng.random()
    if roll < 0.6:
        return f"{rng.choice((1, 2, 16, 256, 4096, 0x1230, 65535)):x}0000{rng.choice((0, 5, 0xdc, 0x4b8b, 0x10000, 0x169dd, 0x100000005, 2**48 - 1)):x}"
    name = rng.choice(("019c", "a0000", "0000a", "500005", "5000000004c57", "123450000abc", "zz0000zz", "10000x", "1000010000dc", "1_0000_1", "caf\xe90000", "100001234567890abc", " 100001", "0"))
    return name.upper() if rng.random() < 0.3 else name


def child(name, keys=(), values=()):
    return {"n": name, "v": list(values), "k": list(keys)}


def unique(keys):
    """Keys of names that differ in more than case."""
    return list({one["n"].lower(): one for one in keys}.values())


def tree(rng):
    wrong = rng.random() < 0.3
    cased = rng.choice((str, str, str, str.upper, str.lower))

    def leaf(name):
        # keys below it are not described
        return child(name, [child("d", [], [("f", 1, b"")])] if rng.random() < 0.1 else [], [value(rng, wrong) for _ in range(rng.choice((0, 1, 2, 3, 5)))])

    def leaves(names):
        return unique(leaf(names()) for _ in range(rng.choice((0, 1, 2, 3))))

    def name():
        return rng.choice(("0000f519feec486de87ed73cb92d3cac802400000000", "key", "a b", "\u0416", "caf\xe9", "100001605a", f"k{rng.randrange(99)}"))

    sections = []
    if rng.random() < 0.8:
        sections.append(child(cased("File"), unique(child(rng.choice(("vol", "{uuid}", f"v{rng.randrange(9)}")), leaves(lambda: reference(rng)), [value(rng, True)] if rng.random() < 0.2 else []) for _ in range(rng.choice((0, 1, 2, 3))))))
    for section in ("Programs", "InventoryApplication", "InventoryApplicationFile", "Device", "Generic"):
        if rng.random() < 0.6:
            sections.append(child(cased(section), leaves(name), [value(rng, True)] if rng.random() < 0.1 else []))
    rng.shuffle(sections)
    tops = [child(cased("Root") if rng.random() < 0.95 else "Root2", sections)]
    if rng.random() < 0.2:
        tops.insert(rng.randrange(2), child("File", [child("vol", leaves(name))]))
    root = rng.choice(ROOTS) if rng.random() < 0.93 else rng.choice(("CMI-CreateHive{2A7FB991-7BBE-4F9D-B91E-7CB51D4737F5}", ROOTS[0][1:-1], ROOTS[0] + "x"))
    return child(cased(root), tops, [value(rng, True)] if rng.random() < 0.1 else [])


def scenarios(rng, tier, dumped):
    result = []
    step = max(1, len(dumped) // 120) if tier == "quick" else max(1, len(dumped) // 4000)

    def plain(key):
        return child("".join(map(chr, key["n"])), [plain(one) for one in key["k"]], [("".join(map(chr, one["n"])), one["t"], bytes(one["d"])) for one in key["v"]])

    for number, (_, scenario) in enumerate(dumped):
        if number % step == 0:
            result.append({"name": f"model-{number}", "files": [{"ok": one["ok"], "root": plain(one["root"]), "listing": "lf", "harm": 0} for one in scenario["src"]["files"]]})
    for number in range(350 if tier == "quick" else 8000):
        files = [{"ok": rng.random() < 0.93, "root": tree(rng), "listing": rng.choice(("lf", "lh", "li", "ri")), "harm": rng.randrange(3)} for _ in range(rng.choice((1, 1, 2)))]
        result.append({"name": f"random-{number}", "files": files})
    return result


def content(file):
    data = Hive(file["listing"]).file(file["root"])
    if file["ok"]:
        return data
    # no signature, nothing, or no root key
    return (b"regg" + data[4:], b"", data[:4132] + bytes(16) + data[4148:])[file["harm"]]


def observe(scenario):
    from dtformats import amcache

    def body(debug, writer, out, directory):
        reader = amcache.WindowsAMCacheFile(debug=debug, output_writer=writer)
        path = os.path.join(directory, "Amcache.hve")
        for file in scenario["files"]:
            with open(path, "wb") as file_object:
                file_object.write(content(file))
            result, _ = vt.call(lambda: reader.Open(path))
            out.append({"k": "!end", "res": result})
            if result == "ok":
                reader.Close()

    return dbg.run_dir(body, 20.0)


def trace_input(scenario, _part):
    def spec(key):
        return {"n": vt.text(key["n"]), "v": [{"n": vt.text(name), "t": kind, "d": list(data)} for name, kind, data in key["v"]], "k": [spec(one) for one in key["k"]]}

    return {"src": {"files": [{"ok": file["ok"], "root": spec(file["root"])} for file in scenario["files"]]}}
