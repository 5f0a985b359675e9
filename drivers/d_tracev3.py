"""Conformance of the tracev3 reader with spec/TraceV3.tla."""

import contextlib
import io
import os
import shutil
import struct

import dbg
import gen
import vt

import d_logformat

SPEC = "TraceV3"
MODELS = {
    "quick": [("TraceV3MC", "TraceV3MC.cfg")],
    "thorough": [("TraceV3MC", "TraceV3MC_thorough.cfg")],
}
FLAGS = {2: (1, 16, 32, 256, 512), 3: (), 4: (1, 32, 256, 512, 1024, 2048, 4096), 6: (1, 32, 256, 512, 1024, 2048, 32768), 7: ()}
LEVELS = {2: (1, 3), 3: (0,), 4: (0, 1, 2, 16, 17), 6: (64, 65, 66, 128, 129, 130, 192, 193, 194), 7: (0,)}
LAYOUTS = ("archive", "persist", "system", "split")
PRIVATE = (1, 33, 37, 49, 53, 65, 69)


def pad8(data):
    return data + bytes(-len(data) % 8)


def chunk(tag, data, size=None):
    return struct.pack("<IIQ", tag, 0x11, len(data) if size is None else size) + data


class Maker:
    """Makes a tracev3 file and the files next to it."""

    def __init__(self, rng):
        self.rng = rng
        self.ids = [gen.blob(rng, 16) for _ in range(rng.choice((2, 3, 4)))]
        self.boot = gen.blob(rng, 16)
        self.texts, self.dscs, self.strings = {}, {}, {}
        self.before = {}
        for identifier in self.ids:
            if rng.random() < 0.85:
                self.texts[identifier] = self.uuidtext(identifier)
            if rng.random() < 0.6:
                self.dscs[identifier] = self.dsc(identifier)
        self.procs = []
        self.over = {}

    def formats(self):
        rng = self.rng
        result = []
        for _ in range(rng.choice((1, 2, 3))):
            pieces, values = [], []
            for _ in range(rng.choice((0, 1, 1, 2))):
                text, data = d_logformat.operator(rng)
                pieces += [rng.choice(("", "a ", "x=", "%%", "é")), text]
                values.append(data)
            result.append(("".join(pieces) + rng.choice(("", " end")), values))
        return result

    def block(self, at):
        block, strings = b"", []
        for text, values in self.formats():
            strings.append((at + len(block), text, values))
            block += text.encode() + b"\0"
        return block, strings

    def uuidtext(self, identifier):
        rng = self.rng
        at, blocks, entries, strings = rng.choice((0, 0, 0x100, 0x7FFFFF00)), b"", [], []
        for _ in range(rng.choice((1, 2))):
            block, found = self.block(at)
            entries.append((at, len(block)))
            strings += found
            blocks += block
            at += len(block) + rng.choice((0, 0, 16))
        self.strings[identifier, "text"] = strings + [(at + 5, "", [])] * (rng.random() < 0.3)
        data = b"\x99\x88\x77\x66" + struct.pack("<III", 2, 1, len(entries)) + b"".join(struct.pack("<II", *entry) for entry in entries)
        return data + blocks + rng.choice(("/bin/é", "/usr/libexec/x", "")).encode() + b"\0"

    def dsc(self, identifier):
        rng = self.rng
        version, images = rng.choice((1, 2)), rng.choice((1, 2))
        count = rng.choice((1, 2))
        size = 16 + count * (16 if version == 1 else 24) + images * (28 if version == 1 else 32)
        at, blocks, ranges, strings = rng.choice((0, 0x1000, 0x7FFFFFE0)), b"", [], []
        for _ in range(count):
            block, found = self.block(at)
            ranges.append((at, size + len(blocks), len(block), rng.randrange(images)))
            strings += found
            blocks += block
            at += len(block) + rng.choice((0, 8))
        self.strings[identifier, "dsc"] = strings + [(at + 3, "", [])] * (rng.random() < 0.3)
        data = b"hcsd" + struct.pack("<HHII", version, 0, count, images)
        for begin, offset, length, image in ranges:
            data += struct.pack("<IIII", image, begin & 0xFFFFFFFF, offset, length) if version == 1 else struct.pack("<QIIQ", begin, offset, length, image)
        paths = b""
        for number in range(images):
            data += struct.pack("<I" if version == 1 else "<Q", number * 0x100) + struct.pack("<I", 0x100) + gen.blob(rng, 16) + struct.pack("<I", size + len(blocks) + len(paths))
            paths += rng.choice(("/lib/a", "/System/ü", "")).encode() + b"\0"
        return data + blocks + paths

    def sync(self):
        rng = self.rng

        def time():
            return rng.choice((0, 1600000000123456789, -1, -1500000000, rng.randrange(1 << 62)))

        files = []
        if rng.random() < 0.3:
            files.append(self.record(None, time()) + self.record(gen.blob(rng, 16), time()))
        if rng.random() < 0.8:
            data = b""
            if rng.random() < 0.3:
                data += self.record(gen.blob(rng, 16), time()) + self.record(None, time())
            data += self.record(self.boot, time())
            for _ in range(rng.choice((0, 1, 2, 3))):
                data += self.record(None, time())
            if rng.random() < 0.4:
                data += self.record(gen.blob(rng, 16), time()) + self.record(None, time())
            files.append(data)
        if rng.random() < 0.2:
            files.append(self.record(self.boot, time()) + self.record(None, time()))
        if files and rng.random() < 0.07:
            files[rng.randrange(len(files))] += rng.choice((b"Ts", b"xx", bytes(40)))
        return files

    def timebase(self):
        rng = self.rng
        return rng.choice(((1, 1), (125, 3), (1, 1), (125, 3), (1000000000, 24000000), (gen.u(rng, 32), gen.u(rng, 32)), (0, 1), (1, 3), (7, 0) if rng.random() < 0.2 else (2, 1)))

    def record(self, boot, time):
        rng = self.rng
        end = struct.pack("<qiI", time, 60, 0)
        if boot:
            return b"\xb0\xbb" + struct.pack("<HI", 48, 0) + boot + struct.pack("<II", *self.timebase()) + end
        return b"Ts" + struct.pack("<HIQ", 32, 0, rng.choice((0, 100, 1000, 1000, 5000, 1 << 40, rng.randrange(1 << 20)))) + end

    def header(self):
        rng = self.rng
        numerator, denominator = self.timebase()
        data = struct.pack("<IIQiIIiII", numerator, denominator, 5, rng.choice((0, 1600000000, -1, 1, -(1 << 31))), 0, 0, rng.choice((60, -60)), 0, rng.choice((1, 1, 3, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2)))
        data += struct.pack("<IIQ", 0x6100, 8, 7)
        data += struct.pack("<IIII", 0x6101, 56, 1, 2) + b"21A559".ljust(16, b"\0") + "Maç1,1".encode().ljust(32, b"\0")
        data += struct.pack("<II", 0x6102, 24) + self.boot + struct.pack("<II", 88, 0)
        data += struct.pack("<II", 0x6103, 48) + b"/var/db/timezone/zoneinfo/UTC".ljust(48, b"\0")
        extra = gen.blob(rng, rng.choice((0, 0, 0, 0, 3, 8)))
        return pad8(chunk(0x1000, data + extra))

    def catalog(self):
        rng = self.rng
        words = [rng.choice(("com.apple.x", "général", "", "cat", "日本")) for _ in range(rng.choice((0, 2, 3, 4)))]
        offsets, block = [], b""
        for word in words:
            offsets.append(len(block))
            block += word.encode() + b"\0"
        self.procs, body = [], b""
        for number in range(rng.choice((1, 1, 2, 3))):
            main, shared = (rng.choice((*range(len(self.ids)), -1 if rng.random() < 0.4 else 0)) for _ in range(2))
            if rng.random() < 0.03:
                main = len(self.ids)
            key = (rng.choice((1, 0, 1 << 40)), 10 + (number if rng.random() < 0.97 else 0))
            uuids = []
            for _ in range(rng.choice((0, 1, 2, 3))):
                uuids.append((rng.choice((16, 0x1000, 0, 0xFFFFFFFF)), rng.choice((*range(len(self.ids)), len(self.ids) if rng.random() < 0.2 else 0)), rng.choice((0, 0x1000, 0x1010, 0x2000, 0xFFFFF000)), rng.choice((0, 0, 1, 0xFFFF))))
            subs = [(rng.choice((1, 2, 3)), rng.choice(offsets + [1]), rng.choice(offsets + [0])) for _ in range(rng.choice((0, 1, 2, 3)))]
            entry = struct.pack("<HHhhQIIIIII", number, 0, main, shared, *key, rng.choice((0, 1, 77, 0xFFFFFFFF)), 501, 0, len(uuids), 0)
            entry += b"".join(struct.pack("<IIHIH", size, 0, index, lower, upper) for size, index, lower, upper in uuids)
            entry += struct.pack("<II", len(subs), 0) + b"".join(struct.pack("<HHH", *sub) for sub in subs)
            body += pad8(entry)
            self.procs.append({"key": key, "main": main, "dsc": shared, "uuids": uuids, "subs": subs})
        sets = b""
        count = rng.choice((0, 0, 1, 2))
        for _ in range(count):
            indexes, offsets2 = rng.choice((0, 1, 3)), rng.choice((0, 2))
            sets += pad8(struct.pack("<QQIII", 1, 2, 3, 0x100, indexes) + bytes(2 * indexes) + struct.pack("<I", offsets2) + bytes(2 * offsets2))
        size = 16 * len(self.ids)
        data = struct.pack("<HHHHH6xQ", size, size + len(block), len(self.procs), size + len(block) + len(body), count, 9) + b"".join(self.ids) + block + body + sets
        return pad8(chunk(0x600B, data))

    def items(self, formats, private_base=0):
        """Data items, public data and private data for the values."""
        rng = self.rng
        items, public, private = b"", b"", b""
        count = 0
        for value in formats:
            if rng.random() < (0.4 if count == 0 else 0.15):
                items += bytes([rng.choice((16, 18)), 4]) + struct.pack("<I", rng.choice((3, 0, 1)))
                count += 1
            roll = rng.random()
            if roll < 0.06:
                kind = rng.choice(PRIVATE)
                items += bytes([kind, 4]) + struct.pack("<HH", 0x8000 if kind in (33, 65) else 0, rng.choice((0, 0, 5)))
            elif roll < 0.1:
                items += bytes([rng.choice((114, 1, 37, 49, 5 if rng.random() < 0.15 else 53)), 2]) + b"ab"
            elif len(value) in (1, 2, 4, 8) and roll < 0.75:
                items += bytes([rng.choice((0, 2)), len(value)]) + value
            elif roll < 0.85:
                items += bytes([rng.choice((33, 65)), 4]) + struct.pack("<HH", private_base + len(private), len(value))
                private += value
            else:
                items += bytes([rng.choice((32, 34, 64, 66, 48, 50, 242)), 4]) + struct.pack("<HH", len(public), len(value) if rng.random() < 0.95 else 500)
                public += value
            count += 1
        if rng.random() < 0.05:
            items += bytes([0, 4]) + struct.pack("<I", 7)
            count += 1
        return count, items, public, private

    def tracepoint(self, proc, private, virtual):
        """Returns a tracepoint and the private data."""
        rng = self.rng
        kind = rng.choice((4, 4, 4, 6, 6, 2, 3, 7, 0))
        if kind == 0:
            return pad8(struct.pack("<BBHIQIHH", 0, 0, 0, 0, 0, 0, 0, 5) + gen.blob(rng, 5)), private
        level = rng.choice(LEVELS[kind]) if rng.random() < 0.99 else rng.randrange(256)
        where = 0 if kind == 7 else 2 if kind == 3 else rng.choice((2, 2, 4, 8, 8, 10, 12, 12))
        flags = where
        if kind == 7 and rng.random() < 0.03:
            flags = 1
        for flag in FLAGS[kind]:
            if rng.random() < (0.15 if flag in (2048, 4096) else 0.35):
                flags |= flag
        if rng.random() < 0.01:
            flags |= 64
        # where the string is
        large = rng.choice((0, 0, 1, 2, 3)) if flags & 32 else 0
        shared = rng.choice((0, 0, 2 * large, 1, 3)) if where == 12 else 0
        identifier, lower, upper = None, rng.choice((0, 0x1000, 0x100F, 0x1010, 0xFFFFF800, gen.u(rng, 32))), 0
        if proc:
            if where == 2 and proc["main"] >= 0:
                identifier = self.ids[proc["main"] % len(self.ids)]
            elif where in (4, 12) and proc["dsc"] >= 0:
                identifier = self.ids[proc["dsc"] % len(self.ids)]
            elif where == 8 and proc["uuids"] and rng.random() < 0.85:
                size, index, lower, upper = rng.choice(proc["uuids"])
                identifier = self.ids[index % len(self.ids)]
                lower = min(0xFFFFFFFF, max(0, lower + rng.choice((0, 0, 1, size - 1, size, -1))))
        if where == 10:
            identifier = rng.choice(self.ids)
        strings = self.strings.get((identifier, "dsc" if where in (4, 12) else "text"), [])
        reference, _, values = rng.choice(strings or [(gen.u(rng, 32), "", [])])
        reference &= 0xFFFFFFFF
        if rng.random() < 0.1:
            reference |= 0x80000000
        # the same reference in other circumstances
        before = self.before.get((where, identifier))
        if before is not None and rng.random() < 0.35:
            reference = before[0] ^ rng.choice((0, 0x80000000))
            values = before[1]
        self.before[(where, identifier)] = (reference, values)
        name = (rng.choice(strings)[0] if strings and rng.random() < 0.8 else rng.choice((0, 5, 0x80000000, 0x80000005))) & 0xFFFFFFFF
        place = struct.pack("<I", lower)
        if kind != 3:
            place += (struct.pack("<H", large) if flags & 32 else b"") + (struct.pack("<H", upper) if where == 8 else b"")
            place += (identifier if where == 10 else b"") + (struct.pack("<H", shared) if where == 12 else b"")
        number = lambda: struct.pack("<Q", rng.choice((0, 5, 1 << 63 | 77, (1 << 64) - 1, gen.u(rng, 64))))
        if kind == 2:
            data = b"".join(number() for flag in (1, 16, 512) if flags & flag) + (number() if level != 3 else b"") + place
        elif kind == 3:
            data = place
            sizes = b""
            for value in values:
                value = value[:8].ljust(rng.choice((4, 8)), b"\0")[: rng.choice((4, 8))]
                data += value
                sizes += bytes([len(value)])
            if rng.random() < 0.05:
                sizes += b"\3"
            data += sizes + bytes([len(sizes) if rng.random() < 0.93 else rng.choice((0, 9, 200))])
        elif kind == 7:
            data = number() + number() + number()
        else:
            base = len(private)
            count, items, public, secret = self.items(values)
            reference2 = rng.choice((0, 1, 2, 2))
            data = number() if flags & 1 else b""
            if flags & 256:
                data += struct.pack("<HH", (virtual + base) & 0xFFFF, len(secret))
            data += place
            data += struct.pack("<H", rng.choice((1, 2, 3, 4))) if flags & 512 else b""
            data += number() if kind == 6 else b""
            data += bytes([rng.choice((0, 1, 14, 255))]) if flags & 1024 else b""
            data += bytes([reference2]) if flags & 2048 else b""
            if kind == 6 and flags & 0x8000:
                data += struct.pack("<I", name) + (struct.pack("<H", rng.choice((0, 0, 1))) if flags & 32 else b"")
            back = b""
            if flags & 4096:
                frames, images = rng.choice((0, 1, 2)), rng.choice((0, 1, 2))
                back = struct.pack("<HBBBB", 1, 18, images, frames, 0) + gen.blob(rng, 16 * images) + b"".join(struct.pack("<I", gen.u(rng, 32)) for _ in range(frames))
                back += bytes(rng.choice((*range(images), 255, rng.choice((images, 0xF5, 0xFE)) if rng.random() < 0.1 else 255)) for _ in range(frames))
            data += bytes([0, count]) + items + back + public
            private += secret
        time = rng.choice((0, 1, 100, 999, 1000, 4096, 1 << 40, rng.randrange(1 << 48)))
        record = rng.choice((kind,) * 80 + (1, 5))
        head = struct.pack("<BBHIQIHH", record, level, flags, reference, rng.choice((0, 1, gen.u(rng, 64))), time & 0xFFFFFFFF, time >> 32, len(data))
        return pad8(head + data), private

    def firehose(self):
        rng = self.rng
        proc = rng.choice(self.procs) if self.procs else None
        key = proc["key"] if proc and rng.random() < 0.97 else (1, 99)
        points = rng.choice((0, 1, 1, 2, 3))
        # the private data is at the end of a page
        state = rng.getstate()
        virtual = 0
        for _ in range(2):
            rng.setstate(state)
            private, body = b"", b""
            for _ in range(points):
                point, private = self.tracepoint(proc, private, virtual)
                body += point
            if not private:
                virtual = 4096
                break
            virtual = 4096 - len(private)
        if rng.random() < 0.04:
            virtual = rng.choice((0, 4096, 4000, 1, 8191))
        public = 32 + len(body)
        if rng.random() < 0.04:
            public += rng.choice((-8, 8, -32, 1))
        data = struct.pack("<QIBBHHHHBBQ", *key, 14, 0, 0, max(0, public), virtual, 0, rng.choice((0, 1, 2, 4)), 0, rng.choice((0, 0, 1000, 500, 1 << 50, (1 << 64) - 1)))
        gap = rng.choice((b"", b"", bytes(8)))
        return chunk(0x6001, data + body + gap + private)

    def oversize(self):
        rng = self.rng
        key = rng.choice(self.procs)["key"] if self.procs else (1, 10)
        strings = rng.choice([*self.strings.values()] or [[(0, "", [])]])
        values = rng.choice(strings)[2] if strings else []
        count, items, public, private = self.items(values)
        data = struct.pack("<QIBBHQIHHBB", *key, 14, 0, 0, 7, rng.choice((1, 2, 2, 257, 258)), len(public), len(private), 0, count) + items + public + private
        return chunk(0x6002, data + rng.choice((b"", b"", b"zz")))

    def statedump(self):
        rng = self.rng
        key = rng.choice(self.procs)["key"] if self.procs and rng.random() < 0.9 else (1, 99)
        name = rng.choice([*d_logformat.ALL_NAMES] + ["location:nope", "internal:i", "internal:s"])
        value = d_logformat.value_for(rng, name, "s")
        library, _, kind = name.partition(":")
        if rng.random() < 0.05:
            library = "\xff"
        encoded = library.encode("latin-1" if rng.random() < 0.5 else "utf8")
        data = struct.pack("<QIBBHQQ", *key, 14, 0, 0, rng.choice((0, 1000, 1 << 45)), rng.choice((0, 1 << 63 | 5, 9))) + gen.blob(rng, 16)
        data += struct.pack("<II", rng.choice((3, 3, 3, 1, 2)), len(value)) + encoded.ljust(64, b"\0") + kind.encode().ljust(64, b"\0")
        data += rng.choice(("title", "é", "", "x" * 64)).encode().ljust(64, b"\0")[:64] + value
        return chunk(0x6003, data + rng.choice((b"", b"", b"zz")))

    def simpledump(self):
        rng = self.rng
        key = rng.choice(self.procs)["key"] if self.procs and rng.random() < 0.9 else (1, 99)
        sub = rng.choice(("", "com.x", "é")).encode() + rng.choice((b"\0", b"", b"\0zz"))
        message = rng.choice(("", "hello", "日本 %d", "{0}")).encode() + rng.choice((b"\0", b"", b"\xff" if rng.random() < 0.2 else b""))
        data = struct.pack("<QIBBHQQQ", *key, 14, rng.choice((0, 1, 2, 16, 17, 3, 99, 64, 66, 193)), 0, rng.choice((0, 1000, 1 << 45)), gen.u(rng, 64), gen.u(rng, 64))
        data += gen.blob(rng, 32) + struct.pack("<III", 0, len(sub), len(message)) + sub + message
        return chunk(0x6004, data + rng.choice((b"", b"", b"zz")))

    def chunk_set(self, parts=None):
        import lz4.block

        rng = self.rng
        data = b""
        for part in parts or [rng.choice((self.firehose, self.firehose, self.firehose, self.oversize, self.statedump, self.simpledump)) for _ in range(rng.choice((1, 1, 2, 3)))]:
            piece = part()
            if rng.random() < 0.03:
                piece = chunk(rng.choice((0x6005, 0x1234)), gen.blob(rng, 11))
            data += pad8(piece) if rng.random() < 0.95 else piece
        if rng.random() < 0.35:
            packed = lz4.block.compress(data, store_size=False)
            body = b"bv41" + struct.pack("<II", len(data) + (rng.choice((1, 8, -1)) if rng.random() < 0.05 else 0), len(packed)) + packed
        else:
            body = b"bv4-" + struct.pack("<I", len(data)) + data
        body += b"bv4$" if rng.random() < 0.98 else b"bv4-"
        return pad8(chunk(0x600D, body))

    def file(self):
        rng = self.rng
        data = self.header()
        if rng.random() < 0.93:
            data += self.catalog()
        for _ in range(rng.choice((0, 1, 1, 2))):
            data += self.chunk_set()
            if rng.random() < 0.1:
                data += self.catalog()
        if rng.random() < 0.03:
            data += chunk(rng.choice((0x6001, 0x1000)), b"12345678")
        return data


def unpacked(data):
    """What each compressed chunk set of the file holds."""
    import lz4.block

    result, offset = [], 16
    if len(data) < 16:
        return result
    offset += struct.unpack_from("<Q", data, 8)[0]
    offset += -offset % 8
    while offset + 16 <= len(data):
        tag, _, size = struct.unpack_from("<IIQ", data, offset)
        offset += 16
        if tag == 0x600D and data[offset:offset + 4] == b"bv41" and offset + 12 <= len(data):
            expected, packed = struct.unpack_from("<II", data, offset + 4)
            try:
                value = lz4.block.decompress(data[offset:offset + size][12:12 + packed], uncompressed_size=expected)
                result.append({"at": offset, "ok": True, "data": list(value)})
            except Exception:  # pylint: disable=broad-except
                result.append({"at": offset, "ok": False, "data": []})
        offset += size
        offset += -offset % 8
    return result


def scenario(rng, name, maker, data, sync=None):
    return {"name": name, "data": data, "layout": rng.choice(LAYOUTS), "texts": sorted(maker.texts.items()), "dscs": sorted(maker.dscs.items()),
            "sync": maker.sync() if sync is None else sync, "support": rng.random() < 0.92, "strict": rng.random() < 0.8}


HOT = [(8, 8), (16, 4), (20, 4), (32, 4), (52, 4), (56, 4), (224, 4), (232, 8), (240, 2), (242, 2), (244, 2), (246, 2), (248, 2)]


def hot(data):
    """The places of the sizes and counts of the chunks."""
    places, offset = list(HOT), 224
    while offset + 16 <= len(data):
        tag, _, size = struct.unpack_from("<IIQ", data, offset)
        places += [(offset, 4), (offset + 8, 8)]
        if tag == 0x600D:
            inner = offset + 24
            places += [(offset + 20, 4), (offset + 16, 4)]
            while inner + 16 <= min(len(data), offset + 16 + size):
                kind, _, length = struct.unpack_from("<IIQ", data, inner)
                places += [(inner, 4), (inner + 8, 8)]
                if kind == 0x6001:
                    places += [(inner + 16 + place, width) for place, width in ((8, 4), (16, 2), (18, 2), (24, 8), (48, 1), (49, 1), (50, 2), (52, 4), (70, 2), (72, 4), (76, 2))] * 2
                elif kind == 0x6004:
                    places += [(inner + 16 + 76, 4), (inner + 16 + 80, 4), (inner + 29, 1)]
                elif kind == 0x6003:
                    places += [(inner + 16 + 48, 4), (inner + 16 + 52, 4)]
                elif kind == 0x6002:
                    places += [(inner + 16 + 24, 4), (inner + 16 + 28, 2), (inner + 16 + 30, 2), (inner + 16 + 33, 1)]
                inner += 16 + length
                inner += -inner % 8
        offset += 16 + size
        offset += -offset % 8
    return places


def ended(data):
    """Whether the UUIDs and strings of every catalog end where they should.

    Whether a catalog that has others can be read depends on how much of
    the file is read at once.
    """
    at = data.find(b"\x0b\x60\0\0")
    while at != -1:
        strings, entries = struct.unpack_from("<HH", data.ljust(at + 20, b"\0"), at + 16)
        if strings % 16 or strings < entries and data[at + 40 + entries - 1 : at + 40 + entries] != b"\0":
            return False
        at = data.find(b"\x0b\x60\0\0", at + 1)
    return True


def scenarios(rng, tier, dumped):
    result = []
    inputs = [scen["src"] for _, scen in dumped]
    if tier == "quick" and len(inputs) > 250:
        inputs = rng.sample(inputs, 250)
    for number, src in enumerate(inputs):
        result.append({"name": f"model-{number}", "data": bytes(src["data"]), "layout": LAYOUTS[number % 4], "texts": [(bytes(item["id"]), bytes(item["data"])) for item in src["uuid"]],
                       "dscs": [(bytes(item["id"]), bytes(item["data"])) for item in src["dsc"]], "sync": [bytes(item) for item in src["sync"]], "support": True, "strict": src["strict"]})
    for number in range(700 if tier == "quick" else 9000):
        maker = Maker(rng)
        data = maker.file()
        name = "random"
        if rng.random() < 0.25:
            name, changed = gen.mutate(rng, data, hot(data))
            if ended(changed):
                data = changed
        if rng.random() < 0.05 and maker.texts:
            key = rng.choice(sorted(maker.texts))
            maker.texts[key] = gen.mutate(rng, maker.texts[key], [(0, 4), (4, 4), (12, 4)])[1]
        if rng.random() < 0.05 and maker.dscs:
            key = rng.choice(sorted(maker.dscs))
            maker.dscs[key] = gen.mutate(rng, maker.dscs[key], [(0, 4), (4, 2), (8, 4), (12, 4)])[1]
        result.append(scenario(rng, f"{name}-{number}", maker, data))
    # every decoder by its name, in a log entry and in a state dump
    for name in d_logformat.ALL_NAMES:
        for number in range(2 if tier == "quick" else 12):
            maker = Maker(rng)
            text, value = d_logformat.operator(rng, name)
            identifier = maker.ids[0]
            maker.texts[identifier] = b"\x99\x88\x77\x66" + struct.pack("<III", 2, 1, 1) + struct.pack("<II", 0, len(text.encode()) + 1) + text.encode() + b"\0/bin/x\0"
            data = maker.header() + maker.catalog()
            key = maker.procs[0]["key"]
            item = bytes([0, len(value)]) + value if rng.random() < 0.5 else bytes([50, 4]) + struct.pack("<HH", 0, len(value))
            body = struct.pack("<I", 0) + identifier + bytes([0, 1]) + item + value
            point = pad8(struct.pack("<BBHIQIHH", 4, 1, 10, 0, 1, 5, 0, len(body)) + body)
            firehose = chunk(0x6001, struct.pack("<QIBBHHHHBBQ", *key, 14, 0, 0, 32 + len(point), 4096, 0, 0, 0, 5) + point)
            state = struct.pack("<QIBBHQQ", *key, 14, 0, 0, 3, 4) + bytes(16) + struct.pack("<II", 3, len(value))
            library, _, kind = name.partition(":")
            state += library.encode().ljust(64, b"\0") + kind.encode().ljust(64, b"\0") + b"t".ljust(64, b"\0") + value
            inner = pad8(firehose) + pad8(chunk(0x6003, state))
            data += pad8(chunk(0x600D, b"bv4-" + struct.pack("<I", len(inner)) + inner + b"bv4$"))
            result.append(scenario(rng, f"decoder-{name}-{number}", maker, data))
    base = os.path.join(vt.REPO, "test_data", "unified_logging")
    path = os.path.join(base, "0000000000000030.tracev3")
    if os.path.exists(path):
        with open(path, "rb") as file_object:
            data = file_object.read()
        texts = []
        for folder, rest in (("00", "7EF56328D53A78B59CCCE3E3189F57"), ("22", "0D3C2953A33917B333DD8366AC25F2")):
            with open(os.path.join(base, "uuidtext", folder, rest), "rb") as file_object:
                texts.append((bytes.fromhex(folder + rest), file_object.read()))
        with open(os.path.join(base, "uuidtext", "dsc", "8E21CAB1DCF936B49F85CF860E6F34EC"), "rb") as file_object:
            dscs = [(bytes.fromhex("8E21CAB1DCF936B49F85CF860E6F34EC"), file_object.read())]
        for layout in LAYOUTS:
            result.append({"name": f"corpus-{layout}", "data": data, "layout": layout, "texts": texts, "dscs": dscs, "sync": [], "support": True, "strict": True})
    return result


NONE = [-1]


def number(value):
    return NONE if value is None else [1 if value < 0 else 0] + vt.nat(abs(value))


def string(value):
    return NONE if value is None else vt.text(value)


def identifier(value):
    return NONE if value is None else list(value.bytes)


def event(entry):
    frames = NONE if entry.backtrace_frames is None else [{"id": identifier(frame.image_identifier), "off": number(frame.image_offset)} for frame in entry.backtrace_frames]
    return {"k": "!entry", "activity": number(entry.activity_identifier), "frames": frames, "boot": identifier(entry.boot_identifier), "category": string(entry.category),
            "creator": number(entry.creator_activity_identifier), "message": string(entry.event_message), "type": string(entry.event_type), "format": string(entry.format_string),
            "count": number(entry.loss_count), "endmach": number(entry.loss_end_mach_timestamp), "endtime": number(entry.loss_end_timestamp),
            "startmach": number(entry.loss_start_mach_timestamp), "starttime": number(entry.loss_start_timestamp), "mach": number(entry.mach_timestamp),
            "level": string(entry.message_type), "parent": number(entry.parent_activity_identifier), "pid": number(entry.process_identifier),
            "pimage": identifier(entry.process_image_identifier), "ppath": string(entry.process_image_path), "image": identifier(entry.sender_image_identifier),
            "path": string(entry.sender_image_path), "pc": number(entry.sender_program_counter), "spid": number(entry.signpost_identifier), "spname": string(entry.signpost_name),
            "spscope": string(entry.signpost_scope), "sptype": string(entry.signpost_type), "sub": string(entry.sub_system), "thread": number(entry.thread_identifier),
            "time": number(entry.timestamp), "zone": string(entry.time_zone_name), "trace": number(entry.trace_identifier), "ttl": number(entry.ttl)}


def write(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as file_object:
        file_object.write(data)


def place(scen, directory):
    """Writes the files; returns the path of the tracev3 file."""
    layout = scen["layout"]
    if layout in ("archive", "persist"):
        top = os.path.join(directory, "A.LogArchive")
        path = os.path.join(top, "f.tracev3") if layout == "archive" else os.path.join(top, "Persist", "f.tracev3")
        strings, sync = top, os.path.join(top, "timesync")
    else:
        path = os.path.join(directory, "diagnostics", "Persist", "f.tracev3")
        strings, sync = os.path.join(directory, "uuidtext"), os.path.join(directory, "timesync") if layout == "split" else os.path.join(directory, "diagnostics", "timesync")
    write(path, scen["data"])
    if scen["support"]:
        os.makedirs(os.path.join(strings, "dsc"), exist_ok=True)
        for key, data in scen["texts"]:
            write(os.path.join(strings, key.hex().upper()[:2], key.hex().upper()[2:]), data)
        for key, data in scen["dscs"]:
            write(os.path.join(strings, "dsc", key.hex().upper()), data)
    elif layout in ("archive", "persist"):
        for key, data in scen["texts"]:
            write(os.path.join(strings, key.hex().upper()[:2], key.hex().upper()[2:]), data)
    if scen["sync"]:
        write(os.path.join(sync, "0.txt"), b"no timesync file")
        for index, data in enumerate(scen["sync"]):
            write(os.path.join(sync, f"{index:016x}" + (".timesync" if index % 2 == 0 else ".TimeSync")), data)
    return path


def opened():
    return len(os.listdir("/proc/self/fd"))


def read(reader, path, out):
    reader.Open(path)
    try:
        for entry in reader.ReadLogEntries():
            out.append(event(entry))
    finally:
        reader.Close()


def observe(scen):
    from dtformats import file_system
    from dtformats import unified_logging as ul

    class Sorted(file_system.NativeFileSystemHelper):
        """Lists directories in order."""

        def ListDirectory(self, path):
            yield from sorted(os.listdir(path))

    directory = f"/dev/shm/vt-{os.getpid()}"
    shutil.rmtree(directory, ignore_errors=True)
    os.makedirs(directory)
    try:
        path = place(scen, directory)
        runs = []
        reader = ul.TraceV3File(error_on_warning=scen["strict"], file_system_helper=Sorted())
        files = opened()
        with contextlib.redirect_stdout(io.StringIO()):
            for debug in (False, None, True):
                out = []
                if debug:
                    reader = ul.TraceV3File(debug=True, error_on_warning=scen["strict"], file_system_helper=Sorted(), output_writer=dbg.make_writer())
                result, _ = vt.call(lambda: read(reader, path, out))
                if result in ("hang", "MemoryError"):
                    return {"obs": [], "res": result, "bind": False}
                runs.append((out, result))
        events, result = runs[0]
        # reading again, and reading with a report, give the same entries
        if runs[1] != runs[0]:
            events.append({"k": "!again", "res": runs[1][1]})
            result = runs[1][1] if runs[1][1] not in ("ok", "ParseError") else result
        if runs[2] != runs[0]:
            events.append({"k": "!report", "res": runs[2][1]})
            result = runs[2][1] if runs[2][1] not in ("ok", "ParseError") else result
        if opened() != files:
            events.append({"k": "!left-open", "n": opened() - files})
        return {"obs": events, "res": result, "bind": True}
    finally:
        shutil.rmtree(directory, ignore_errors=True)


def trace_input(scen, _part):
    support = scen["support"]
    return {"src": {"data": list(scen["data"]), "lz": unpacked(scen["data"]), "uuid": [{"id": list(key), "data": list(data)} for key, data in scen["texts"]] if support else [],
                    "dsc": [{"id": list(key), "data": list(data)} for key, data in scen["dscs"]] if support else [], "sync": [list(data) for data in scen["sync"]], "strict": scen["strict"]},
            "weight": 300 + len(scen["data"])}
