"""Conformance of the USN change journal reader with spec/Usn.tla."""

import struct

import dbg
import gen
import vt
from d_recyclebin import TIMES

SPEC = "Usn"
MODELS = {
    "quick": [("UsnMC", "UsnMC.cfg")],
    "thorough": [("UsnMC", "UsnMC_thorough.cfg")],
}


def record(rng, room):
    name = rng.choice(gen.WORDS + ["x" * 60]).encode("utf-16-le")
    size = 60 + len(name)
    size += rng.choice((-size % 8, -size % 8, 0, 8, 200))
    if size > room and rng.random() < 0.9:
        return None
    name_size = len(name)
    if rng.random() < 0.02:
        name_size += rng.choice((1, 2, -1))
    return struct.pack("<IHHQQQQIIIIHH", size if rng.random() < 0.98 else rng.choice((0, 59, 1 << 31, size + 8)), 2 if rng.random() < 0.99 else 3, 0 if rng.random() < 0.99 else 1, *[gen.u(rng, 64) for _ in range(3)], rng.choice(TIMES), *[gen.u(rng, 32) for _ in range(4)], max(0, name_size), 60) + name + bytes(size - 60 - len(name))


def scenarios(rng, tier, dumped):
    result = gen.model_inputs(dumped, 60, tier)
    for number in range(110 if tier == "quick" else 1200):
        data = bytearray()
        blocks = rng.choice((1, 1, 2, 3))
        for block in range(blocks):
            body = bytearray()
            limit = rng.choice((4096, 4096, rng.randrange(4096), 300, 0))
            if limit == 4096:
                # one long record keeps the number of records small
                filler = rng.randrange(2000, 3600) & ~7
                body += struct.pack("<IHHQQQQIIIIHH", filler, 2, 0, 1, 2, 3, 0, 0, 0, 0, 0, 4, 60) + b"a\0b\0" + bytes(filler - 64)
            while len(body) < limit:
                entry = record(rng, limit - len(body))
                if entry is None:
                    break
                body += entry
            if block + 1 < blocks:
                body += bytes(max(0, 4096 - len(body)))
            elif rng.random() < 0.5:
                body += bytes(rng.choice((1, 59, 60, 61, 100, max(0, 4096 - len(body)))))
            data += body
        kind = "random"
        if rng.random() < 0.15:
            kind, data = gen.mutate(rng, bytes(data))
        result.append({"name": f"{kind}-{number}", "data": bytes(data)})
    return result


def finish(reader, out):
    for _ in range(2):
        # reading the records again gives the same records
        records = []
        for item in reader.ReadRecords():
            if _ == 0:
                out.append({"k": "!record", "ref": vt.nat(item.file_reference), "parent": vt.nat(item.parent_file_reference), "usn": vt.nat(item.sequence_number),
                            "time": vt.nat(item.timestamp), "reason": vt.nat(item.update_reason_flags), "source": vt.nat(item.update_source_flags),
                            "attr": vt.nat(item.file_attribute_flags), "name": vt.text(item.name)})
            records.append(item)
        if out.writer:
            break
        if _ == 0:
            first = records
        elif [(a.sequence_number, a.name) for a in first] != [(a.sequence_number, a.name) for a in records]:
            out.append({"k": "!reread differs"})


def observe(scenario):
    from dtformats import usn_journal

    return dbg.run_file(lambda debug, writer: usn_journal.USNRecords(debug=debug, output_writer=writer), scenario["data"], finish=finish)


def trace_input(scenario, _part):
    return {"src": list(scenario["data"])}
