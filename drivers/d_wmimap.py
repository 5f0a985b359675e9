"""Conformance of WMI mapping files and index pages with spec/WmiMap.tla."""

import struct

import dbg
import gen
import vt

SPEC = "WmiMap"
MODELS = {
    "quick": [("WmiMapMC", "WmiMapMC.cfg")],
    "thorough": [("WmiMapMC", "WmiMapMC_thorough.cfg")],
}
PAGE = 8192


def u16(*values):
    return struct.pack(f"<{len(values)}H", *[value & 0xFFFF for value in values])


def u32(*values):
    return struct.pack(f"<{len(values)}I", *[value & 0xFFFFFFFF for value in values])


def section(v2, sequence, table, unknown, pages, mark):
    data = u32(0xABCD, sequence) + (u32(mark + 1, mark) if v2 else b"") + u32(pages) + u32(len(table))
    for number in table:
        data += u32(number) + (u32(number + 7, 1, 0, 0xFFFFFFFF, number) if v2 else b"")
    return data + u32(len(unknown), *unknown) + u32(0xDCBA)


def mapping(rng, v2=None, table=None, index=None, sequence=None):
    """A mapping file with one or two tables."""
    v2 = rng.random() < 0.5 if v2 is None else v2
    sequence = rng.choice((0, 1, 2, 7, 8, 0xFFFFFFFF)) if sequence is None else sequence

    def numbers():
        count = rng.choice((0, 1, 2, 3, 3, 6))
        order = list(range(count + 3))
        rng.shuffle(order)
        return [rng.choice((number, number, number, 0xFFFFFFFF, gen.u(rng, 32))) for number in order[:count]]

    first = numbers() if table is None else table
    data = section(v2, sequence, first, numbers(), len(first) + rng.choice((0, 2)), rng.choice((0, 9, 0x7FFFFFFF)))
    if v2 or index is not None or rng.random() < 0.5:
        second = numbers() if index is None else index
        data += section(v2, sequence + rng.choice((0, 0, 1)), second, numbers(), len(second) + rng.choice((0, 2)), rng.choice((0, 9)))
    if table is None and rng.random() < 0.15:
        data += gen.blob(rng, rng.choice((1, 4, 12, 30)))
    return data


def page(rng, keys, sub_pages=(), number=0, values=None, kind=0xACCC, root=0):
    """An index page: keys are lists of segments."""
    values = list(values or ())
    indexes = []
    for key in keys:
        entry = []
        for segment in key:
            if isinstance(segment, str):
                if segment not in values:
                    values.append(segment)
                segment = values.index(segment)
            entry.append(segment)
        indexes.append(entry)
    body = u32(len(keys), *[rng.choice((0, 0, 5, 0xFFFFFFFF)) for _ in keys])
    subs = list(sub_pages)
    subs += [rng.choice((0, 0, 0xFFFFFFFF)) for _ in range(len(keys) + 1 - len(subs))]
    body += u32(*subs[: len(keys) + 1])
    key_data, offsets = b"", {}
    order = list(range(len(keys)))
    if rng.random() < 0.4:
        rng.shuffle(order)
    if rng.random() < 0.2:
        key_data += u16(7)
    for index in order:
        offsets[index] = len(key_data) // 2
        key_data += u16(len(indexes[index]), *indexes[index])
    body += u16(*[offsets[index] for index in range(len(keys))]) + u16(len(key_data) // 2) + key_data
    value_data, offsets = b"", {}
    order = list(range(len(values)))
    if rng.random() < 0.4:
        rng.shuffle(order)
    if rng.random() < 0.2:
        value_data += b"zz\0"
    for index in order:
        offsets[index] = len(value_data)
        value_data += values[index].encode("latin-1") + b"\0"
    body += u16(len(values), *[offsets[index] for index in range(len(values))]) + u16(len(value_data)) + value_data
    body += gen.blob(rng, rng.choice((0, 0, 0, 5)))
    return u32(kind, number, rng.choice((0, 1, 0xFFFFFFFF)), root) + body


SEGMENTS = ("NS_A", "CD_1.2.3.4", "ns_a", "", "CI_B", "IL_C.0.1.20", "x y", "~", "\\")


def pages(rng):
    """Pages (without the 0 bytes at their end) and the size of the file."""
    result = []
    for number in range(rng.choice((1, 1, 2, 3))):
        roll = rng.random()
        keys = [[rng.choice(SEGMENTS) for _ in range(rng.choice((0, 1, 2, 3)))] for _ in range(rng.choice((0, 1, 2, 4)))]
        subs = [rng.choice((0, 1, 2, 9, 0xFFFFFFFF, gen.u(rng, 32))) for _ in range(rng.choice((0, 1, 5)))]
        values = [rng.choice(SEGMENTS) for _ in range(rng.choice((0, 0, 2)))]
        data = page(rng, keys, subs, number, values, rng.choice((0xACCC,) * 8 + (0xADDD, 0xBADD, 0, 0x1ACCC)), gen.u(rng, 32))
        if roll < 0.05:
            _, data = gen.mutate(rng, data, [(16, 4), (0, 4)])
        elif roll < 0.09 and keys:
            data = page(rng, keys + [[rng.choice((len(SEGMENTS) + 5, 65535))]], subs, number, values)
        elif roll < 0.11:
            data = page(rng, keys, subs, number, ["\xe9"])
        elif roll < 0.15:
            # as large as a page allows, or one more
            data = page(rng, keys, subs, number, values)[:-1]
            room = PAGE - len(page(rng, [], (), 0, ["", ""])) + rng.choice((0, 0, 1, -1))
            data = u32(0xACCC, number, 0, 0) + u32(0, 0) + u16(0, 1, 0, PAGE - 32 + rng.choice((0, 0, 1, -1))) + b"y" * 20
        data = data[:PAGE]
        result.append(data.rstrip(b"\0") if len(data) < PAGE or rng.random() < 0.5 else data)
    size = PAGE * len(result)
    if rng.random() < 0.04:
        size -= rng.choice((1, 100, PAGE - 20))
        if len(result[-1]) > size % PAGE:
            size = PAGE * len(result)
    return result, size


def scenarios(rng, tier, dumped):
    result = []
    for number, (_, scenario) in enumerate(dumped):
        if tier == "quick" and len(dumped) > 300 and rng.random() > 300 / len(dumped):
            continue
        source = scenario["src"]
        if source["kind"] == "map":
            result.append({"name": f"model-{number}", "kind": "map", "data": bytes(source["data"]), "get": [list(one) for one in source["get"]]})
        else:
            result.append({"name": f"model-{number}", "kind": "index", "pages": [bytes(one) for one in source["pages"]], "size": source["size"], "get": [list(one) for one in source["get"]]})
    for number in range(300 if tier == "quick" else 6000):
        data = mapping(rng)
        roll = rng.random()
        kind = "map"
        if roll < 0.35:
            kind, data = gen.mutate(rng, data, [(0, 4), (4, 4), (8, 4), (12, 4), (16, 4), (20, 4)])
        get = [vt.nat(value) for value in (0, 1, 2, 3, rng.choice((4, 5, 6)), rng.choice((0xFFFFFFFF, 0x80000000, 65536)))]
        result.append({"name": f"map-{number}-{kind}", "kind": "map", "data": data, "get": get})
    for number in range(110 if tier == "quick" else 2500):
        data, size = pages(rng)
        get = [vt.nat(value) for value in (0, len(data) - 1, len(data), rng.choice((0xFFFFFFFF, 0x80000, 65536, 1)))]
        rng.shuffle(get)
        result.append({"name": f"index-{number}", "kind": "index", "pages": data, "size": size, "get": get[: rng.choice((1, 2, 3))]})
    return result


def whole(pages_, size):
    return b"".join(one.ljust(PAGE, b"\0") for one in pages_)[:size]


def number(digits):
    return int.from_bytes(bytes(digits), "little")


def observe(scenario):
    from dtformats import errors
    from dtformats import wmi_repository

    if scenario["kind"] == "map":

        def resolve(table, digits):
            try:
                return {"ok": True, "n": vt.nat(table.ResolveMappedPageNumber(number(digits)))}
            except errors.ParseError:
                return {"ok": False, "n": []}

        def maps(reader, out):
            out.append({"k": "!map", "v": {"version": reader.format_version, "seq": vt.nat(reader.sequence_number),
                                           "index": [resolve(reader.GetIndexMappingTable(), one) for one in scenario["get"]],
                                           "objects": [resolve(reader.GetObjectsMappingTable(), one) for one in scenario["get"]]}})

        return dbg.run_file(lambda debug, writer: wmi_repository.MappingFile(debug=debug, output_writer=writer), scenario["data"], finish=maps)

    def tree(reader, out):
        for digits in scenario["get"]:
            found = reader.GetPage(number(digits))
            if found is None:
                out.append({"k": "!nopage", "v": list(digits)})
                continue
            out.append({"k": "!page", "v": {"type": vt.nat(found.page_type), "root": vt.nat(found.root_page_number), "n": [-1] if found.number_of_keys is None else vt.nat(found.number_of_keys),
                                            "subs": [vt.nat(one) for one in found.sub_pages], "keys": [vt.text(key) for key in found.keys]}})

    return dbg.run_file(lambda debug, writer: wmi_repository.IndexBinaryTreeFile(debug=debug, output_writer=writer), whole(scenario["pages"], scenario["size"]), finish=tree)


def trace_input(scenario, part):
    if scenario["kind"] == "map":
        return {"src": {"kind": "map", "data": list(scenario["data"]), "get": [list(one) for one in scenario["get"]]}}
    return {"src": {"kind": "index", "pages": [list(one) for one in scenario["pages"]], "size": scenario["size"], "debug": not part.get("api", False), "get": [list(one) for one in scenario["get"]]}}
