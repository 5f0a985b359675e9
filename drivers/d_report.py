"""Conformance of the debug report with spec/Report.tla."""

import contextlib
import io
import struct
import uuid

import gen
import vt

SPEC = "Report"
MODELS = {
    "quick": [("ReportMC", "ReportMC.cfg")],
    "thorough": [("ReportMC", "ReportMC_thorough.cfg")],
}

CALLBACKS = {
    "data": "_FormatDataInHexadecimal",
    "decimal": "_FormatIntegerAsDecimal",
    "hex2": "_FormatIntegerAsHexadecimal2",
    "hex4": "_FormatIntegerAsHexadecimal4",
    "hex8": "_FormatIntegerAsHexadecimal8",
    "offset": "_FormatIntegerAsOffset",
    "float": "_FormatFloatingPoint",
    "string": "_FormatString",
    "plain": None,
    "uuid": "_FormatUUIDAsString",
    "filetime": "_FormatIntegerAsFiletime",
    "posix": "_FormatIntegerAsPosixTime",
    "hfs": "_FormatIntegerAsHFSTime",
    "micro": "_FormatIntegerAsPosixTimeInMicroseconds",
    "nano": "_FormatIntegerAsPosixTimeInNanoseconds",
    "stream": "_FormatStreamAsString",
    "decimals": "_FormatArrayOfIntegersAsDecimals",
    "offsets": "_FormatArrayOfIntegersAsOffsets",
    "ipv4": "_FormatArrayOfIntegersAsIPv4Address",
    "ipv6": "_FormatArrayOfIntegersAsIPv6Address",
}
INTEGERS = ("decimal", "hex2", "hex4", "hex8", "offset", "filetime", "posix", "hfs")
TEXT = ("string", "plain")


def attribute(description, form, value):
    result = {"d": [ord(c) for c in description], "f": form, "s": 0, "b": []}
    if value is None:
        result["s"] = 2
    elif isinstance(value, int):
        result["s"] = 1 if value < 0 else 0
        result["b"] = vt.nat(abs(value))
    elif isinstance(value, str):
        result["b"] = [ord(c) for c in value]
    else:
        result["b"] = list(value)
    return result


def value_of(attr):
    form, data = attr["f"], attr["b"]
    if attr["s"] == 2:
        return None
    if form in INTEGERS or form in ("micro", "nano"):
        value = int.from_bytes(bytes(data), "little")
        return -value if attr["s"] == 1 else value
    if form == "float":
        return struct.unpack("<d", bytes(data))[0]
    if form in TEXT:
        return "".join(chr(c) for c in data)
    if form == "uuid":
        return uuid.UUID(bytes=bytes(data))
    if form in ("data", "stream"):
        return bytes(data)
    return list(data)


def label(rng):
    return "".join(rng.choice("abcdefgh IJK0(]é日") for _ in range(rng.choice((1, 3, 7, 8, 9, 15, 16, 23, 31, 55, 62, 63, 64, 71, 72, 79, 95))))


def random_data(rng):
    roll = rng.random()
    if roll < 0.4:
        return gen.blob(rng, rng.choice((0, 1, 7, 8, 9, 15, 16, 17, 24, 25, 31, 32, 33, 64, 100)))
    rows = [bytes(16), b"\x41" * 16, bytes(range(16)), b"\xff" * 16]
    data = b"".join(rng.choice(rows) * rng.choice((1, 1, 2, 3, 5)) for _ in range(rng.randrange(1, 5)))
    return data + rng.choice(rows)[: rng.choice((0, 0, 1, 8, 12, 15))]


def random_attribute(rng, form=None):
    form = form or rng.choice(sorted(CALLBACKS))
    if form in INTEGERS:
        bits = rng.choice((8, 16, 32, 40, 48, 64))
        value = gen.u(rng, bits)
        if rng.random() < 0.2:
            value = -value
        if form in ("posix",) and rng.random() < 0.5:
            value = rng.choice((-62135596800, 253402300799, -86400, 86400, 0, 4102444800)) + rng.randrange(-3, 4)
        if form == "posix" and rng.random() < 0.2:
            value = rng.randrange(-62135596800, 253402300800)
        if form == "filetime" and rng.random() < 0.5:
            value = (1 << 63) - 2 + rng.randrange(3)
        if form == "hfs" and rng.random() < 0.3:
            value = rng.choice((1 << 32, (1 << 32) - 1, 2082844800, 2082844799))
        return attribute(label(rng), form, value)
    if form in ("micro", "nano"):
        return attribute(label(rng), form, gen.u(rng, rng.choice((8, 32, 50, 63))))
    if form == "float":
        value = struct.pack("<d", rng.choice((0.0, -0.0, 1.5, -2.25, 1e-7, 5e-7, 1.5e-6, 123456.7890125, rng.uniform(-1e9, 1e9), rng.random())))
        if rng.random() < 0.1:
            value = struct.pack("<d", rng.choice((float("inf"), float("-inf"), 1e22, -1e15)))
        return attribute(label(rng), form, value)
    if form in TEXT:
        value = rng.choice(gen.WORDS) + rng.choice(("", "", "\x00", "\x00\x00", "\x00x", "\n", "\nmore", "\n\n"))
        return attribute(label(rng), form, value)
    if form == "uuid":
        return attribute(label(rng), form, gen.blob(rng, 16))
    if form == "stream":
        return attribute(label(rng), form, gen.blob(rng, rng.choice((0, 1, 5, 20))))
    if form == "data":
        return attribute(label(rng), form, random_data(rng))
    size = rng.choice((0, 1, 3, 4, 5, 15, 16, 17))
    return attribute(label(rng), form, [rng.randrange(256) for _ in range(size)])


def scenarios(rng, tier, dumped):
    result = []
    for number, (_, scen) in enumerate(dumped):
        result.append({"name": f"model-{number}", "s": scen})
    # every byte value in a stream and in a dump, every printable width of a label
    everything = [{"op": "struct", "attrs": [attribute("all", "stream", bytes(range(256)))]},
                  {"op": "data", "attrs": [attribute("all", "data", bytes(range(256)))]}]
    result.append({"name": "all-bytes", "s": {"writer": "writer", "ops": everything}})
    widths = [{"op": op, "attrs": [attribute("w" * n, "plain", "x")]} for n in range(0, 90) for op in ("value", "write")]
    result.append({"name": "all-widths", "s": {"writer": "stdout", "ops": widths}})
    for number in range(700 if tier == "quick" else 9000):
        ops = []
        writer = rng.choice(("writer", "writer", "stdout", "none"))
        for _ in range(rng.randrange(1, 5)):
            op = rng.choice(("value", "data", "text", "struct", "struct", "struct", "write"))
            if op == "write" and writer == "none":
                continue
            if op == "struct":
                attrs = [random_attribute(rng) for _ in range(rng.randrange(0, 5))]
                for attr in attrs:
                    if rng.random() < 0.1:
                        attr["s"], attr["b"] = 2, []
            elif op == "value":
                attrs = [random_attribute(rng, rng.choice(("plain", "decimal", "filetime", "posix")))]
            elif op == "data":
                attrs = [random_attribute(rng, "data")]
            elif op == "text":
                attrs = [random_attribute(rng, "plain")]
            else:
                attrs = [random_attribute(rng, rng.choice(("plain", "decimal")))]
                if rng.random() < 0.4:
                    attrs[0]["d"].insert(rng.randrange(len(attrs[0]["d"]) + 1), 9)
            ops.append({"op": op, "attrs": attrs})
        result.append({"name": f"random-{number}", "s": {"writer": writer, "ops": ops}})
    return result


class Values:
    """An object with attributes."""


def observe(scenario):
    from dtformats import data_format, output_writers

    s = scenario["s"]

    class Recorder(output_writers.OutputWriter):
        """Keeps what is written."""

        def __init__(self):
            super().__init__()
            self.text = ""

        def Close(self):
            return

        def Open(self):
            return

        def WriteText(self, text):
            self.text += text

    stream = io.StringIO()
    writer = {"none": None, "writer": Recorder(), "stdout": output_writers.StdoutWriter()}[s["writer"]]

    def taken(before):
        whole = writer.text if s["writer"] == "writer" else stream.getvalue()
        return whole[before:]

    def size():
        return len(writer.text) if s["writer"] == "writer" else len(stream.getvalue())

    def perform(target, op):
        attr = op["attrs"][0] if op["attrs"] else None
        if op["op"] == "struct":
            values = Values()
            info = []
            for index, item in enumerate(op["attrs"]):
                value = value_of(item)
                if value is not None or index % 2:
                    setattr(values, f"a{index}", value)
                info.append((f"a{index}", vt_text(item["d"]), CALLBACKS[item["f"]]))
            target._DebugPrintStructureObject(values, info)
            return
        description, value = vt_text(attr["d"]), value_of(attr)
        if op["op"] == "data":
            target._DebugPrintData(description, value)
        elif op["op"] == "text":
            target._DebugPrintText(value)
        elif op["op"] == "write":
            (writer if s["writer"] == "stdout" else output_writers.StdoutWriter()).WriteValue(description, value)
        elif attr["f"] == "decimal":
            target._DebugPrintDecimalValue(description, value)
        elif attr["f"] == "filetime":
            target._DebugPrintFiletimeValue(description, value)
        elif attr["f"] == "posix":
            target._DebugPrintPosixTimeValue(description, value)
        else:
            target._DebugPrintValue(description, value)

    def run():
        target = data_format.BinaryDataFormat(debug=True, output_writer=writer)
        events = []
        with contextlib.redirect_stdout(stream):
            if writer:
                writer.Open()
            for op in s["ops"]:
                if op["op"] == "write" and s["writer"] != "stdout":
                    before = len(stream.getvalue())
                    perform(target, op)
                    written = stream.getvalue()[before:]
                else:
                    before = size()
                    perform(target, op)
                    written = taken(before)
                events.append({"k": op["op"], "v": [ord(c) for c in written]})
            if writer:
                writer.Close()
        return events

    result, events = vt.call(run)
    return {"obs": events or [], "res": result}


def vt_text(codes):
    return "".join(chr(c) for c in codes)


def trace_input(scenario, _part):
    weight = 30 + sum(len(a["b"]) * 4 for op in scenario["s"]["ops"] for a in op["attrs"])
    return {"src": scenario["s"], "weight": weight}
