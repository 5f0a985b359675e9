"""Conformance of unified logging message formatting with spec/LogFormat.tla."""

import struct

import gen
import vt

SPEC = "LogFormat"
MODELS = {
    "quick": [("LogFormatMC", "LogFormatMC.cfg")],
    "thorough": [("LogFormatMC", "LogFormatMC_thorough.cfg")],
}

CODES = {
    "location:SqliteResult": [*range(0, 30), 100, 101, 266],
    "mdns:protocol": range(0, 6), "mdns:nreason": range(0, 7), "mdns:rrtype": [*range(0, 70), 108, 109, 249, 250, 256, 257, 32768, 32769],
    "odtypes:mbridtype": range(0, 14),
    "odtypes:ODError": [0, 2, *range(1000, 1004), *range(1100, 1104), *range(2000, 2003), 2100, 2200, 3000, *range(3100, 3103), 4000, 4001, *range(4100, 4105),
                        *range(4200, 4204), 5000, 5001, *range(5100, 5104), *range(5200, 5206), *range(5300, 5306), *range(5400, 5409), 5500, 6000, 6001, *range(10000, 10004)],
}
CODE_NAMES = [*CODES, "errno", "darwin.errno", "location:CLClientAuthorizationStatus"]
SIZED = {
    "in_addr": (4,), "network:in_addr": (4,), "in6_addr": (16,), "network:in6_addr": (16,), "sockaddr": (16, 28, 0), "network:sockaddr": (16, 28, 0), "uuid_t": (16,),
    "location:_CLClientManagerStateTrackerState": (8,), "location:_CLLocationManagerStateTrackerState": (64, 72),
    "mdns:dns.counts": (8,), "mdns:dns.idflags": (8,), "mdns:dnshdr": (12,), "darwin.mode": (2, 4), "mask.hash": (0, 1, 2, 3, 4, 16),
    "bool": (0, 1, 4), "BOOL": (1, 4), "mdns:acceptable": (1, 4), "mdns:addrmv": (1, 4), "mdns:yesno": (1, 4),
    "signpost.description:begin_time": (8,), "signpost.description:end_time": (8,),
}
STRINGS = ["location:escape_only", "signpost.telemetry:string1", "signpost.telemetry:string2"]
SIGNPOSTS = ["signpost.description:attribute", "signpost.telemetry:number1", "signpost.telemetry:number2", "signpost.telemetry:number3"]
OTHER = ["time_t", "odtypes:mbr_details", "odtypes:nt_sid_t"]
IGNORED = ["public", "private", "sensitive", "xcode:size-in-bytes", "bluetooth:OI_STATUS", "name=x", " public ", "name=", ""]
UNKNOWN = ["nope", "signpost.telemetry", "Bool", "é", "internal", "uuid", "publiC"]
ALL_NAMES = [*CODE_NAMES, *SIZED, *STRINGS, *SIGNPOSTS, *OTHER]
TEXTS = ["a", "/usr/lib", "x/y/z", "été", "日本", "{0}", "%d", "", "long value here", "nul\0in", "trail\0\0", "𝄞"]
INT_SPECS, FLOAT_SPECS, TEXT_SPECS = "dDiuUxXoOcpm", "aAeEfFgG", "@sP"
ERRNOS = [*range(-9, 110), 1 << 20, -(1 << 31)]


def decoders():
    """The decoder of each name, from the public decoder classes."""
    from dtformats import unified_logging as ul

    return {
        "bool": ul.BooleanFormatStringDecoder(false_value="false", true_value="true"),
        "BOOL": ul.BooleanFormatStringDecoder(false_value="NO", true_value="YES"),
        "mdns:acceptable": ul.BooleanFormatStringDecoder(false_value="unacceptable", true_value="acceptable"),
        "mdns:addrmv": ul.BooleanFormatStringDecoder(false_value="rmv", true_value="add"),
        "mdns:yesno": ul.BooleanFormatStringDecoder(false_value="no", true_value="yes"),
        "darwin.errno": ul.ExtendedErrorCodeFormatStringDecoder(),
        "errno": ul.ExtendedErrorCodeFormatStringDecoder(),
        "darwin.mode": ul.FileModeFormatStringDecoder(),
        "in_addr": ul.IPv4FormatStringDecoder(),
        "network:in_addr": ul.IPv4FormatStringDecoder(),
        "in6_addr": ul.IPv6FormatStringDecoder(),
        "network:in6_addr": ul.IPv6FormatStringDecoder(),
        "sockaddr": ul.SocketAddressFormatStringDecoder(),
        "network:sockaddr": ul.SocketAddressFormatStringDecoder(),
        "internal:f": ul.FloatingPointFormatStringDecoder(),
        "internal:i": ul.SignedIntegerFormatStringDecoder(),
        "internal:m": ul.ErrorCodeFormatStringDecoder(),
        "internal:s": ul.StringFormatStringDecoder(),
        "internal:u": ul.UnsignedIntegerFormatStringDecoder(),
        "location:_CLClientManagerStateTrackerState": ul.LocationClientManagerStateFormatStringDecoder(),
        "location:_CLLocationManagerStateTrackerState": ul.LocationLocationManagerStateFormatStringDecoder(),
        "location:CLClientAuthorizationStatus": ul.LocationClientAuthorizationStatusFormatStringDecoder(),
        "location:escape_only": ul.LocationEscapeOnlyFormatStringDecoder(),
        "location:SqliteResult": ul.LocationSQLiteResultFormatStringDecoder(),
        "mask.hash": ul.MaskHashFormatStringDecoder(),
        "mdns:dns.counts": ul.MDNSDNSCountersFormatStringDecoder(),
        "mdns:dns.idflags": ul.MDNSDNSIdentifierAndFlagsFormatStringDecoder(),
        "mdns:dnshdr": ul.MDNSDNSHeaderFormatStringDecoder(),
        "mdns:protocol": ul.MDNSProtocolFormatStringDecoder(),
        "mdns:nreason": ul.MDNSReasonFormatStringDecoder(),
        "mdns:rrtype": ul.MDNSResourceRecordTypeFormatStringDecoder(),
        "odtypes:mbr_details": ul.OpenDirectoryMembershipDetailsFormatStringDecoder(),
        "odtypes:mbridtype": ul.OpenDirectoryMembershipTypeFormatStringDecoder(),
        "odtypes:nt_sid_t": ul.WindowsNTSecurityIdentifierFormatStringDecoder(),
        "odtypes:ODError": ul.OpenDirectoryErrorFormatStringDecoder(),
        "signpost.description:attribute": ul.SignpostDescriptionAttributeFormatStringDecoder(),
        "signpost.description:begin_time": ul.SignpostDescriptionTimeFormatStringDecoder(time="begin"),
        "signpost.description:end_time": ul.SignpostDescriptionTimeFormatStringDecoder(time="end"),
        "signpost.telemetry:number1": ul.SignpostTelemetryNumberFormatStringDecoder(number=1),
        "signpost.telemetry:number2": ul.SignpostTelemetryNumberFormatStringDecoder(number=2),
        "signpost.telemetry:number3": ul.SignpostTelemetryNumberFormatStringDecoder(number=3),
        "signpost.telemetry:string1": ul.SignpostTelemetryStringFormatStringDecoder(number=1),
        "signpost.telemetry:string2": ul.SignpostTelemetryStringFormatStringDecoder(number=2),
        "time_t": ul.DateTimeInSecondsFormatStringDecoder(),
        "uuid_t": ul.UUIDFormatStringDecoder(),
    }


def integer(rng, spec="d"):
    size = rng.choice((1, 2, 4, 8, 4, 8))
    if spec in "cC":
        value = rng.choice((0x41, 0x20AC, 0x1F600, 0, 10, 0x10FFFF, 0x110000, 0xFFFFFFFF, 0x7E))
        value &= (1 << 8 * size) - 1
        if 0xD800 <= value < 0xE000:
            value = 0x78
    else:
        value = rng.choice((0, 1, 7, 42, 255, 1 << (8 * size - 1), (1 << 8 * size) - 1, rng.randrange(1 << 8 * size))) & ((1 << 8 * size) - 1)
    return value.to_bytes(size, "little")


def floating(rng, special=True):
    value = rng.choice((0.0, -0.0, 1.0, 0.5, 2.5, 1.5, 0.125, 1e10, 123456.789, -3.75, 9.9999995, 0.00001234, 99999.95, 1e-7, 999999.5, 1e15, 1e16, 1e17,
                        rng.uniform(-1000, 1000), rng.uniform(-1, 1), round(rng.uniform(0, 100), 2), float(rng.randrange(-10, 10))))
    if special and rng.random() < 0.08:
        value = rng.choice((float("inf"), float("-inf"), float("nan")))
    return struct.pack(rng.choice(("<d", "<d", "<f")), value)


def flags(rng, maximum=3):
    result = "".join(rng.choice("-+0 #") for _ in range(rng.choice((0, 0, 0, 1, 1, 2, maximum))))
    return result


def value_for(rng, name, spec):
    """A value that suits the decoder."""
    if rng.random() < 0.04:
        return gen.blob(rng, rng.choice((0, 1, 3, 4, 5, 8, 12, 16)))
    if name in CODES:
        return struct.pack("<I", rng.choice([*CODES[name]] * 3 + [gen.u(rng, 32)]))
    if name in ("errno", "darwin.errno"):
        return struct.pack("<i", rng.choice(ERRNOS))
    if name == "location:CLClientAuthorizationStatus":
        return rng.choice((rng.randrange(6), gen.u(rng, 32))).to_bytes(4, "little")
    if name in ("sockaddr", "network:sockaddr"):
        kind = rng.randrange(4)
        if kind == 0:
            return bytes([16, 2, 0, 80]) + gen.blob(rng, 12)
        if kind == 1:
            address = b"".join(rng.choice((b"\0\0", gen.blob(rng, 2), b"\0\1", b"\x0a\0")) for _ in range(8))
            return bytes([28, 30, 0, 80, 0, 0, 0, 0]) + rng.choice((address, bytes(16))) + gen.blob(rng, 4)
        if kind == 2:
            return bytes([rng.choice((16, 28)), rng.choice((2, 30, 1))]) + gen.blob(rng, rng.choice((14, 26, 0, 13)))
        return rng.choice((b"", b"\x02", b"\0\2"))
    if name in ("bool", "BOOL", "mdns:acceptable", "mdns:addrmv", "mdns:yesno"):
        return rng.choice((b"", b"\0", b"\1", b"\0\0\0\0", b"\0\1\0\0", b"\xff", b"\0\0\0\x80"))
    if name.startswith("location:_CLLocation"):
        size = rng.choice((64, 72))
        data = bytearray(rng.choice((0, 1, 1)) for _ in range(size))
        for offset in (0, 8, 24):
            data[offset:offset + 8] = struct.pack("<d", rng.choice((0.5, 1.5, 2.5, -1.0, 100.0, -0.4, 1e6, rng.uniform(-500, 500))))
        data[36:40] = struct.pack("<I", gen.u(rng, 32))
        data[48:56] = struct.pack("<q", rng.choice((0, -1, 1, 5, 1 << 40)))
        data[56:60] = struct.pack("<i", rng.choice((0, 1, -1, 77)))
        return bytes(data)
    if name.startswith("location:_CLClient"):
        return struct.pack("<II", gen.u(rng, 32), rng.choice((0, 1, 0, 1, 256)))
    if name in SIZED:
        return gen.blob(rng, rng.choice(SIZED[name]))
    if name in STRINGS:
        return rng.choice((rng.choice(TEXTS).encode(), rng.choice(TEXTS).encode() + b"\0", b"\xc3(", b""))
    if name == "time_t":
        size = rng.choice((4, 8, 8, 4, 2))
        value = rng.choice((0, 1, -1, 86399, -86401, 1700000000, 253402300799, 253402300800, -62135596800, -62135596801, 951782400, rng.randrange(-(1 << 31), 1 << 31), 1 << 62, -(1 << 63)))
        value &= (1 << 8 * size) - 1
        return value.to_bytes(size, "little")
    if name == "odtypes:mbr_details":
        code = rng.choice((0x23, 0x24, 0x44, 0xA0, 0xA3, 0xA4, 0xC3, 0x25))
        body = struct.pack("<i", rng.choice((0, -1, 501, -(1 << 31)))) if code in (0x23, 0xA3, 0xC3) else rng.choice(("user", "é", "")).encode() + b"\0"
        data = bytes([code]) + body + rng.choice(("Domain", "ü", "", "/Local/Default")).encode() + rng.choice((b"\0", b"\0", b"\0", b"", b"\0zz", b"\xff\0"))
        return data[:rng.choice((len(data), len(data), len(data), rng.randrange(len(data) + 1)))]
    if name == "odtypes:nt_sid_t":
        count = rng.choice((1, 2, 5, 1, 0))
        data = bytes([rng.choice((1, 1, 2, 255)), count]) + rng.choice((bytes(5) + b"\5", gen.blob(rng, 6))) + b"".join(struct.pack("<I", gen.u(rng, 32)) for _ in range(count))
        return data[:rng.choice((len(data), len(data), len(data), rng.randrange(len(data) + 1)))] + rng.choice((b"", b"", b"zz"))
    if spec in FLOAT_SPECS:
        return floating(rng)
    if spec == "m" and name == "":
        return struct.pack("<i", rng.choice(ERRNOS))
    if spec in "@sSP":
        return rng.choice((rng.choice(TEXTS).encode() + b"\0", rng.choice(TEXTS).encode(), b"", b"\xff\xfe"))
    return integer(rng, spec)


def operator(rng, name=None):
    """An operator and a value for it."""
    names = []
    if name is None and rng.random() < 0.45:
        name = rng.choice(ALL_NAMES + UNKNOWN)
    if name:
        names = [rng.choice(IGNORED) for _ in range(rng.choice((0, 0, 0, 1, 2)))] + [name] + [rng.choice(IGNORED + ALL_NAMES) for _ in range(rng.choice((0, 0, 0, 1)))]
    elif rng.random() < 0.25:
        names = [rng.choice(IGNORED) for _ in range(rng.choice((1, 2)))]
    spec = rng.choice(INT_SPECS + INT_SPECS + FLOAT_SPECS + TEXT_SPECS * 3 + "CSn")
    text = "%"
    if names:
        joined = rng.choice((",", ", ", " ,")).join(names)
        if joined:
            text += "{" + joined[:128] + "}"
    data = value_for(rng, name or "", spec)
    special = spec in FLOAT_SPECS and len(data) in (4, 8) and struct.unpack("<d" if len(data) == 8 else "<f", data)[0] in (float("inf"), float("-inf"))
    special = special or (spec in FLOAT_SPECS and len(data) in (4, 8) and struct.unpack("<d" if len(data) == 8 else "<f", data)[0] != struct.unpack("<d" if len(data) == 8 else "<f", data)[0])
    mark = flags(rng)
    if special:
        mark = mark.replace("0", "")
    text += mark
    text += rng.choice(("", "", "", "5", "12", "*", "1", "30"))
    if spec in FLOAT_SPECS and name not in SIGNPOSTS:
        text += rng.choice(("", "", ".2", ".0", ".", ".1", ".3", ".10", ".*"))
    else:
        text += rng.choice(("", "", "", ".2", ".0", ".", ".*", ".16"))
    text += rng.choice(("", "", "", "h", "hh", "l", "ll", "q", "j", "t", "z", "L"))
    return text + spec, data


def scenarios(rng, tier, dumped):
    result = []
    inputs = [scen["src"] for _, scen in dumped]
    if tier == "quick" and len(inputs) > 1300:
        inputs = rng.sample(inputs, 1300)
    for number, src in enumerate(inputs):
        result.append({"name": f"model-{number}", "fmt": "".join(map(chr, src["fmt"])), "items": [bytes(item) for item in src["items"]]})
    total = 900 if tier == "quick" else 12000
    for number in range(total):
        pieces, items = [], []
        for _ in range(rng.choice((1, 1, 2, 3))):
            pieces.append(rng.choice(("", "", "value: ", "{", "}", "{0}", "{}", "%%", "100%% of ", "é ", "}{", "% ", "%", "%-", "%{x", "\t", "a,b", "%5", "%.")))
            if pieces[-1] in ("%", "%-", "% ", "%5", "%."):
                pieces.append(rng.choice(("!", ")", "%%", "&")))
            if rng.random() < 0.9:
                text, data = operator(rng)
                pieces.append(text)
                items.append(data)
        pieces.append(rng.choice(("", "", " end", "%", "}", "%%", "{")))
        if rng.random() < 0.1:
            items = items[:-1]
        elif rng.random() < 0.05:
            items.append(b"\1\2\3\4")
        result.append({"name": f"random-{number}", "fmt": "".join(pieces), "items": items})
    # every decoder with each of its values, alone
    for name in ALL_NAMES:
        for number in range(6 if tier == "quick" else 60):
            text, data = operator(rng, name)
            result.append({"name": f"decoder-{name}-{number}", "fmt": "<" + text + ">", "items": [data]})
    for name, codes in CODES.items():
        for code in codes:
            result.append({"name": f"code-{name}-{code}", "fmt": "%{" + name + "}d", "items": [struct.pack("<I", code)]})
    for code in ERRNOS:
        result.append({"name": f"errno-{code}", "fmt": "%m %{darwin.errno}d", "items": [struct.pack("<i", code)] * 2})
    for bit in range(16):
        for name, size in (("darwin.mode", 2), ("mdns:dns.idflags", 8)):
            result.append({"name": f"bit-{name}-{bit}", "fmt": "%{" + name + "}d", "items": [(1 << bit).to_bytes(size, "little")]})
    for kind in range(16):
        result.append({"name": f"mode-{kind}", "fmt": "%{darwin.mode}d", "items": [struct.pack("<H", kind << 12 | 0o644)]})
        result.append({"name": f"dnshdr-{kind}", "fmt": "%{mdns:dnshdr}d", "items": [struct.pack(">6H", 0xBEEF, kind << 11 | kind, 1, 2, 3, 4)]})
    return result


def render(scenario, out):
    from dtformats import unified_logging as ul

    table = decoders()
    formatter = ul.StringFormatter()
    formatter.ParseFormatString(scenario["fmt"])
    count = 0
    while formatter.GetFormatStringOperator(count) is not None:
        count += 1
    values = []
    for index in range(count):
        names = formatter.GetDecoderNamesByIndex(index)
        out.append({"k": "!decoders", "v": vt.text(",".join(names))})
        if index >= len(scenario["items"]):
            continue
        if not names:
            value = "<decode: missing decoder>"
        elif names[0] not in table:
            value = f"<decode: unsupported decoder: {names[0]:s}>"
        else:
            value = table[names[0]].FormatValue(scenario["items"][index], format_string_operator=formatter.GetFormatStringOperator(index))
        out.append({"k": "!value", "v": vt.text(value)})
        values.append(value)
    out.append({"k": "!message", "v": vt.text(formatter.FormatString(values))})


def observe(scenario):
    out = []
    result, _ = vt.call(lambda: render(scenario, out))
    return {"obs": out, "res": result, "bind": True}


def trace_input(scenario, _part):
    return {"src": {"fmt": vt.text(scenario["fmt"]), "items": [list(item) for item in scenario["items"]]}, "weight": 300}
