"""Conformance of data ranges with spec/Range.tla."""

import io
import os

import vt

SPEC = "Range"
MODELS = {
    "quick": [("RangeMC", "RangeMC.cfg")],
    "thorough": [("RangeMC", "RangeMC_thorough.cfg")],
}


def scenarios(rng, tier, dumped):
    result = []
    for number, (_, scen) in enumerate(dumped):
        result.append({"name": f"model-{number}", "s": scen, "kind": number % 3})
    for number in range(800 if tier == "quick" else 12000):
        parent = [rng.randrange(256) for _ in range(rng.choice((0, 1, 5, 16, 40)))]
        wins = []
        for _ in range(rng.randrange(1, 4)):
            wins.append({"off": rng.randrange(0, len(parent) + 3), "size": rng.randrange(0, len(parent) + 4)})
        if rng.random() < 0.1:
            wins[0][rng.choice(("off", "size"))] = -rng.randrange(1, 4)
        ops = []
        for _ in range(rng.randrange(4, 25)):
            op = rng.choice(("read", "read", "read", "seek", "seek", "size", "parent"))
            number_of = rng.choice((-2, -1, 0, 1, 2, 3, 7, 50))
            if op == "seek":
                number_of = rng.choice((-50, -3, -2, -1, 0, 0, 1, 2, 3, 8, 45))
            ops.append({"op": op, "w": rng.randrange(1, len(wins) + 1), "n": number_of,
                        "whence": rng.choice((0, 0, 0, 1, 1, 1, 2, 2, 3))})
        result.append({"name": f"random-{number}", "s": {"parent": parent, "wins": wins, "ops": ops}, "kind": number % 3})
    return result


def observe(scenario):
    from dtformats import cpio, data_range

    s = scenario["s"]
    path = None
    if scenario["kind"] == 1:
        path = f"/dev/shm/vt-range-{os.getpid()}"
        with open(path, "wb") as file_object:
            file_object.write(bytes(s["parent"]))
        parent = open(path, "rb")
    else:
        parent = io.BytesIO(bytes(s["parent"]))

    def run():
        cls = cpio.CPIOArchiveFileEntry if scenario["kind"] == 2 else data_range.DataRange
        wins = [cls(parent, data_offset=w["off"], data_size=w["size"]) for w in s["wins"]]
        events = []
        for number, op in enumerate(s["ops"]):
            window = wins[op["w"] - 1]
            kind, value = "parent", []
            try:
                if op["op"] == "read":
                    if op["n"] == -1:
                        got = window.read() if number % 2 else window.read(None)
                    elif op["n"] == -2:
                        got = window.read(-1 - number % 2)
                    else:
                        got = window.read(op["n"]) if number % 2 else window.read(size=op["n"])
                    kind, value = "data", vt.data(got)
                elif op["op"] == "seek":
                    if op["whence"] == 0 and number % 2:
                        window.seek(op["n"])
                    else:
                        window.seek(op["n"], op["whence"])
                    kind = "seeked"
                elif op["op"] == "size":
                    kind, value = "size", [window.get_size() if window.seekable() is True else -99]
                else:
                    parent.seek(op["n"] if op["n"] >= 0 else 0, os.SEEK_SET)
                    parent.read(1)
            except OSError:
                kind, value = "oserror", []
            at = window.tell() if number % 2 else window.get_offset()
            events.append({"k": kind, "v": value, "at": at if isinstance(at, int) else -9})
        return events

    try:
        result, events = vt.call(run)
    finally:
        parent.close()
        if path:
            os.remove(path)
    return {"obs": events or [], "res": result}


def trace_input(scenario, _part):
    return {"src": scenario["s"], "weight": 20 * len(scenario["s"]["ops"])}
