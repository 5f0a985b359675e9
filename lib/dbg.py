"""Capturing and parsing the report (debug output) of a reader."""

import json
import os
import re
import shutil

import vt

READING = re.compile(r"^Reading (.+) at offset: (\d+) \(0x([0-9a-f]{8,})\)$")
VALUE = re.compile(r"^([^\t]*)\t+: (.*)$")
DUMP_LINE = re.compile(r"^0x([0-9a-f]{8})  ((?:[0-9a-f]{2} )*[0-9a-f]{2}(?:  (?:[0-9a-f]{2} ?)*)?) *  (.*)$")


def make_writer():
    from dtformats import output_writers

    class Capture(output_writers.OutputWriter):
        """Output writer that keeps the text."""

        def __init__(self):
            super().__init__()
            self.parts = []

        def Close(self):
            pass

        def Open(self):
            return True

        def WriteText(self, text):
            self.parts.append(text)

        @property
        def text(self):
            return "".join(self.parts)

    return Capture()


def printable(label):
    return "".join(c if " " <= c <= "~" else "?" for c in label)


def parse_dump_line(line):
    """Returns (offset, bytes) of a hexadecimal dump line or None."""
    if not re.match(r"^0x[0-9a-f]{8}  ", line):
        return None
    offset = int(line[2:10], 16)
    part = line[12:12 + 49]
    try:
        values = bytes(int(v, 16) for v in part.split())
    except ValueError:
        return None
    return offset, values


def parse(text, keep=()):
    """Turns a report into events.

    "@what" reading of a structure at an offset, "#label" a data dump, and
    label/value lines; blank lines are dropped.
    """
    events = []
    lines = text.split("\n")
    index = 0
    while index < len(lines):
        line = lines[index]
        index += 1
        if not line:
            continue
        if line.startswith("\x01"):
            events.append(json.loads(line[1:]))
            continue
        match = READING.match(line)
        if match:
            value = int(match.group(2))
            if int(match.group(3), 16) != value:
                value = None
            events.append({"k": "@" + match.group(1), "v": vt.nat(value)})
            continue
        match = VALUE.match(line)
        if match:
            events.append({"k": printable(match.group(1)), "v": vt.text(match.group(2))})
            continue
        if line.endswith(":"):
            # a dump, possibly empty
            content = bytearray()
            ok = True
            gap = False
            while index < len(lines):
                if lines[index] == "..." and content:
                    gap = True
                    index += 1
                    continue
                parsed = parse_dump_line(lines[index])
                if not parsed:
                    break
                offset, values = parsed
                if gap:
                    while len(content) < offset:
                        content += content[-16:]
                    gap = False
                if offset != len(content):
                    ok = False
                content += values
                index += 1
            if gap:
                ok = False
            name = "#" + printable(line[:-1])
            # the data of a structure just announced repeats the file contents
            if name not in keep and events and events[-1]["k"].startswith("@"):
                what = events[-1]["k"][1:]
                if name == "#" + what[0].upper() + what[1:] + " data":
                    continue
            events.append({"k": name, "v": list(content) if ok else [-7]})
            continue
        events.append({"k": "text", "v": vt.text(line)})
    return events


class Recorder:
    """Records interface events, in line with the report when there is one."""

    def __init__(self, writer=None):
        self.writer = writer
        self.events = []

    def append(self, event):
        if self.writer:
            self.writer.WriteText("\x01" + json.dumps(event) + "\n")
        else:
            self.events.append(event)


def run_dir(body, budget=10.0, keep=()):
    """Runs body(debug, writer, out, directory) with and without a report.

    The directory is a scratch directory that is removed afterwards; out takes
    interface events ("!..."), which are interleaved with the report.

    Returns the two observations.
    """
    parts = []
    for debug in (True, False):
        writer = make_writer() if debug else None
        out = Recorder(writer)

        def run():
            directory = f"/dev/shm/vt-{os.getpid()}"
            os.makedirs(directory, exist_ok=True)
            try:
                body(debug, writer, out, directory)
            finally:
                shutil.rmtree(directory, ignore_errors=True)

        result, _ = vt.call(run, budget)
        if result in ("hang", "MemoryError"):
            parts.append({"obs": [], "res": result, "bind": False})
        elif debug:
            parts.append({"obs": parse(writer.text, keep), "res": result, "bind": True})
        else:
            parts.append({"obs": out.events, "res": result, "bind": True, "api": True})
    return parts


def run_file(make, data, name="f", finish=None, budget=10.0, keep=()):
    """Opens data (bytes) as a file with a reader made by make(debug, writer).

    finish(reader, out) may call the interface of the reader and append
    events ("!...") to out, which are interleaved with the report.

    Returns the two observations (with and without the report).
    """

    def body(debug, writer, out, directory):
        path = os.path.join(directory, name)
        with open(path, "wb") as file_object:
            file_object.write(data)
        reader = make(debug, writer)
        reader.Open(path)
        if finish:
            finish(reader, out)
        reader.Close()

    return run_dir(body, budget, keep)
