"""Conformance of the debug definitions with spec/DebugDefs.tla."""

import os
import tempfile

import yaml

import vt

SPEC = "DebugDefs"
MODELS = {
    "quick": [("DebugDefsMC", "DebugDefsMC.cfg")],
    "thorough": [("DebugDefsMC", "DebugDefsMC_thorough.cfg")],
}
FORMATS = ("binary_data", "decimal", "floating_point", "hexadecimal", "hexadecimal_2digits", "hexadecimal_4digits",
           "hexadecimal_8digits", "string", "uuid", "custom:one", "custom:two", "custom:three")


def codes(text):
    return [ord(c) for c in text]


def words(text):
    return "".join(chr(c) for c in text)


def near(rng):
    """A format that is nearly a supported one."""
    name = rng.choice(FORMATS + ("custom", "custom:"))
    at = rng.randrange(len(name))
    return rng.choice((name[:at] + name[at + 1 :], name[:at] + rng.choice("_:sx1") + name[at:], name.upper(), name + rng.choice("s_1"), name[:at], name[at:])) or "c"


def shipped():
    """The debug definitions in the repository."""
    directory = os.path.join(os.environ.get("VT_REPO", "/repo"), "dtformats")
    for name in sorted(os.listdir(directory)):
        if name.endswith(".debug.yaml"):
            with open(os.path.join(directory, name), encoding="utf-8") as file_object:
                docs = []
                for doc in yaml.safe_load_all(file_object):
                    attrs = [{"n": codes(a["name"]), "d": codes(a["description"]), "f": codes(a["format"])} for a in doc["attributes"]]
                    docs.append({"empty": False, "extra": False, "map": codes(doc["data_type_map"]), "attrs": attrs})
                yield name, docs


def scenarios(rng, tier, dumped):
    result = []
    for number, (_, scen) in enumerate(dumped):
        result.append({"name": f"model-{number}", "s": scen, "style": number % 3})
    for name, docs in shipped():
        for mode in ("read", "info"):
            # in pieces: the order and the content of every shipped definition
            for start in range(0, len(docs), 6):
                piece = docs[start : start + 6]
                result.append({"name": f"shipped-{name}-{mode}-{start}", "style": 0,
                               "s": {"docs": piece, "custom": [codes("date_time")], "mode": mode}})
    for number in range(250 if tier == "quick" else 5000):
        docs = []
        for _ in range(rng.randrange(0, 5)):
            attrs = [{"n": codes(rng.choice(("a", "b", "c", "data size", "été"))), "d": codes(rng.choice(("Size", "日本", "x: y", "#no"))),
                      "f": codes(rng.choice(FORMATS))} for _ in range(rng.randrange(1, 4))]
            if rng.random() < 0.12:
                rng.choice(attrs)[rng.choice("ndf")] = []
            elif rng.random() < 0.12:
                rng.choice(attrs)["f"] = codes(near(rng))
            docs.append({"empty": rng.random() < 0.02, "extra": rng.random() < 0.05,
                         "map": codes(rng.choice(("header", "record", "page", "trailer"))), "attrs": attrs})
        custom = [codes(n) for n in ("one", "two") if rng.random() < 0.6]
        result.append({"name": f"random-{number}", "style": rng.randrange(3),
                       "s": {"docs": docs, "custom": custom, "mode": rng.choice(("read", "info"))}})
    return result


def render(docs, style):
    """The YAML text of definitions; style: how a missing value is written."""
    parts = ["# comment\n"] if docs else ["# nothing\n"]
    for doc in docs:
        if doc["empty"]:
            parts.append(("---\n", "--- {}\n", "--- null\n")[style])
            continue
        values = {}
        if doc["extra"]:
            values["other"] = 1
        if doc["map"] or style == 1:
            values["data_type_map"] = words(doc["map"]) or None
        attrs = []
        for attr in doc["attrs"]:
            item = {}
            for key, short in (("name", "n"), ("description", "d"), ("format", "f")):
                if attr[short]:
                    item[key] = words(attr[short])
                elif style:
                    item[key] = None if style == 1 else ""
            attrs.append(item)
        if attrs or style:
            values["attributes"] = attrs if attrs or style == 1 else None
        if not values:
            values["attributes"] = []
        parts.append("---\n" + yaml.safe_dump(values, allow_unicode=True, sort_keys=style == 2))
    return "".join(parts)


def observe(scenario):
    from dtformats import data_format, errors, yaml_definitions_file

    s = scenario["s"]
    handle, path = tempfile.mkstemp(prefix="vt-yaml-", dir="/dev/shm")
    with os.fdopen(handle, "w", encoding="utf-8") as file_object:
        file_object.write(render(s["docs"], scenario["style"]))

    events = []

    def add(kind, value):
        events.append({"k": kind, "v": codes(value or "")})

    def run():
        try:
            if s["mode"] == "read":
                for definition in yaml_definitions_file.YAMLDebugDefinitionsFile().ReadFromFile(path):
                    add("map", definition.data_type_map)
                    for name, attribute in definition.attributes.items():
                        add("name", name if name == attribute.name else f"{name} / {attribute.name}")
                        add("description", attribute.description)
                        add("format", attribute.format)
            else:
                custom = {words(n): f"cb:{words(n)}" for n in s["custom"]}
                information = data_format.BinaryDataFormat.ReadDebugInformationFile(
                    path, custom_format_callbacks=custom or None)
                for data_type_map, attributes in information.items():
                    add("map", data_type_map)
                    for name, description, callback in attributes:
                        add("name", name)
                        add("description", description)
                        add("callback", callback)
            add("end", "")
        except errors.ParseError:
            add("parseerror", "")

    try:
        result, _ = vt.call(run)
    finally:
        os.remove(path)
    return {"obs": events, "res": result}


def trace_input(scenario, _part):
    return {"src": scenario["s"], "weight": 30 + 30 * sum(len(d["attrs"]) for d in scenario["s"]["docs"])}
