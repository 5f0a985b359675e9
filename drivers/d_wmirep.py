"""Conformance of the CIM repository file with spec/WmiRep.tla."""

import os
import struct

import d_wmiobjects
import dbg
import gen
import vt

SPEC = "WmiRep"
MODELS = {
    "quick": [("WmiRepMC", "WmiRepMC.cfg")],
    "thorough": [("WmiRepMC", "WmiRepMC_thorough.cfg")],
}
u16, u32 = d_wmiobjects.u16, d_wmiobjects.u32
NAMES = ("ROOT", "CIMV2", "a", "", "caf\xe9", "x.y", "DEFAULT")


class Ref:
    """A reference to a node, by its number."""

    def __init__(self, node, delta=0):
        self.node, self.delta = node, delta


class Nodes:
    """The nodes of a file; a node is a list of bytes and references."""

    def __init__(self, rng):
        self.rng = rng
        self.nodes = []
        self.first = {}

    def new(self, kind):
        self.nodes.append([kind])
        self.first.setdefault(kind, []).append(len(self.nodes) - 1)
        return len(self.nodes) - 1

    def fill(self, node, *parts):
        self.nodes[node] = [part if isinstance(part, (bytes, Ref)) else u32(part) for part in parts]

    def footer(self):
        return gen.blob(self.rng, 12)

    def name(self, text=None):
        node = self.new("name")
        data = (self.rng.choice(NAMES + ("\U0001d11e",)) if text is None else text).encode("utf-16-le")
        if self.rng.random() < 0.03:
            data += self.rng.choice((b"\0\xd8", b"\0\xdc"))
        data += b"\0\0"
        if self.rng.random() < 0.02:
            data = data[:-2] + b"\1\0"
        data += bytes(-len(data) % 4)
        self.fill(node, data, self.footer())
        return Ref(node)

    def tree(self, values, depth=None):
        rng = self.rng
        root = self.new("tree")
        if depth is None:
            depth = rng.choice((0, 1, 1, 2)) if not values else 1 if len(values) == 1 and rng.random() < 0.6 else 2
        if rng.random() < 0.01:
            depth = 3
        child = rng.choice((0, 0, 40, 0xFFFFFFFF)) if not values and depth == 2 and rng.random() < 0.2 else 0
        if depth == 1:
            child = values[0] if values else rng.choice((0, 0, 3, 40))
        elif depth == 2 and not (not values and rng.random() < 0.4):
            branch = self.new("branch")
            child = Ref(branch)
            leaf = 0
            if values or rng.random() < 0.6:
                leaf = self.new("leaf")
                slots = list(values[:10]) + [0] * (10 - len(values[:10]))
                if rng.random() < 0.4:
                    rng.shuffle(slots)
                slots = [rng.choice((0, 1, 40)) if isinstance(slot, int) and slot == 0 and rng.random() < 0.1 else slot for slot in slots]
                self.fill(leaf, *slots, self.footer())
                leaf = Ref(leaf)
            self.fill(branch, len(values), 10, 5, leaf, self.footer())
        self.fill(root, depth, rng.choice((len(values), 0, 10)), child, self.footer())
        return Ref(root)

    def list(self, values):
        rng = self.rng
        node = self.new("list")
        elements = [self.new("element") for _ in values]
        for index, value in enumerate(values):
            following = Ref(elements[index + 1]) if index + 1 < len(elements) else rng.choice((0, 0, 40))
            if rng.random() < 0.04:
                following = Ref(rng.choice(elements))
            name = self.name() if rng.random() < 0.6 else rng.choice((0, 40, 12))
            self.fill(elements[index], rng.choice((0, 1, 0xFFFFFFFF)), name, value, 0, 0, Ref(elements[index - 1]) if index else 0, following, self.footer())
        self.fill(node, Ref(elements[-1]) if elements else 0, Ref(elements[0]) if elements else rng.choice((0, 40)), Ref(elements[-1]) if elements else 0, 31, len(elements), self.footer())
        return Ref(node)

    def definition(self, block):
        """A branch node of a class definition, or no offset."""
        rng = self.rng
        if rng.random() < 0.03:
            return rng.choice((0, 7, 40))
        branch = self.new("definition")
        if rng.random() < 0.03:
            leaf = rng.choice((0, 40))
        else:
            leaf = self.new("class block")
            other = gen.blob(rng, rng.choice((0, 0, 3, 9)))
            data = u32(len(block) + 4) + block + u32(len(other) + 4) + other
            data += bytes(-len(data) % 4)
            self.fill(leaf, data, self.footer())
            leaf = Ref(leaf)
        self.fill(branch, 0, 0, 1, leaf, 0, self.footer())
        return Ref(branch)

    def instance(self, root, block):
        """A branch node of an instance."""
        rng = self.rng
        branch = self.new("instance")
        leaf = self.new("instance block")
        self.fill(leaf, u32(len(block) + 4) + block, self.footer())
        leaf = Ref(leaf)
        number = 2
        roll = rng.random()
        if roll < 0.02:
            number = rng.choice((0, 1, 3))
        elif roll < 0.04:
            leaf = rng.choice((0, 40))
        elif roll < 0.06:
            root = rng.choice((0, 40))
        self.fill(branch, 0, root, number, leaf, 0, self.footer())
        return Ref(branch)

    def data(self, root, class_):
        """Returns the file; the cells are in some order and in bins."""
        rng = self.rng
        order = list(range(len(self.nodes)))
        rng.shuffle(order)
        if rng.random() < 0.3:
            order.remove(root)
            order.insert(0, root)
        cells, offsets = [], {}
        at = 40
        bins = rng.choice((0, 0, 100, 400))
        size = next_bin = 0
        heads = {}
        cut = None
        if bins and rng.random() < 0.1:
            heads[40] = 0
            at = 44
        number = {}
        raw = []
        for index, node in enumerate(order):
            if rng.random() < 0.06:
                blank = gen.blob(rng, rng.choice((0, 4, 8)))
                raw.append((at, None, blank))
                at += 4 + len(blank)
            if bins and at > bins * (len(heads) + 1):
                heads[at] = 0
                at += 4
            number[node] = len(raw)
            offsets[node] = at + 4
            length = sum(4 if isinstance(part, Ref) else len(part) for part in self.nodes[node])
            slack = gen.blob(rng, rng.choice((0, 0, 0, 4, 7)))
            raw.append((at, node, slack))
            at += 4 + length + len(slack)
        ends = sorted(heads) + [at]
        body = bytearray(at)
        # the size of the first bin is that of the header as well
        first = ends[0] if heads else rng.choice((at, at, 0, at + 100, 41))
        for index, start in enumerate(sorted(heads)):
            body[start : start + 4] = u32(ends[index + 1] - start)
        for start, node, slack in raw:
            data = b""
            if node is not None:
                for part in self.nodes[node]:
                    if isinstance(part, Ref):
                        data += u32(offsets[part.node] + part.delta)
                    else:
                        data += part
            flags = rng.choice((0, 0, 0, 0x80000000, 0x08000000, 0xF8000000))
            body[start : start + 4 + len(data) + len(slack)] = u32((4 + len(data) + len(slack)) | flags) + data + slack
        numbers = {"root": number[root], "class": number[class_]}
        if rng.random() < 0.05:
            numbers[rng.choice(("root", "class"))] = rng.choice((len(raw), 0, 0xFFFFFFFF, number[root]))
        body[0:40] = u32(numbers["class"]) + u32(numbers["root"]) + u32(len(body)) + bytes(12) + gen.blob(rng, 12) + u32(first)
        body = bytes(body)
        roll = rng.random()
        if roll < 0.25:
            # the space that is not used
            body += u32(rng.choice((0, 0, 0x80000000, 0x08000000))) + gen.blob(rng, rng.choice((0, 5, 30)))
        elif roll < 0.3:
            body += gen.blob(rng, rng.choice((1, 3, 8)))
        elif roll < 0.33:
            body = body[: rng.randrange(len(body))]
        return body, offsets


def class_block(rng, name, floats):
    """A class with its block, the layout of its values and their size."""
    record, properties, _ = d_wmiobjects.define(rng, name, rng.choice((None, None, "Base")), 0, 0, floats, False)
    count = struct.unpack_from("<I", record)[0]
    at = 4 + 2 * count + 8
    size = struct.unpack_from("<I", record, at)[0]
    number = len({key for _, _, key in properties})
    last = max(properties, key=lambda item: item[1], default=None)
    total = last[1] + d_wmiobjects.SIZES.get(last[0], 4) if last else 0
    return record[at + 4 : at + size], number, properties, total


def namespace_class(rng):
    """The class of the namespaces: it has a name."""
    values = d_wmiobjects.Values(rng)
    name_at = values.text("__NAMESPACE")
    property_at = values.text(rng.choice(("Name",) * 12 + ("name", "Other")))
    kind, type_name = (8, "string") if rng.random() < 0.97 else (19, "uint32")
    qualifiers = u32(0x8000000A) + b"\0" + u32(8) + u32(values.text(type_name))
    definition = u32(kind) + u16(0) + u32(0) + u32(0) + u32(4 + len(qualifiers)) + qualifiers
    descriptors = u32(property_at) + u32(values.add(definition))
    block = b"\0" + u32(name_at) + u32(0) + u32(4) + u32(4) + u32(1) + descriptors + u32(len(values.data) | 0x80000000) + values.data
    return block, 1, [(kind, 0, "name")], 4


def instance_block(rng, name, layout, text=None):
    _, number, properties, size = layout
    if text is None:
        record = d_wmiobjects.instance(rng, name, number, properties, size, True)
        at = 64 + 16
        if len(record) < at + 4:
            return b""
        return record[at + 4 : at + struct.unpack_from("<I", record, at)[0]]
    values = d_wmiobjects.Values(rng)
    name_at = values.text(name)
    if rng.random() < 0.5:
        values.add(b"\0")
    value = u32(values.text(text)) if rng.random() < 0.97 else u32(0)
    return u32(name_at) + b"\0" + gen.blob(rng, 1) + value + u32(4) + b"\1" + u32(0) + values.data


def build(rng, floats):
    nodes = Nodes(rng)
    # the classes
    names = ["__SystemClass", "__NAMESPACE"] + ["C" + str(number) for number in range(rng.choice((0, 1, 2, 3)))]
    layouts = [namespace_class(rng) if name == "__NAMESPACE" else class_block(rng, name, floats) for name in names]
    roots = [nodes.new("class") for _ in names]
    some = []

    def instance(number=None):
        if number is None:
            number = rng.randrange(len(names))
        if layouts[number][3] > 2000:
            return rng.choice((0, 40))
        text = rng.choice(NAMES) if number == 1 else None
        item = nodes.instance(Ref(roots[number]), instance_block(rng, names[number], layouts[number], text))
        some.append(item)
        return item

    for number, root in enumerate(roots):
        below = [roots[index] for index in range(number + 1, len(roots)) if (index - 1) // 2 == number]
        values = [Ref(item) for item in below]
        if rng.random() < 0.03:
            values.append(Ref(rng.choice(roots)))
        kind = rng.choice((9, 10)) if rng.random() < 0.95 else rng.choice((0, 8, 11))
        sub = nodes.tree(values) if values or rng.random() < 0.2 else rng.choice((0, 40))
        items = nodes.list([instance(number if rng.random() < 0.9 else None) if rng.random() < 0.95 else rng.choice((0, 40)) for _ in range(rng.choice((0, 1, 2)))]) if rng.random() < 0.6 else rng.choice((0, 40, 20))
        labels = nodes.tree([nodes.name() for _ in range(rng.choice((1, 2)))]) if rng.random() < 0.3 else rng.choice((0, 40))
        nodes.fill(root, 0, nodes.definition(layouts[number][0]), 0, kind, items, sub, 0, labels, nodes.footer())

    # the namespaces and instances
    holders = []

    def holder(depth):
        node = nodes.new("instance root")
        holders.append(node)
        values = []
        for _ in range(rng.choice((0, 1, 2, 3)) if depth < 3 else 0):
            value = nodes.new("value")
            below = Ref(holder(depth + 1)) if rng.random() < 0.95 else rng.choice((0, 40))
            if rng.random() < 0.03:
                below = Ref(rng.choice(holders))
            nodes.fill(value, nodes.name() if rng.random() < 0.7 else rng.choice((0, 40)), below, nodes.footer())
            values.append(Ref(value))
        roll = rng.random()
        branch = instance(1) if roll < 0.93 else instance() if roll < 0.96 else rng.choice((0, 40))
        children = nodes.tree(values) if values or rng.random() < 0.3 else rng.choice((0, 40, 0xFFFFFFFF))
        items = nodes.list([Ref(rng.choice(roots)) if rng.random() < 0.95 else 0 for _ in range(rng.choice((0, 1, 2)))]) if rng.random() < 0.4 else rng.choice((0, 40))
        unknown = rng.choice((0, 40))
        second = rng.choice((0, 0, 0, 1))
        if rng.random() < 0.3:
            unknown = nodes.new("unknown")
            data = gen.blob(rng, rng.choice((0, 4, 9)))
            nodes.fill(unknown, u32(len(data) + 4 + (100 if rng.random() < 0.05 else 0)) + data, nodes.footer())
            unknown = Ref(unknown)
        elif second and rng.random() < 0.5:
            unknown = 0xFFFFFF00
        nodes.fill(node, children, nodes.name() if rng.random() < 0.7 else rng.choice((0, 40)), branch, 0, items, second, unknown, nodes.footer())
        return node

    top = holder(0)
    # what is wrong with one of the nodes
    for _ in range(rng.choice((0,) * 6 + (1, 1, 2))):
        node = rng.choice(nodes.nodes)
        refs = [index for index, part in enumerate(node) if isinstance(part, Ref)]
        roll = rng.random()
        if roll < 0.4 and refs:
            index = rng.choice(refs)
            node[index] = rng.choice((u32(0), u32(40), u32(41), u32(0xFFFFFFFF), u32(100000), Ref(node[index].node, rng.choice((-4, 1, 4))), Ref(rng.randrange(len(nodes.nodes)))))
        elif roll < 0.7:
            # a byte less than is needed, or a node without data
            last = len(node) - 1
            if rng.random() < 0.3:
                node[:] = []
            elif isinstance(node[last], bytes):
                node[last] = node[last][: rng.choice((0, len(node[last]) - 1))]
        elif isinstance(node[0], bytes):
            _, node[0] = gen.mutate(rng, node[0], [(0, 4)])
    body, _ = nodes.data(top, roots[0])
    return body


OPS = ("namespaces", "instances", "classes")


def scenarios(rng, tier, dumped):
    result = []
    step = max(1, len(dumped) // 150) if tier == "quick" else 1
    for number_, (_, scenario) in enumerate(dumped):
        if number_ % step == 0:
            source = scenario["src"]
            result.append({"name": f"model-{number_}", "files": [bytes(one) for one in source["files"]], "ops": source["ops"], "floats": False, "repository": number_ % 2 == 1})
    for number_ in range(300 if tier == "quick" else 4000):
        floats = rng.random() < 0.1
        files = [build(rng, floats) for _ in range(rng.choice((1, 1, 1, 2)))]
        if rng.random() < 0.02:
            files.append(rng.choice((b"", bytes(39), bytes(40), bytes(44), u32(0) + u32(1) + bytes(28) + u32(40), u32(0) + u32(1) + bytes(28) + u32(40) + u32(8) + u32(8) + bytes(4))))
        ops = []
        for file in rng.sample(range(1, len(files) + 1), len(files)):
            ops.append({"op": "open", "f": file})
            for _ in range(rng.choice((1, 2, 3, 4))):
                ops.append({"op": rng.choice(OPS), "f": 0})
            ops.append({"op": "close", "f": 0})
        if rng.random() < 0.1:
            ops.pop()
        result.append({"name": f"random-{number_}", "files": files, "ops": ops, "floats": floats, "repository": rng.random() < 0.4})
    return result


def observe(scenario):
    from dtformats import wmi_repository

    def body(debug, writer, out, directory):
        paths = []
        for number, data in enumerate(scenario["files"]):
            root = os.path.join(directory, f"r{number}")
            os.makedirs(root)
            paths.append(os.path.join(root, ("CIM.REP", "cim.rep", "Cim.rep")[number % 3]))
            with open(paths[-1], "wb") as file_object:
                file_object.write(data)

        def shown(item):
            return {"name": vt.text(item.class_name), "derivation": [vt.text(one) for one in item.derivation], "dynasty": d_wmiobjects.value(item.dynasty), "super": d_wmiobjects.value(item.super_class_name),
                    "ps": d_wmiobjects.pairs(item.properties), "ns": vt.text(item.namespace or "")}

        file = wmi_repository.RepositoryFile(debug=debug, output_writer=writer)
        repository = wmi_repository.CIMRepository(debug=debug, output_writer=writer)
        usable = True
        for op in scenario["ops"]:
            kind, result = op["op"], "ok"
            if kind == "open":
                # class definitions are only read from the file itself
                rest = [one["op"] for one in scenario["ops"]]
                direct = not scenario["repository"] or "classes" in rest
            elif not usable and kind != "close":
                continue
            try:
                if kind == "open":
                    usable = True
                    (file if direct else repository).Open(paths[op["f"] - 1])
                    if not direct and repository.format_version != "2.0":
                        out.append({"k": "!version", "v": vt.text(str(repository.format_version))})
                elif kind == "close":
                    if usable:
                        (file if direct else repository).Close()
                else:
                    if kind == "classes":
                        items = file.ReadClassDefinitions()
                    elif direct:
                        items = file.ReadInstances() if kind == "instances" else file.ReadNamespaces()
                    else:
                        items = repository.GetInstances() if kind == "instances" else repository.GetNamespaces()
                    for item in items:
                        out.append({"k": "!instance", "v": shown(item)})
            except Exception as exception:
                result = type(exception).__name__
                if kind == "open":
                    usable = False
            out.append({"k": "!end", "v": {"op": kind, "res": result}})
        if usable and scenario["ops"][-1]["op"] != "close":
            (file if direct else repository).Close()

    parts = dbg.run_dir(body)
    parts[0]["obs"] = [event for event in parts[0]["obs"] if event["k"].startswith("!")]
    if scenario["floats"]:
        parts[0]["bind"] = parts[1]["bind"] = False
    return parts


def trace_input(scenario, part):
    return {"src": {"files": [list(one) for one in scenario["files"]], "debug": not part.get("api", False), "ops": scenario["ops"]}}
